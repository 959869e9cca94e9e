#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: what is claimed, at which level."""
import json, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
DIRECT = "exhaustive enumeration of {} on the real code, every result compared with a reference model"
C = {}
def c(id, what, note, tech=None):
    C[id] = (tech or DIRECT.format(what), note)
TRUST = " Assurance ends at the stated bounds; trusted: the reference model in mc/src/rv.rs (which shares no code with /repo), and std's f64 parsing and printing as the arithmetic oracle."
c("C01", "all texts within bounds (characters, tokens, number and string alphabets, one and two edits of seed documents)", "Every text of the bounded families is parsed by the real parser and its acceptance and error kind compared with an RFC 8259 recognizer." + TRUST)
c("C02", "all texts within bounds", "Every accepted text of the bounded families is read back from the real document and compared with the model's denotation." + TRUST)
c("C03", "all calls within bounds (texts, paths, documents x operations, arguments of every kind) and nesting probes", "A panic, abort or endless call in any explored call is a violation; nesting beyond 2000 levels is explored in child processes and recorded in known-findings.txt." + TRUST)
c("C04", "all small documents", "Every document of the bounded families is built without the parser, encoded, and the text compared byte for byte with the model's encoder." + TRUST)
c("C05", "all small documents", "encode-parse and parse-encode-parse over every document and text of the bounded families." + TRUST)
c("C06", "all strings within bounds", "Every Unicode scalar value in every position of short strings, every string over the escape classes." + TRUST)
c("C07", "all documents x paths within bounds", "Every path text over the path alphabet against every small document, compared with the model's path reader." + TRUST)
c("C08", "all documents x paths x values within bounds", "The whole resulting document is compared with the model's, not only the value set." + TRUST)
c("C09", "all documents x paths within bounds", "The whole resulting document is compared with the model's." + TRUST)
c("C10", "", "All histories of operations up to the depth bound, explored breadth-first with deduplication of model states; after every step the real document is compared with the model and both are observed." + TRUST, "explicit-state breadth-first search over operation histories, every transition replayed on the real code and compared with the model state")
c("C11", "all texts x paths within bounds", "The text-level functions are compared with parse, operate, print on the model." + TRUST)
c("C12", "all values of small sets at many nested types", "Encode and decode of every enumerated value of every enumerated type; the document in between is compared with the model as well." + TRUST)
c("C13", "all small documents x types", "For every document and type the model says whether the document has the shape of the type; the real conversion must agree, with ConvertError on the others." + TRUST)
c("C14", "", "All histories of parsing, setting, pushing and deleting a repeated key, compared with a list of values per key." + TRUST, "explicit-state breadth-first search over operation histories, every transition replayed on the real code and compared with the model state")
c("C15", "all documents x finder chains within bounds", "Every chain of keys and positions through json!, finder methods and indexing, against the model." + TRUST)
c("C16", "all documents x failing operations within bounds", "Each operation the model refuses must fail and leave the whole document as it was." + TRUST)
c("C24", "all pairs of orders of building and parsing small documents", "Every order of insertion, deletion and reinsertion of small member sets; all must encode to the same text." + TRUST)
c("C25", "all sign, exponent and mantissa-pattern combinations of doubles", "Every double with one of the enumerated mantissas at every exponent and sign, and every short decimal text, bit for bit." + TRUST)
exec(open('tools/claims_macros.py').read()) if os.path.exists('tools/claims_macros.py') else None
checks = [dict(property=i, quick_cmd="./run.sh " + i, thorough_cmd="VERIF_TIER=thorough ./run.sh " + i, evidence_file="evidence/%s.json" % i, technique=C[i][0], level="model_checking", level_note=C[i][1]) for i in ids if i in C]
na = [dict(property=i, reason="check under construction") for i in ids if i not in C]
m = dict(version=1, setup_cmd="./run.sh build", checks=checks, not_applicable=na, notes="No hooks: every check uses the public interface of /repo. ./run.sh replay <file> re-executes a recorded violation. known-findings.txt lists repaired and recorded defects.")
open('MANIFEST.json', 'w').write(json.dumps(m, indent=1) + "\n")

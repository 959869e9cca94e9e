# claims about the macro crates; executed by mkmanifest.py
PTRUST = " Assurance ends at the stated bounds; trusted: the installed rustc (it compiles and runs the generated programs and tokenizes the expected text) and the generator's own account of what each program means, which shares no code with /repo."
def prog(what):
    return "exhaustive enumeration of {} within bounds, each compiled against the current tree and run, every result compared with a reference model".format(what)
c("C17", "", "Every table of fields over a bounded language (types, key attributes, ignore, repeated keys, raw identifiers, other attributes, parameters) is compiled with the derive and every combination of a few values per field is encoded; the text must be the model's." + PTRUST, prog("structs deriving JsonEncode and their values"))
c("C18", "", "The same structs with JsonDecode, on every document of the bounded family (each member present, absent, repeated, of wrong kind, with unknown members): fields, defaults and error kinds must be the model's, and decode after encode gives the value back." + PTRUST, prog("structs deriving JsonDecode and documents"))
c("C19", "", "Declarations built from every pair of the listed features (thorough: every triple) must compile with both derives, and the implementations must hold for the struct with its own parameters and bounds." + PTRUST, prog("struct declarations"))
c("C20", "", "All token sequences up to length 3 over an alphabet with every operator, literal form and group, plus tight spacing, nesting and long runs, compiled into a procedural macro and run inside rustc; the tokens must be those rustc makes of the text." + PTRUST, prog("token sequences handed to quote!"))
c("C21", "", "Every directive form alone, between every pair of neighbours, in every pair and inside every group form, with every combination of values; the tokens must be those of the model's expansion." + PTRUST, prog("uses of quote! directives and values"))
c("C22", "", "Items from every choice of values in every slot and up to four slots at once, and every type of depth two in every place a type can stand, parsed by json_parse inside rustc: every public part compared with what the generator wrote, the printed source compared by tokens, and parsed again." + PTRUST, "exhaustive enumeration of items within bounds, each handed to the real parser inside rustc, every part of the result and the printed source compared with a reference model")
c("C23", "", "Every list of attributes over the base set up to the bound, every literal form in every position, on every kind of item, field and variant: a fixed battery of every kind of lookup is compared with the model's answers." + PTRUST, "exhaustive enumeration of attribute lists within bounds, each handed to the real parser inside rustc, every lookup compared with a reference model")
c("C26", "", "Every well-formed word of scope commands up to the bound, every chain and nesting of conditions, every form of macro, argument, parameter list, literal, option and place, with every combination of values; the tokens must be those of a small interpreter of the commands, and under @span every token must carry the span." + PTRUST, prog("uses of quote! modifiers and scope commands"))

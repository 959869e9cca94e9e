pub mod beside;
pub mod big;
pub mod engine;
pub mod many;
pub mod errors;
pub mod codec;
pub mod derive;
pub mod finders;
pub mod gen;
pub mod ops;
pub mod parse;
pub mod paths;
pub mod quote;
pub mod rc;
pub mod refuse;
pub mod related;
pub mod rv;
pub mod scope;
pub mod texts;
pub mod total;
pub mod typed;

use engine::Run;
pub type Check = fn(&mut Run);

/// The checks this binary decides.
pub fn checks() -> Vec<(&'static str, Check)> {
    vec![("C01", texts::c01 as Check), ("C02", texts::c02),
        ("C03", total::c03),
        ("C04", codec::c04),
        ("C12", typed::c12),
        ("C13", typed::c13),
        ("C05", codec::c05),
        ("C06", codec::c06),
        ("C07", paths::c07),
        ("C24", codec::c24),
        ("C25", codec::c25),
        ("C10", ops::c10),
        ("C14", ops::c14),
        ("C15", finders::c15),
        ("C16", ops::c16),
        ("C08", paths::c08),
        ("C09", paths::c09),
        ("C11", paths::c11),
        ("C17", derive::c17),
        ("C18", derive::c18),
        ("C19", derive::c19),
        ("C20", quote::c20),
        ("C21", quote::c21),
        ("C26", scope::c26),
        ("C22", parse::c22),
        ("C23", parse::c23),
        ("C27", refuse::c27),
        ("C28", errors::c28),
    ]
}

pub use total::probe;

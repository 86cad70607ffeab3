use crate::report::Runner;

#[cfg(feature = "full")]
mod archive;
mod big;
#[cfg(feature = "full")]
mod fs;
mod hist;
mod hostile;
#[cfg(feature = "full")]
mod http;
mod touch;
mod wrong;

type Check = (&'static str, fn(&mut Runner));

pub const ALL: &[Check] = &[
    #[cfg(feature = "full")]
    ("C01", archive::c01),
    #[cfg(feature = "full")]
    ("C02", archive::c02),
    #[cfg(feature = "full")]
    ("C03", archive::c03),
    ("C04", hist::c04),
    ("C05", hist::c05),
    ("C06", hist::c06),
    ("C07", hist::c07),
    ("C08", wrong::c08),
    ("C09", hist::c09),
    ("C10", big::c10),
    #[cfg(feature = "full")]
    ("C11", archive::c11),
    #[cfg(feature = "full")]
    ("C12", archive::c12),
    #[cfg(feature = "full")]
    ("C13", archive::c13),
    ("C14", touch::c14),
    ("C15", touch::c15),
    ("C16", hist::c16),
    ("C17", hist::c17),
    #[cfg(feature = "full")]
    ("C18", fs::c18),
    #[cfg(feature = "full")]
    ("C19", fs::c19),
    #[cfg(feature = "full")]
    ("C20", http::c20),
    #[cfg(feature = "full")]
    ("C21", http::c21),
    ("C22", hist::c22),
    ("C23", hostile::c23),
];

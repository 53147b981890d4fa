//! Contract harnesses for mdarray, decided by Kani on the real crate in /repo.
//! One module and cargo feature per property.
//!
//! Naming convention (read by /verif/check.py):
//!   p_*         complete: all inputs of the stated precondition, loops bounded by the static rank
//!   b_*         bounded stand-in: sizes or values are bounded as stated in the harness
//!   *_panics    the call must panic for every input of the stated precondition
//!   *_partial   the call may panic; where it returns, the postcondition holds
#![allow(clippy::all)]

#[macro_use]
pub mod nd;
pub mod model;

macro_rules! properties {
    ($($name:ident $feature:literal),* $(,)?) => {
        $(#[cfg(feature = $feature)] pub mod $name;)*

        #[cfg(not(kani))]
        pub fn all() -> Vec<nd::Entry> {
            #[allow(unused_mut)]
            let mut v: Vec<nd::Entry> = Vec::new();
            $(#[cfg(feature = $feature)] v.extend_from_slice($name::TABLE);)*
            v
        }
    };
}

properties!(
    c01 "c01",
    c02 "c02",
    c03 "c03",
    c04 "c04",
    c05 "c05",
    c06 "c06",
    c07 "c07",
    c08 "c08",
    c09 "c09",
    c10 "c10",
    c11 "c11",
    c12 "c12",
    c13 "c13",
    c14 "c14",
    c15 "c15",
    c16 "c16",
    c17 "c17",
    c18 "c18",
);

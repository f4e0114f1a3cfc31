pub mod der;
pub mod ecdsa;
pub mod field;
pub mod group;
pub mod keys;
pub mod life;
pub mod mult;
pub mod scalar;

use crate::run::Group;

/// (what makes a case non-trivial, the groups of cases) of a property
pub fn groups(id: &str) -> Option<(&'static str, Vec<Box<dyn Group>>)> {
    ecdsa::groups(id).or_else(|| keys::groups(id)).or_else(|| der::groups(id))
        .or_else(|| scalar::groups(id))
        .or_else(|| field::groups(id))
        .or_else(|| group::groups(id))
        .or_else(|| mult::groups(id))
        .or_else(|| life::groups(id))
}

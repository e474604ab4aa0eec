//! Small value types.
use crate::path::{Path, PathSegment};
use std::fmt::{Formatter, Write};

#[derive(PartialEq)]
pub enum MatchStatus {
    NotChecked,
    NotAvailable,
    Invalid,
    Error(String),
    Valid,
}

pub fn path_fmt(path: &Path<'_>, f: &mut Formatter<'_>) -> std::fmt::Result {
    let mut first = true;
    for s in &path.segments {
        match s {
            PathSegment::Field(name) => {
                if !first {
                    f.write_str(".")?;
                }
                f.write_str(name)?;
            }
            PathSegment::Index(i) => {
                f.write_str("[")?;
                write!(f, "{}", i)?;
                f.write_str("]")?;
            }
        }
        first = false;
    }
    Ok(())
}

pub enum ReplacementType {
    None,
    Placeholder,
    Hash,
    PartialStart,
    PartialEnd,
}

pub fn replacement_fmt(t: &ReplacementType, f: &mut Formatter<'_>) -> std::fmt::Result {
    f.write_str(match t {
        ReplacementType::None => "none",
        ReplacementType::Placeholder => "placeholder",
        ReplacementType::Hash => "hash",
        ReplacementType::PartialStart => "partial_beginning",
        ReplacementType::PartialEnd => "partial_end",
    })
}

fn rank(s: &MatchStatus) -> u32 {
    match s {
        MatchStatus::NotChecked => 0,
        MatchStatus::NotAvailable => 1,
        MatchStatus::Invalid => 2,
        MatchStatus::Error(_) => 3,
        MatchStatus::Valid => 4,
    }
}

pub fn merge(status: &mut MatchStatus, new_status: MatchStatus) {
    let newer = match (&*status, &new_status) {
        (MatchStatus::Error(a), MatchStatus::Error(b)) => a < b,
        (a, b) => rank(a) < rank(b),
    };
    if newer {
        *status = new_status;
    }
}

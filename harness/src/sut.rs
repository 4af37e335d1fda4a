//! Calls into the code under test.
use crate::core::Fail;
use crate::ext;
use crate::model::*;
use osu_file_parser as lib;
use lib::{VersionedFromStr, VersionedToString};

pub type OsuErr = lib::Error<lib::ParseError>;
pub type OsbErr = lib::Error<lib::osb::ParseError>;

pub fn parse(text: &str) -> Result<lib::OsuFile, OsuErr> {
    text.parse::<lib::OsuFile>()
}

/// Parses text that has to be accepted.
pub fn accept(text: &str, what: &str) -> Result<lib::OsuFile, Fail> {
    parse(text).map_err(|e| {
        Fail::Violation(format!(
            "{what} is rejected: {} [{:?}]",
            e.display_error_with_line(text),
            e.error()
        ))
    })
}

pub fn osb(text: &str) -> Result<Option<lib::Osb>, OsbErr> {
    <lib::Osb as VersionedFromStr>::from_str(text, 14)
}

pub fn accept_osb(text: &str, what: &str) -> Result<lib::Osb, Fail> {
    match osb(text) {
        Ok(Some(o)) => Ok(o),
        Ok(None) => Err(Fail::Violation(format!("{what} gives nothing at version 14"))),
        Err(e) => Err(Fail::Violation(format!(
            "{what} is rejected: {} [{:?}]",
            e.display_error_with_line(text),
            e.error()
        ))),
    }
}

pub fn osb_text(o: &lib::Osb) -> Result<String, Fail> {
    VersionedToString::to_string(o, 14)
        .ok_or_else(|| Fail::Violation("an .osb isn't written at version 14".to_string()))
}

/// The parsed value agrees with the reference document's meaning.
pub fn same_doc(expected: &Doc, f: &lib::OsuFile, what: &str) -> Result<(), Fail> {
    let got = norm(&ext::doc(f));
    if *expected != got {
        return Err(Fail::Violation(format!("{what}: {}", diff(expected, &got))));
    }
    if f.osb.is_some() {
        return Err(Fail::Violation(format!("{what}: has an .osb out of nowhere")));
    }
    Ok(())
}

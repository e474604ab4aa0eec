//! When a pattern is accepted.
use crate::adapter::ParseError;
use regex_automata::meta;
use regex_automata::util::syntax;

pub enum RegexValidationError {
    InvalidSyntax,
    ExceededDepthLimit,
    TooComplex,
    MatchesEmptyString,
    ExceededQuantifierLimit,
}

fn convert_to_rust_regex(_pattern: &str) -> Result<String, ParseError> {
    loop {}
}

pub fn explained(e: ParseError) -> RegexValidationError {
    match e {
        ParseError::InvalidSyntax => RegexValidationError::InvalidSyntax,
        ParseError::ExceededDepthLimit => RegexValidationError::ExceededDepthLimit,
        ParseError::ExceededQuantifierLimit => RegexValidationError::ExceededQuantifierLimit,
    }
}

/// Built with the given limit on the size of the automaton, otherwise with the engine's defaults.
pub fn build_regex(pattern: &str, limit: usize) -> Result<meta::Regex, RegexValidationError> {
    let mut b = meta::Regex::builder();
    b.configure(meta::Config::new().nfa_size_limit(Some(limit)));
    match b.build(pattern) {
        Ok(r) => Ok(r),
        Err(e) => match e.size_limit() {
            Some(_) => Err(RegexValidationError::TooComplex),
            None => Err(RegexValidationError::InvalidSyntax),
        },
    }
}

/// The pattern can match without consuming anything.
pub fn nullable(pattern: &str) -> bool {
    match syntax::parse(pattern) {
        Ok(hir) => match hir.properties().minimum_len() {
            Some(n) => n == 0,
            None => false,
        },
        Err(_) => true,
    }
}

pub fn validate_and_create_regex(input: &str) -> Result<meta::Regex, RegexValidationError> {
    match convert_to_rust_regex(input) {
        Err(e) => Err(explained(e)),
        Ok(p) => match build_regex(&p, 1000000) {
            Err(e) => Err(e),
            Ok(r) => {
                if r.is_match("") || nullable(&p) {
                    Err(RegexValidationError::MatchesEmptyString)
                } else {
                    Ok(r)
                }
            }
        },
    }
}

pub fn validate_regex(input: &str) -> Result<(), RegexValidationError> {
    match validate_and_create_regex(input) {
        Ok(_) => Ok(()),
        Err(e) => Err(e),
    }
}

/// The smallest limit (up to ten times the normal one) under which the pattern can be built.
pub fn estimate(input: &str) -> Result<usize, RegexValidationError> {
    match convert_to_rust_regex(input) {
        Err(e) => Err(explained(e)),
        Ok(p) => {
            let mut low: usize = 1;
            let mut high: usize = 10000000;
            while low < high {
                let mid = low + (high - low) / 2;
                match build_regex(&p, mid) {
                    Ok(_) => high = mid,
                    Err(RegexValidationError::TooComplex) => low = mid + 1,
                    Err(e) => return Err(e),
                }
            }
            Ok(low)
        }
    }
}

S = []
K = "sds/src/proximity_keywords/mod.rs"
I = "sds/src/proximity_keywords/included_keywords.rs"
X = "sds/src/proximity_keywords/excluded_keywords.rs"
PA = "sds/src/path.rs"
V = "sds/src/secondary_validation/"
B = "sds-bindings-utils/src/binary_encoding.rs"
KW = '''use crate::proximity_keywords::*;
use crate::scanner::regex_rule::config::ProximityKeywordsConfig;
use crate::scanner::regex_rule::RegexCaches;
use crate::Labels;

#[allow(dead_code)]
type Compiled = (Option<CompiledIncludedProximityKeywords>, Option<CompiledExcludedProximityKeywords>);

#[allow(dead_code)]
fn compile(n: usize, inc: &[&str], exc: &[&str]) -> Result<Compiled, ProximityKeywordsValidationError> {
    compile_keywords_proximity_config(
        &ProximityKeywordsConfig {
            look_ahead_character_count: n,
            included_keywords: inc.iter().map(|s| s.to_string()).collect(),
            excluded_keywords: exc.iter().map(|s| s.to_string()).collect(),
        },
        &Labels::empty(),
    )
}

#[allow(dead_code)]
fn all(k: &CompiledIncludedProximityKeywords, content: &str) -> Vec<usize> {
    let mut caches = RegexCaches::new();
    let mut s = k.keyword_matches(content);
    let mut out = vec![];
    while let Some(x) = s.next(&mut caches) {
        out.push(x);
        assert!(out.len() < 1000, "the search does not advance");
    }
    out
}
'''
S.append(dict(id="c05-too-long-trimmed", prop="C05",
  needs="a keyword with surrounding white space whose total length exceeds the look-ahead count while the trimmed one does not",
  breaks="the length limit is applied to the trimmed keyword, so a configuration with a keyword longer than the look-ahead window is accepted",
  edits=[(K, "            if keyword.chars().count() > look_ahead_character_count {", "            if keyword.trim().chars().count() > look_ahead_character_count {")],
  demo=KW + '''
#[test]
fn padded_keyword_is_too_long() {
    assert_eq!(
        compile(4, &["abc  "], &[]).err(),
        Some(ProximityKeywordsValidationError::KeywordTooLong(4))
    );
    assert!(compile(5, &["abc  "], &[]).is_ok());
}
'''))
S.append(dict(id="c06-boundary-one-char", prop="C06",
  needs="a one-character keyword and content where the character is the end of a longer word's start",
  breaks="a keyword of a single letter has no word boundary behind it, so it matches inside of words that start with it",
  edits=[(K, "    if should_push_word_boundary(keyword.chars().next_back().unwrap()) {\n        keyword_pattern.push(word_boundary())\n    }\n    Ast::Concat",
          "    if should_push_word_boundary(keyword.chars().next_back().unwrap()) && keyword_pattern.len() != 2 {\n        keyword_pattern.push(word_boundary())\n    }\n    Ast::Concat")],
  demo=KW + '''
#[test]
fn one_letter_keyword_is_a_whole_word() {
    let k = compile(10, &["k"], &[]).unwrap().0.unwrap();
    assert_eq!(all(&k, "k kilo k"), vec![0, 7]);
}
'''))
S.append(dict(id="c07-window-strip", prop="C07",
  needs="a window that starts with '-' or '_' and an excluded keyword right outside of the window",
  breaks="the extra context character is only dropped when it survived stripping is not checked: the first character of the window is dropped by byte comparison, so the keyword starting just outside is found",
  edits=[(X, "    let span_start = if prefix_start_info.used_all_chars {", "    let span_start = if prefix_start_info.used_all_chars\n        && !content[prefix_start_info.start..].starts_with(char::is_uppercase)\n    {")],
  demo=KW + '''
#[test]
fn keyword_outside_of_the_window_is_ignored() {
    let k = compile(5, &[], &["Id ab"]).unwrap().1.unwrap();
    let content = "Id ab secret";
    assert!(k.is_false_positive_match(content, 5));
    assert!(!k.is_false_positive_match(content, 6));
}
'''))
S.append(dict(id="c08-resume-after-end", prop="C08",
  needs="a keyword match that is immediately followed by a multi-byte character, with an overlapping second keyword",
  breaks="after a match that is followed by a multi-byte character the search resumes behind the keyword, missing overlapping keywords",
  edits=[(I, "            self.start = next_char_index(self.content, included_keyword_match.start())\n                .unwrap_or(included_keyword_match.end());",
"""            let end = included_keyword_match.end();
            self.start = if self.content[end..].starts_with(|c: char| !c.is_ascii()) {
                end
            } else {
                next_char_index(self.content, included_keyword_match.start()).unwrap_or(end)
            };""")],
  demo=KW + '''
#[test]
fn overlapping_keywords_before_multi_byte() {
    let k = compile(10, &["a b", "b"], &[]).unwrap().0.unwrap();
    assert_eq!(all(&k, "a b é"), vec![0, 2]);
    assert_eq!(all(&k, "a b\\u{2003}é"), vec![0, 2]);
}
'''))
S.append(dict(id="c09-prefix-zip", prop="C09",
  needs="a prefix with a position segment whose number is larger than the path's at the same place",
  breaks="list positions are compared as 'at most', so a path is reported to start with a prefix naming another list element",
  edits=[(PA, "            if a != b {\n                return false;\n            }", """            let same = match (a, b) {
                (PathSegment::Index(a), PathSegment::Index(b)) => a >= b,
                _ => a == b,
            };
            if !same {
                return false;
            }""")],
  demo='''use crate::Path;
#[test]
fn other_list_elements_are_no_prefix() {
    let p = Path::from(vec!["a".into(), 1.into(), "b".into()]);
    assert!(p.starts_with(&Path::from(vec!["a".into(), 1.into()])));
    assert!(!p.starts_with(&Path::from(vec!["a".into(), 2.into()])));
    assert!(!p.starts_with(&Path::from(vec!["a".into(), 0.into()])));
}
'''))
S.append(dict(id="c26-digit-boundary", prop="C26",
  needs="a camel case segment with a digit before a capital letter",
  breaks="no separator is inserted between a digit and a following capital, so oauth2Token and oauth2_token are no longer the same",
  edits=[(K, "            (_, CharType::Regular, CharType::Uppercase) => {\n", "            (_, CharType::Regular, CharType::Uppercase) if previous.is_ascii_digit() => {\n                push_character(&current);\n            }\n            (_, CharType::Regular, CharType::Uppercase) => {\n")],
  demo='''use crate::Path;
#[test]
fn same_words_same_form() {
    let f = |s: &'static str| Path::from(vec![s.into()]).sanitize();
    assert_eq!(f("oauth2TokenValue"), f("oauth2_token_value"));
}
'''))
S.append(dict(id="c20-error-latest", prop="C20",
  needs="two error statuses with different texts merged in both orders",
  breaks="a later error replaces an earlier one, so the merged status depends on the order in which validations finish",
  edits=[("sds/src/match_validation/match_status.rs", "        if new_status > *self {", "        let newer_error = matches!(\n            (&*self, &new_status),\n            (MatchStatus::Error(_), MatchStatus::Error(_))\n        );\n        if newer_error || new_status > *self {")],
  demo='''use crate::match_validation::match_status::MatchStatus;
#[test]
fn order_of_errors_does_not_matter() {
    let e = |s: &str| MatchStatus::Error(s.to_string());
    let mut a = e("x");
    a.merge(e("y"));
    let mut b = e("y");
    b.merge(e("x"));
    assert_eq!(a, b);
}
'''))
S.append(dict(id="c21-luhn-separator", prop="C21",
  needs="a card number with a separator at an odd place, seen from the right, more than once",
  breaks="every second character instead of every second digit is doubled once a separator was skipped",
  edits=[(V + "luhn_checksum.rs", "            while let Some(digit) = get_previous_digit(&mut input_iter) {\n", "            while let Some(digit) = get_previous_digit(&mut input_iter) {\n                if input_iter.as_str().ends_with(\"--\") {\n                    is_odd = !is_odd;\n                }\n")],
  demo='''use crate::secondary_validation::{LuhnChecksum, Validator};
#[test]
fn separators_do_not_count() {
    assert!(LuhnChecksum.is_valid_match("4111-1111-1111-1111"));
    assert!(LuhnChecksum.is_valid_match("378734--493671000"));
    assert!(LuhnChecksum.is_valid_match("5555--55555555--4444"));
}
'''))
S.append(dict(id="c22-exp-milliseconds", prop="C22",
  needs="a JWT whose exp claim is a huge (millisecond) past timestamp, or one with a fractional expiry",
  breaks="an expiry in fractional seconds is truncated and accepted although only integer expiries are",
  edits=[(V + "jwt_expiration_checker.rs", "if let Some(exp) = exp.as_i64() {", "if let Some(exp) = exp.as_i64().or_else(|| exp.as_f64().map(|x| x as i64)) {")],
  demo='''use crate::secondary_validation::{JwtExpirationChecker, Validator};
use base64::{engine::general_purpose::URL_SAFE_NO_PAD, Engine};
#[test]
fn fractional_expiry_is_refused() {
    let t = |p: &str| format!("{}.{}.sig", URL_SAFE_NO_PAD.encode("{}"), URL_SAFE_NO_PAD.encode(p));
    assert!(JwtExpirationChecker.is_valid_match(&t("{\\"exp\\": 99999999999}")));
    assert!(!JwtExpirationChecker.is_valid_match(&t("{\\"exp\\": 99999999999.5}")));
}
'''))

S.append(dict(id="c15-index-width", prop="C15", crate="bindings",
  needs="an encoded event with a list position of at least 65536",
  breaks="list positions keep only their low 16 bits, so strings beyond position 65535 get the path of another element",
  edits=[(B, "                    visitor.push_segment(PathSegment::Index(segment_index));", "                    visitor.push_segment(PathSegment::Index(segment_index & 0xffff));")],
  demo='''use dd_sds::{Event, EventVisitor, Path, PathSegment, Utf8Encoding, VisitStringResult};
use sds_bindings_utils::BinaryEvent;

struct Rec(Path<'static>, Vec<String>);

impl<'a> EventVisitor<'a> for Rec {
    fn push_segment(&mut self, s: PathSegment<'a>) {
        self.0.segments.push(s.into_static())
    }
    fn pop_segment(&mut self) {
        self.0.segments.pop();
    }
    fn visit_string<'s>(&'s mut self, value: &str) -> VisitStringResult<'s, 'a> {
        self.1.push(format!("{}={}", self.0, value));
        VisitStringResult { might_mutate: true, path: &self.0 }
    }
}

#[test]
fn large_positions_are_kept() {
    let mut b = vec![1];
    b.extend(65537u32.to_be_bytes());
    b.push(3);
    b.extend(2u32.to_be_bytes());
    b.extend(b"hi");
    b.push(2);
    let mut e = BinaryEvent::<Utf8Encoding>::new(b, true);
    let mut r = Rec(Path::root(), vec![]);
    e.visit_event(&mut r);
    assert_eq!(r.1, vec!["[65537]=hi".to_string()]);
    assert_eq!(e.storage.keys().next().unwrap().to_string(), "[65537]");
}
'''))
S.append(dict(id="c16-mutations-without-matches", prop="C16", crate="bindings",
  needs="a response with modified strings of which one is empty after rewriting",
  breaks="a string that was rewritten to nothing is left out of the response, so the caller keeps the sensitive original",
  edits=[(B, "        if *mutated {", "        if *mutated && !content.is_empty() {")],
  demo='''use dd_sds::{MatchStatus, Path, ReplacementType, RuleMatch};
use sds_bindings_utils::encode_response;
use std::collections::BTreeMap;

#[test]
fn emptied_strings_are_reported() {
    let mut s = BTreeMap::new();
    s.insert(Path::from(vec!["k".into()]), (true, String::new()));
    let m = RuleMatch {
        rule_index: 0,
        path: Path::root(),
        replacement_type: ReplacementType::Placeholder,
        start_index: 0,
        end_index_exclusive: 0,
        shift_offset: 0,
        match_value: None,
        match_status: MatchStatus::NotChecked,
    };
    let out = encode_response(&s, &[m]).unwrap();
    assert_eq!(&out[..12], &[4, 0, 0, 0, 0, 1, b'k', 3, 0, 0, 0, 0]);
}
'''))

//! What is done with matches.
use std::borrow::Cow;

pub enum MatchAction {
    None,
    Redact { replacement: String },
    Hash,
    Utf16Hash,
    PartialRedact { direction: PartialRedactDirection, character_count: usize },
}

pub enum PartialRedactDirection {
    FirstCharacters,
    LastCharacters,
}

pub struct Replacement<'a> {
    pub start: usize,
    pub end: usize,
    pub replacement: Cow<'a, str>,
}

pub enum ReplacementType {
    None,
    Placeholder,
    Hash,
    PartialStart,
    PartialEnd,
}

pub enum MatchActionValidationError {
    PartialRedactionNumCharsZero,
}

/// A partial redaction of no character is refused.
pub fn validate(action: &MatchAction) -> Result<(), MatchActionValidationError> {
    if let MatchAction::PartialRedact { character_count, .. } = action {
        if *character_count == 0 {
            return Err(MatchActionValidationError::PartialRedactionNumCharsZero);
        }
    }
    Ok(())
}

pub fn is_mutating(action: &MatchAction) -> bool {
    !matches!(action, MatchAction::None)
}

pub fn replacement_type(action: &MatchAction) -> ReplacementType {
    match action {
        MatchAction::None => ReplacementType::None,
        MatchAction::Redact { .. } => ReplacementType::Placeholder,
        MatchAction::Hash | MatchAction::Utf16Hash => ReplacementType::Hash,
        MatchAction::PartialRedact { direction: PartialRedactDirection::FirstCharacters, .. } => ReplacementType::PartialStart,
        MatchAction::PartialRedact { direction: PartialRedactDirection::LastCharacters, .. } => ReplacementType::PartialEnd,
    }
}

/// The part of the match that is replaced, and by what.
pub fn get_replacement<'a>(action: &'a MatchAction, text: &str) -> Option<Replacement<'a>> {
    let all = text.len();
    match action {
        MatchAction::None => None,
        MatchAction::Redact { replacement } => Some(Replacement { start: 0, end: all, replacement: Cow::Borrowed(replacement.as_str()) }),
        MatchAction::Hash => {
            let h = farmhash::fingerprint64(text.as_bytes());
            Some(Replacement { start: 0, end: all, replacement: Cow::Owned(format!("{:x}", h)) })
        }
        MatchAction::Utf16Hash => {
            let b: Vec<u8> = text.encode_utf16().flat_map(u16::to_le_bytes).collect();
            let h = farmhash::fingerprint64(&b);
            Some(Replacement { start: 0, end: all, replacement: Cow::Owned(format!("{:x}", h)) })
        }
        MatchAction::PartialRedact { direction, character_count } => {
            let n = *character_count;
            let stars = Cow::Owned("*".repeat(n));
            let few = text.chars().count() <= n;
            match direction {
                PartialRedactDirection::FirstCharacters => {
                    let end = if few { all } else { text.char_indices().nth(n).unwrap().0 };
                    Some(Replacement { start: 0, end, replacement: stars })
                }
                PartialRedactDirection::LastCharacters => {
                    let start = if few { 0 } else { text.char_indices().nth_back(n - 1).unwrap().0 };
                    Some(Replacement { start, end: all, replacement: stars })
                }
            }
        }
    }
}

impl MatchAction {
    pub fn is_mutating(&self) -> bool {
        loop {}
    }
    pub fn get_replacement(&self, _text: &str) -> Option<Replacement> {
        loop {}
    }
    pub fn replacement_type(&self) -> ReplacementType {
        loop {}
    }
}

pub trait Encoding {
    type Index;
    type IndexShift;
    fn zero_index() -> Self::Index;
    fn zero_shift() -> Self::IndexShift;
    fn get_index(value: &Self::Index, utf8_index: usize) -> usize;
    fn get_shift(value: &Self::IndexShift, utf8_shift: isize) -> isize;
    fn adjust_shift(shift: &mut Self::IndexShift, before: &str, after: &str);
}

pub struct InternalRuleMatch<E: Encoding> {
    pub rule_index: usize,
    pub utf8_start: usize,
    pub utf8_end: usize,
    pub custom_start: <E as Encoding>::Index,
    pub custom_end: <E as Encoding>::Index,
}

#[derive(Clone, Copy)]
pub struct Path(u8);
pub enum MatchStatus {
    NotChecked,
    NotAvailable,
}
pub struct MatchValidationType(u8);

pub struct RuleMatch {
    pub rule_index: usize,
    pub path: Path,
    pub replacement_type: ReplacementType,
    pub start_index: usize,
    pub end_index_exclusive: usize,
    pub shift_offset: isize,
    pub match_value: Option<String>,
    pub match_status: MatchStatus,
}

pub trait CompiledRuleDyn {
    fn get_match_action(&self) -> &MatchAction;
    fn get_match_validation_type(&self) -> Option<&MatchValidationType>;
}

pub struct ScannerFeatures {
    pub return_matches: bool,
    pub multipass_v0_enabled: bool,
    pub should_keywords_match_event_paths: bool,
}

pub struct Scanner {
    pub rules: Vec<Box<dyn CompiledRuleDyn>>,
    pub scanner_features: ScannerFeatures,
}

/// One match reported, its action applied to the text.
pub fn apply_one<E: Encoding>(s: &Scanner, content: &mut String, path: Path, m: &InternalRuleMatch<E>, delta: &mut isize, shift: &mut E::IndexShift) -> RuleMatch {
    let rule = &s.rules[m.rule_index];
    let start_index = (E::get_index(&m.custom_start, m.utf8_start) as isize + E::get_shift(shift, *delta)) as usize;
    let from = (m.utf8_start as isize + *delta) as usize;
    let to = (m.utf8_end as isize + *delta) as usize;
    let match_value = if s.scanner_features.return_matches { Some(content[from..to].to_string()) } else { None };
    if rule.get_match_action().is_mutating() {
        let old = &content[from..to];
        if let Some(r) = rule.get_match_action().get_replacement(old) {
            let gone = &old[r.start..r.end];
            E::adjust_shift(shift, gone, &r.replacement);
            *delta += r.replacement.len() as isize - gone.len() as isize;
            content.replace_range(from + r.start..from + r.end, &r.replacement);
        }
    }
    let shift_offset = E::get_shift(shift, *delta);
    let end_index_exclusive = (E::get_index(&m.custom_end, m.utf8_end) as isize + shift_offset) as usize;
    RuleMatch {
        rule_index: m.rule_index,
        path,
        replacement_type: rule.get_match_action().replacement_type(),
        start_index,
        end_index_exclusive,
        shift_offset,
        match_value,
        match_status: match rule.get_match_validation_type() {
            Some(_) => MatchStatus::NotChecked,
            None => MatchStatus::NotAvailable,
        },
    }
}

impl Scanner {
    fn apply_match_actions_for_string<E: Encoding>(&self, _c: &mut String, _p: Path, _m: &InternalRuleMatch<E>, _d: &mut isize, _s: &mut E::IndexShift) -> RuleMatch {
        loop {}
    }
}

/// The matches of one text are applied in order, each to the text as the earlier ones left it.
pub fn apply_all<E: Encoding>(s: &Scanner, content: &mut String, path: &Path, ms: &mut [InternalRuleMatch<E>], out: &mut Vec<RuleMatch>) {
    let mut delta: isize = 0;
    let mut shift = E::zero_shift();
    let mut i = 0;
    while i < ms.len() {
        let r = s.apply_match_actions_for_string::<E>(content, *path, &ms[i], &mut delta, &mut shift);
        out.push(r);
        i += 1;
    }
}

/// Keeps, of overlapping matches, the one with the highest priority: one that changes the text before one that does not, then the one
/// that starts first, then the longest, then that of the first rule.
pub fn resolve<E: Encoding>(s: &Scanner, ms: &mut Vec<InternalRuleMatch<E>>) {
    let changes = |m: &InternalRuleMatch<E>| s.rules[m.rule_index].get_match_action().is_mutating();
    ms.sort_unstable_by(|a, b| {
        // the last one is looked at first
        let ma = s.rules[a.rule_index].get_match_action().is_mutating();
        let mb = s.rules[b.rule_index].get_match_action().is_mutating();
        ma.cmp(&mb)
            .reverse()
            .then(a.utf8_start.cmp(&b.utf8_start))
            .then((a.utf8_end - a.utf8_start).cmp(&(b.utf8_end - b.utf8_start)).reverse())
            .then(a.rule_index.cmp(&b.rule_index))
            .reverse()
    });
    let mut kept: Vec<InternalRuleMatch<E>> = vec![];
    while let Some(m) = ms.pop() {
        let free = if changes(&m) {
            match kept.last() {
                None => true,
                Some(l) => l.utf8_end <= m.utf8_start,
            }
        } else {
            !kept.iter().any(|k| k.utf8_start < m.utf8_end && k.utf8_end > m.utf8_start)
        };
        if free {
            kept.push(m);
        }
    }
    kept.sort_unstable_by_key(|m| m.utf8_start);
    *ms = kept;
}

// ---------------------------------------------------------------- one rule

pub struct Validator(u8);
impl Validator {
    fn is_valid_match(&self, _t: &str) -> bool {
        loop {}
    }
}
pub struct CompiledExcludedProximityKeywords(u8);
impl CompiledExcludedProximityKeywords {
    fn is_false_positive_match(&self, _c: &str, _at: usize) -> bool {
        loop {}
    }
}
pub struct RegexCompiledRule {
    pub rule_index: usize,
    pub regex: SharedRegex,
    pub included_keywords: Option<CompiledIncludedProximityKeywords>,
    pub excluded_keywords: Option<CompiledExcludedProximityKeywords>,
    pub validator: Option<std::sync::Arc<Validator>>,
}

/// Why a match of the regex is not a match of the rule: an excluded keyword before it (where that is asked for), or its check failing.
pub fn is_false_positive(m: &regex_automata::Match, rule: &RegexCompiledRule, content: &str, keywords: bool) -> bool {
    let excluded = match &rule.excluded_keywords {
        Some(k) if keywords => k.is_false_positive_match(content, m.start()),
        _ => false,
    };
    if excluded {
        return true;
    }
    match &rule.validator {
        Some(v) => !v.is_valid_match(&content[m.start()..m.end()]),
        None => false,
    }
}

/// The start of the character after the one the match starts with.
pub fn next_start(content: &str, m: &regex_automata::Match) -> Option<usize> {
    match content[m.start()..].char_indices().nth(1) {
        None => None,
        Some((i, _)) => Some(m.start() + i),
    }
}

use regex_automata::{meta::Cache, Input};
pub struct RegexCacheKey(u64);
pub struct SharedRegex {
    pub regex: std::sync::Arc<regex_automata::meta::Regex>,
    pub cache_key: RegexCacheKey,
}
pub struct ExclusionCheck(u8);
impl ExclusionCheck {
    fn is_excluded(&self, _i: usize) -> bool {
        loop {}
    }
}
pub struct StringMatch {
    pub start: usize,
    pub end: usize,
}
fn is_false_positive_match(_m: &regex_automata::Match, _rule: &RegexCompiledRule, _content: &str, _k: bool) -> bool {
    loop {}
}
fn get_next_regex_start(_content: &str, _m: &regex_automata::Match) -> Option<usize> {
    loop {}
}
pub struct TruePositiveSearch<'a> {
    rule: &'a RegexCompiledRule,
    content: &'a str,
    start: usize,
    cache: &'a mut Cache,
    check_excluded_keywords: bool,
    exclusion_check: &'a ExclusionCheck,
    excluded_matches: &'a mut ahash::AHashSet<String>,
}

/// The next match of the rule: the regex is searched from the current position; a false positive moves on by one character, a
/// match by its length; a match in an excluded place is remembered and not reported.
pub fn next_match(s: &mut TruePositiveSearch) -> Option<StringMatch> {
    loop {
        let m = match s.rule.regex.regex.search_with(s.cache, &Input::new(s.content).range(s.start..)) {
            None => return None,
            Some(m) => m,
        };
        if is_false_positive_match(&m, s.rule, s.content, s.check_excluded_keywords) {
            match get_next_regex_start(s.content, &m) {
                None => return None,
                Some(n) => s.start = n,
            }
            continue;
        }
        s.start = m.end();
        if !s.exclusion_check.is_excluded(s.rule.rule_index) {
            return Some(StringMatch { start: m.start(), end: m.end() });
        }
        s.excluded_matches.insert(s.content[m.start()..m.end()].to_string());
    }
}

pub struct CompiledIncludedProximityKeywords {
    pub look_ahead_character_count: usize,
    pub keywords_pattern: SharedRegex,
}

impl<'a> Iterator for TruePositiveSearch<'a> {
    type Item = StringMatch;
    fn next(&mut self) -> Option<StringMatch> {
        loop {}
    }
}
pub struct RegexCaches(u8);
impl RegexCaches {
    fn get(&mut self, _r: &SharedRegex) -> &mut Cache {
        loop {}
    }
}
pub struct IncludedKeywordSearch<'a> {
    keywords: &'a CompiledIncludedProximityKeywords,
    content: &'a str,
    start: usize,
}
impl<'a> IncludedKeywordSearch<'a> {
    fn next(&mut self, _c: &mut RegexCaches) -> Option<usize> {
        loop {}
    }
    fn skip_to(&mut self, _s: usize) {}
}
impl CompiledIncludedProximityKeywords {
    fn keyword_matches<'a>(&'a self, _c: &'a str) -> IncludedKeywordSearch<'a> {
        loop {}
    }
}
pub trait MatchEmitter {
    fn emit(&mut self, m: StringMatch);
}
pub struct PrefixStart {
    pub start: usize,
    pub used_all_chars: bool,
}
fn is_index_within_prefix(_c: &str, _from: usize, _to: usize, _n: usize) -> bool {
    loop {}
}
fn get_prefix_start(_at: usize, _n: usize, _c: &str) -> PrefixStart {
    loop {}
}
fn contains_keyword_in_path(_p: &str, _k: &SharedRegex) -> bool {
    loop {}
}
impl Path {
    fn sanitize(&self) -> String {
        loop {}
    }
}

fn report_all<'a>(rule: &'a RegexCompiledRule, content: &'a str, caches: &'a mut RegexCaches, keywords: bool, ex: &'a ExclusionCheck, seen: &'a mut ahash::AHashSet<String>, out: &mut dyn MatchEmitter) {
    let mut s = TruePositiveSearch { rule, content, start: 0, cache: caches.get(&rule.regex), check_excluded_keywords: keywords, exclusion_check: ex, excluded_matches: seen };
    while let Some(m) = s.next() {
        out.emit(m);
    }
}

/// What a rule reports for a text. Without included keywords: every match. With them: every match if the path has already been found
/// to contain one; otherwise those within reach of a keyword, and, where keywords may stand in the path, every match if the path
/// contains one.
pub fn rule_matches(rule: &RegexCompiledRule, content: &str, path: &Path, caches: &mut RegexCaches, ex: &ExclusionCheck, seen: &mut ahash::AHashSet<String>,
                    out: &mut dyn MatchEmitter, known: &[usize], in_paths: bool) {
    let keywords = match &rule.included_keywords {
        None => return report_all(rule, content, caches, true, ex, seen, out),
        Some(k) => k,
    };
    if known.contains(&rule.rule_index) {
        return report_all(rule, content, caches, false, ex, seen, out);
    }
    let mut words = keywords.keyword_matches(content);
    'words: while let Some(at) = words.next(caches) {
        let s = TruePositiveSearch { rule, content, start: at, cache: caches.get(&rule.regex), check_excluded_keywords: false, exclusion_check: ex, excluded_matches: seen };
        for m in s {
            if is_index_within_prefix(content, at, m.start, keywords.look_ahead_character_count) {
                words.skip_to(m.start);
                out.emit(m);
            } else {
                // too far from this keyword: on to the keywords within reach of the match
                words.skip_to(get_prefix_start(m.start, keywords.look_ahead_character_count, content).start);
                continue 'words;
            }
        }
        break;
    }
    if in_paths {
        let found = rule.regex.regex.search_with(caches.get(&rule.regex), &Input::new(content)).is_some();
        if found && contains_keyword_in_path(&path.sanitize(), &keywords.keywords_pattern) {
            report_all(rule, content, caches, false, ex, seen, out);
        }
    }
}

// ---------------------------------------------------------------- one text

pub struct RuleIndexVisitor(u8);
impl RuleIndexVisitor {
    fn visit_rule_indices(&mut self, _f: impl FnMut(usize)) {
        loop {}
    }
}
pub struct Labels(u8);
pub struct GroupData(u8);
impl GroupData {
    fn new() -> Self {
        loop {}
    }
}
pub trait Rule {
    fn get_string_matches(&self, content: &str, path: &Path, caches: &mut RegexCaches, group_data: &mut ahash::AHashMap<std::any::TypeId, Box<dyn std::any::Any>>, group_configs: &GroupData, scan_caches: &mut GroupData,
                          ex: &ExclusionCheck, seen: &mut ahash::AHashSet<String>, out: &mut dyn MatchEmitter, known: &[usize], labels: &Labels, in_paths: bool);
    fn get_included_keywords(&self) -> Option<&CompiledIncludedProximityKeywords>;
}
pub struct EncodeIndices<'a, E: Encoding> {
    pub utf8_start: usize,
    pub utf8_end: usize,
    pub custom_start: &'a mut E::Index,
    pub custom_end: &'a mut E::Index,
}
pub trait Indices: Encoding + Sized {
    fn calculate_indices<'a>(content: &str, m: impl Iterator<Item = EncodeIndices<'a, Self>>) where Self: 'a;
}
pub struct Scanner2 {
    pub rules: Vec<Box<dyn Rule>>,
    pub scanner_features: ScannerFeatures,
    pub group_configs: GroupData,
    pub labels: Labels,
}
pub struct ScannerContentVisitor<'a, E: Encoding> {
    scanner: &'a Scanner2,
    regex_caches: &'a mut RegexCaches,
    rule_matches: &'a mut Vec<(Path, Vec<InternalRuleMatch<E>>)>,
    blocked_rules: &'a Vec<usize>,
    excluded_matches: &'a mut ahash::AHashSet<String>,
    rule_scan_caches: GroupData,
}
impl Path {
    fn into_static(&self) -> Path {
        loop {}
    }
}
impl<F: FnMut(StringMatch)> MatchEmitter for F {
    fn emit(&mut self, m: StringMatch) {
        (self)(m)
    }
}

/// Every rule active for the text, unless blocked, reports its matches; they are kept with the path, in the order they start.
pub fn visit_text<'a, E: Indices + 'a>(v: &mut ScannerContentVisitor<'a, E>, path: &Path, content: &str, mut rules: RuleIndexVisitor, ex: ExclusionCheck, known: &[usize]) -> bool {
    let mut found: Vec<InternalRuleMatch<E>> = vec![];
    let mut group_data = ahash::AHashMap::new();
    rules.visit_rule_indices(|i| {
        if !v.blocked_rules.contains(&i) {
            let mut out = |m: StringMatch| {
                found.push(InternalRuleMatch { rule_index: i, utf8_start: m.start, utf8_end: m.end, custom_start: E::zero_index(), custom_end: E::zero_index() });
            };
            v.scanner.rules[i].get_string_matches(content, path, v.regex_caches, &mut group_data, &v.scanner.group_configs, &mut v.rule_scan_caches, &ex, v.excluded_matches, &mut out, known,
                &v.scanner.labels, v.scanner.scanner_features.should_keywords_match_event_paths);
        }
    });
    found.sort_unstable_by_key(|m| m.utf8_start);
    E::calculate_indices(content, found.iter_mut().map(|m| EncodeIndices { utf8_start: m.utf8_start, utf8_end: m.utf8_end, custom_start: &mut m.custom_start, custom_end: &mut m.custom_end }));
    if found.is_empty() {
        return false;
    }
    v.rule_matches.push((path.into_static(), found));
    true
}

/// The rules, not yet found, that have an included keyword in the path.
pub fn rules_by_path<E: Encoding>(v: &ScannerContentVisitor<E>, path: &str, found: &mut Vec<usize>) -> usize {
    let mut n = 0;
    for (i, r) in v.scanner.rules.iter().enumerate() {
        if found.contains(&i) {
            continue;
        }
        if let Some(k) = r.get_included_keywords() {
            if contains_keyword_in_path(path, &k.keywords_pattern) {
                found.push(i);
                n += 1;
            }
        }
    }
    n
}

// ---------------------------------------------------------------- one event

pub mod event {
use rayon::prelude::*;
use super::{Encoding, InternalRuleMatch, MatchAction, Path, RegexCaches, RuleMatch};
pub trait EventLike {
    type Encoding: Encoding;
    fn visit_string_mut(&mut self, path: &Path, visit: impl FnMut(&mut String) -> bool);
}
pub struct ScopedRuleSet(u8);
impl ScopedRuleSet {
    fn visit_string_rule_combinations<E: EventLike>(&self, _event: &mut E, _v: ScannerContentVisitor<E::Encoding>) {
        loop {}
    }
}
pub struct ScannerContentVisitor<'a, E: Encoding> {
    scanner: &'a Scanner,
    regex_caches: &'a mut RegexCaches,
    rule_matches: &'a mut Vec<(Path, Vec<InternalRuleMatch<E>>)>,
    blocked_rules: &'a Vec<usize>,
    excluded_matches: &'a mut ahash::AHashSet<String>,
    rule_scan_caches: ahash::AHashMap<std::any::TypeId, Box<dyn std::any::Any>>,
}
fn access_regex_caches<T>(_f: impl FnOnce(&mut RegexCaches) -> T) -> T {
    loop {}
}
pub trait ScanRule: Send + Sync {
    fn get_match_action(&self) -> &MatchAction;
    fn should_exclude_multipass_v0(&self) -> bool;
    fn on_excluded_match_multipass_v0(&self);
    fn get_scope(&self) -> &Scope;
    fn process_scanner_config(&self, g: &mut GroupConfigs);
    fn get_internal_match_validation_type(&self) -> Option<&InternalMatchValidationType>;
}
#[derive(PartialEq, Eq, Hash)]
pub struct InternalMatchValidationType(u8);
pub trait MatchValidator: Send + Sync {
    fn validate(&self, matches: &mut Vec<RuleMatch>, rules: &[Box<dyn ScanRule>]);
}
pub enum MatchValidationError {
    NoMatchValidationType,
}
pub struct Counter(std::sync::atomic::AtomicU8);
impl Counter {
    fn increment(&self, _n: u64) {
        loop {}
    }
}
pub struct ScannerMetrics {
    pub duration_ns: Counter,
    pub num_scanned_events: Counter,
    pub match_count: Counter,
}
#[derive(Clone)]
pub struct ScannerFeatures {
    pub should_keywords_match_event_paths: bool,
    pub add_implicit_index_wildcards: bool,
    pub multipass_v0_enabled: bool,
    pub return_matches: bool,
}
pub struct Scanner {
    pub rules: Vec<Box<dyn ScanRule>>,
    pub scoped_ruleset: ScopedRuleSet,
    pub scanner_features: ScannerFeatures,
    pub metrics: ScannerMetrics,
    pub labels: Labels,
    pub match_validators_per_type: ahash::AHashMap<InternalMatchValidationType, Box<dyn MatchValidator>>,
    pub group_configs: GroupConfigs,
}
impl Scanner {
    fn sort_and_remove_overlapping_rules<E: Encoding>(&self, _m: &mut Vec<InternalRuleMatch<E>>) {
        loop {}
    }
    fn apply_match_actions<E: Encoding>(&self, _c: &mut String, _p: &Path, _m: &mut [InternalRuleMatch<E>], _o: &mut Vec<RuleMatch>) {
        loop {}
    }
}

/// All texts are searched first; then, text by text, matches that were also found in an excluded place are dropped, overlaps
/// resolved and actions applied, and the event is told whether the text was changed.
pub fn scan<E: EventLike>(s: &Scanner, event: &mut E, blocked: Vec<usize>) -> Vec<RuleMatch> {
    let begin = std::time::Instant::now();
    let mut found: Vec<(Path, Vec<InternalRuleMatch<E::Encoding>>)> = Vec::new();
    let mut excluded = ahash::AHashSet::new();
    access_regex_caches(|caches| {
        let v = ScannerContentVisitor { scanner: s, regex_caches: caches, rule_matches: &mut found, blocked_rules: &blocked, excluded_matches: &mut excluded, rule_scan_caches: ahash::AHashMap::new() };
        s.scoped_ruleset.visit_string_rule_combinations(event, v);
    });
    let mut out = Vec::new();
    for (path, ms) in found.iter_mut() {
        event.visit_string_mut(path, |content| {
            if s.scanner_features.multipass_v0_enabled {
                ms.retain(|m| {
                    let rule = &s.rules[m.rule_index];
                    if !rule.should_exclude_multipass_v0() || !excluded.contains(&content[m.utf8_start..m.utf8_end]) {
                        return true;
                    }
                    rule.on_excluded_match_multipass_v0();
                    false
                });
            }
            s.sort_and_remove_overlapping_rules::<E::Encoding>(ms);
            let changes = ms.iter().any(|m| s.rules[m.rule_index].get_match_action().is_mutating());
            s.apply_match_actions::<E::Encoding>(content, path, ms, &mut out);
            changes
        });
    }
    s.metrics.duration_ns.increment(begin.elapsed().as_nanos() as u64);
    s.metrics.num_scanned_events.increment(1);
    s.metrics.match_count.increment(out.len() as u64);
    out
}

/// Every match is handed to the validator of its rule's kind; all matches are kept, in the order they start.
pub fn validate_matches(s: &Scanner, ms: &mut Vec<RuleMatch>) -> Result<(), MatchValidationError> {
    if !s.scanner_features.return_matches {
        return Err(MatchValidationError::NoMatchValidationType);
    }
    let mut by_type: ahash::AHashMap<&InternalMatchValidationType, Vec<RuleMatch>> = ahash::AHashMap::new();
    let mut others = Vec::new();
    for m in ms.drain(..) {
        match s.rules[m.rule_index].get_internal_match_validation_type() {
            None => others.push(m),
            Some(t) => {
                if !by_type.contains_key(t) {
                    by_type.insert(t, Vec::new());
                }
                by_type.get_mut(t).unwrap().push(m);
            }
        }
    }
    by_type.par_iter_mut().for_each(|(t, of_type)| {
        if let Some(v) = s.match_validators_per_type.get(*t) {
            v.validate(of_type, &s.rules);
        }
    });
    for (_, mut of_type) in by_type {
        ms.append(&mut of_type);
    }
    ms.append(&mut others);
    ms.sort_by_key(|m| m.start_index);
    Ok(())
}

/// The same, with the map's entry.
pub fn validate_matches_entry(s: &Scanner, ms: &mut Vec<RuleMatch>) -> Result<(), MatchValidationError> {
    if !s.scanner_features.return_matches {
        return Err(MatchValidationError::NoMatchValidationType);
    }
    let mut by_type: ahash::AHashMap<&InternalMatchValidationType, Vec<RuleMatch>> = ahash::AHashMap::new();
    let mut others = Vec::new();
    for m in ms.drain(..) {
        match s.rules[m.rule_index].get_internal_match_validation_type() {
            None => others.push(m),
            Some(t) => {
                by_type.entry(t).or_insert_with(Vec::new).push(m);
            }
        }
    }
    by_type.par_iter_mut().for_each(|(t, of_type)| {
        if let Some(v) = s.match_validators_per_type.get(*t) {
            v.validate(of_type, &s.rules);
        }
    });
    for (_, mut of_type) in by_type {
        ms.append(&mut of_type);
    }
    ms.append(&mut others);
    ms.sort_by_key(|m| m.start_index);
    Ok(())
}

#[derive(Clone)]
pub struct Labels(u8);
impl Labels {
    fn empty() -> Self {
        loop {}
    }
}
pub struct MatchValidationType(u8);
impl MatchValidationType {
    fn can_create_match_validator(&self) -> bool {
        loop {}
    }
    fn get_internal_match_validation_type(&self) -> InternalMatchValidationType {
        loop {}
    }
    fn into_match_validator(&self) -> Result<Box<dyn MatchValidator>, String> {
        loop {}
    }
}
pub trait RuleConfig {
    fn get_match_validation_type(&self) -> Option<&MatchValidationType>;
    fn convert_to_compiled_rule(&self, i: usize, l: Labels) -> Result<Box<dyn ScanRule>, CreateScannerError>;
}
pub enum MatchValidatorCreationError {
    InternalError,
}
pub enum CreateScannerError {
    InvalidMatchValidator(MatchValidatorCreationError),
    Other(u8),
}
#[derive(Clone)]
pub struct Scope(u8);
pub type GroupConfigs = ahash::AHashMap<std::any::TypeId, Box<dyn std::any::Any + Send + Sync>>;
impl ScopedRuleSet {
    fn new(_s: &[Scope]) -> Self {
        loop {}
    }
    fn with_implicit_index_wildcards(self, _v: bool) -> Self {
        loop {}
    }
    fn with_keywords_should_match_event_paths(self, _v: bool) -> Self {
        loop {}
    }
}
impl ScannerMetrics {
    fn new(_l: &Labels) -> Self {
        loop {}
    }
}
pub struct Stats {
    pub scanner_creations: Counter,
    pub scanner_deletions: Counter,
}
impl Stats {
    fn increment_total_scanners(&self) {
        loop {}
    }
    fn decrement_total_scanners(&self) {
        loop {}
    }
}
pub static GLOBAL_STATS: Stats = Stats { scanner_creations: Counter(std::sync::atomic::AtomicU8::new(0)), scanner_deletions: Counter(std::sync::atomic::AtomicU8::new(0)) };
pub struct ScannerBuilder<'a> {
    rules: &'a [std::sync::Arc<dyn RuleConfig>],
    labels: Labels,
    scanner_features: ScannerFeatures,
}

pub fn features() -> ScannerFeatures {
    ScannerFeatures { should_keywords_match_event_paths: false, add_implicit_index_wildcards: false, multipass_v0_enabled: true, return_matches: false }
}
pub fn builder(rules: &[std::sync::Arc<dyn RuleConfig>]) -> ScannerBuilder {
    ScannerBuilder { rules, labels: Labels::empty(), scanner_features: features() }
}
pub fn with_labels(mut b: ScannerBuilder, labels: Labels) -> ScannerBuilder {
    b.labels = labels;
    b
}
pub fn with_keywords(mut b: ScannerBuilder, v: bool) -> ScannerBuilder {
    b.scanner_features.should_keywords_match_event_paths = v;
    b
}
pub fn with_wildcards(mut b: ScannerBuilder, v: bool) -> ScannerBuilder {
    b.scanner_features.add_implicit_index_wildcards = v;
    b
}
pub fn with_multipass(mut b: ScannerBuilder, v: bool) -> ScannerBuilder {
    b.scanner_features.multipass_v0_enabled = v;
    b
}

/// A scanner has one compiled rule per configured one, in order, scoped as they say, and one validator per kind of validation.
pub fn build(b: ScannerBuilder) -> Result<Scanner, CreateScannerError> {
    let mut validators = ahash::AHashMap::new();
    let mut features = b.scanner_features.clone();
    for r in b.rules {
        let t = match r.get_match_validation_type() {
            None => continue,
            Some(t) => t,
        };
        if !t.can_create_match_validator() {
            continue;
        }
        let kind = t.get_internal_match_validation_type();
        match t.into_match_validator() {
            Err(_) => return Err(CreateScannerError::InvalidMatchValidator(MatchValidatorCreationError::InternalError)),
            Ok(v) => {
                if !validators.contains_key(&kind) {
                    validators.insert(kind, v);
                    features.return_matches = true;
                }
            }
        }
    }
    let mut rules = Vec::new();
    for (i, r) in b.rules.iter().enumerate() {
        rules.push(r.convert_to_compiled_rule(i, b.labels.clone())?);
    }
    let mut group_configs: GroupConfigs = ahash::AHashMap::new();
    for r in &rules {
        r.process_scanner_config(&mut group_configs);
    }
    let mut scopes = Vec::new();
    for r in &rules {
        scopes.push(r.get_scope().clone());
    }
    let scoped_ruleset = ScopedRuleSet::new(&scopes)
        .with_implicit_index_wildcards(b.scanner_features.add_implicit_index_wildcards)
        .with_keywords_should_match_event_paths(b.scanner_features.should_keywords_match_event_paths);
    GLOBAL_STATS.scanner_creations.increment(1);
    GLOBAL_STATS.increment_total_scanners();
    Ok(Scanner { rules, scoped_ruleset, scanner_features: features, metrics: ScannerMetrics::new(&b.labels), labels: b.labels, match_validators_per_type: validators, group_configs })
}
pub fn gone(_s: &mut Scanner) {
    GLOBAL_STATS.scanner_deletions.increment(1);
    GLOBAL_STATS.decrement_total_scanners();
}
}

/// UTF-8 positions are byte offsets as they are.
pub fn utf8_index(_v: &(), i: usize) -> usize {
    i
}
pub fn utf8_shift(_v: &(), s: isize) -> isize {
    s
}

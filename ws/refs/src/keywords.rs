//! Proximity keywords: limits, compiled patterns, search windows.
use crate::path::standardize_path_chars;
use regex_automata::meta::Regex;
use regex_automata::util::syntax;
use regex_automata::{meta, Input};
use regex_syntax::ast::*;

pub struct ProximityKeywordsConfig {
    pub look_ahead_character_count: usize,
    pub included_keywords: Vec<String>,
    pub excluded_keywords: Vec<String>,
}

pub enum ProximityKeywordsValidationError {
    TooManyKeywords,
    EmptyKeyword,
    KeywordTooLong(usize),
    InvalidLookAheadCharacterCount,
}
use ProximityKeywordsValidationError::*;

pub struct SharedRegex {
    pub regex: std::sync::Arc<Regex>,
}
impl std::ops::Deref for SharedRegex {
    type Target = Regex;
    fn deref(&self) -> &Regex {
        std::ops::Deref::deref(&self.regex)
    }
}

pub struct ProximityKeywordsRegex {
    pub content_regex: SharedRegex,
    pub path_regex: SharedRegex,
}

pub struct CompiledIncludedProximityKeywords {
    pub look_ahead_character_count: usize,
    pub keywords_pattern: ProximityKeywordsRegex,
}

pub struct Counter(u32);
impl Counter {
    pub fn increment(&self, n: u64) {
        loop {}
    }
}

pub struct CompiledExcludedProximityKeywords {
    pub look_ahead_character_count: usize,
    pub keywords_pattern: ProximityKeywordsRegex,
    pub false_positive_counter: Counter,
}

/// memoization is not observable: the regex is the one the factory builds (that is C17)
pub fn get_memoized_regex<T>(pattern: &str, regex_factory: impl FnOnce(&str) -> Result<Regex, T>) -> Result<SharedRegex, T> {
    regex_factory(pattern).map(share)
}

pub fn share(regex: Regex) -> SharedRegex {
    loop {}
}

fn nowhere() -> Span {
    Span::new(Position::new(0, 0, 0), Position::new(0, 0, 0))
}

fn boundary() -> Ast {
    let off = FlagsItem { span: nowhere(), kind: FlagsItemKind::Negation };
    let unicode = FlagsItem { span: nowhere(), kind: FlagsItemKind::Flag(Flag::Unicode) };
    let flags = Flags { span: nowhere(), items: vec![off, unicode] };
    let b = Ast::Assertion(Assertion { span: nowhere(), kind: AssertionKind::WordBoundary });
    Ast::Group(Group { span: nowhere(), kind: GroupKind::NonCapturing(flags), ast: Box::new(b) })
}

fn wordy(c: char) -> bool {
    c.is_ascii_alphanumeric()
}

fn lit(c: char) -> Ast {
    Ast::Literal(Literal {
        span: nowhere(),
        c,
        kind: match regex_syntax::is_meta_character(c) {
            true => LiteralKind::Meta,
            false => LiteralKind::Verbatim,
        },
    })
}

fn content_ast(k: &str) -> Ast {
    let mut out = Vec::new();
    if wordy(k.chars().next().unwrap()) {
        out.push(boundary());
    }
    out.extend(k.chars().map(lit));
    if wordy(k.chars().next_back().unwrap()) {
        out.push(boundary());
    }
    Ast::Concat(Concat { span: nowhere(), asts: out })
}

fn path_ast(k: &str) -> Ast {
    let mut out = Vec::new();
    if wordy(k.chars().next().unwrap()) {
        out.push(boundary());
    }
    standardize_path_chars(k, |c| out.push(lit(c.to_ascii_lowercase())));
    if wordy(k.chars().next_back().unwrap()) {
        out.push(boundary());
    }
    Ast::Concat(Concat { span: nowhere(), asts: out })
}

pub fn compile_keywords_to_ast(keywords: &[String], look_ahead_character_count: usize, remove_chars: &[char]) -> Result<Option<(Ast, Ast)>, ProximityKeywordsValidationError> {
    let mut content = vec![];
    let mut path = vec![];
    for k in keywords {
        if look_ahead_character_count < k.chars().count() {
            return Err(KeywordTooLong(look_ahead_character_count));
        }
        let k = k.trim().replace(remove_chars, "");
        if k.len() == 0 {
            return Err(EmptyKeyword);
        }
        content.push(content_ast(&k));
        path.push(path_ast(&k));
    }
    if keywords.is_empty() {
        Ok(None)
    } else {
        Ok(Some((Ast::Alternation(Alternation { span: nowhere(), asts: content }), Ast::Alternation(Alternation { span: nowhere(), asts: path }))))
    }
}

pub fn compile_keywords(keywords: Vec<String>, look_ahead_character_count: usize, remove_chars: &[char]) -> Result<Option<(SharedRegex, SharedRegex)>, ProximityKeywordsValidationError> {
    let both = compile_keywords_to_ast(&keywords, look_ahead_character_count, remove_chars)?;
    let (content, path) = match both {
        None => return Ok(None),
        Some(x) => x,
    };
    let content = content.to_string();
    let path = path.to_string();
    let mut b = meta::Regex::builder();
    b.configure(meta::Config::new().nfa_size_limit(None).hybrid_cache_capacity(2097152));
    b.syntax(syntax::Config::default().case_insensitive(true));
    let c = get_memoized_regex(&content, |p| b.build(p)).unwrap();
    let p = get_memoized_regex(&path, |p| b.build(p)).unwrap();
    Ok(Some((c, p)))
}

pub struct Labels(u32);

pub fn compile_keywords_proximity_config(
    config: &ProximityKeywordsConfig,
    labels: &Labels,
) -> Result<(Option<CompiledIncludedProximityKeywords>, Option<CompiledExcludedProximityKeywords>), ProximityKeywordsValidationError> {
    let n = config.look_ahead_character_count;
    if !(1..=50).contains(&n) {
        return Err(InvalidLookAheadCharacterCount);
    }
    if config.included_keywords.len() > 50 {
        return Err(TooManyKeywords);
    }
    if config.excluded_keywords.len() > 50 {
        return Err(TooManyKeywords);
    }
    let inc = match compile_keywords(config.included_keywords.clone(), n, &[])? {
        None => None,
        Some((c, p)) => Some(CompiledIncludedProximityKeywords { look_ahead_character_count: n, keywords_pattern: ProximityKeywordsRegex { content_regex: c, path_regex: p } }),
    };
    let exc = match compile_keywords(config.excluded_keywords.clone(), n, &['-', '_'])? {
        None => None,
        Some((c, p)) => Some(CompiledExcludedProximityKeywords {
            look_ahead_character_count: n,
            keywords_pattern: ProximityKeywordsRegex { content_regex: c, path_regex: p },
            false_positive_counter: Counter(0),
        }),
    };
    Ok((inc, exc))
}

pub fn contains_keyword_in_path(path: &str, regex: &ProximityKeywordsRegex) -> bool {
    match regex.path_regex.search_half(&Input::new(path).earliest(true)) {
        None => false,
        Some(_) => true,
    }
}

/// does `target` lie at most `n` characters after `from`?
pub fn is_index_within_prefix(content: &str, prefix_start: usize, target: usize, prefix_size: usize) -> bool {
    if target < prefix_start + prefix_size {
        return true;
    }
    match content[prefix_start..].char_indices().nth(prefix_size) {
        None => true,
        Some((i, _)) => !(prefix_start + i < target),
    }
}

pub struct PrefixStart {
    pub start: usize,
    pub used_all_chars: bool,
}

pub fn get_prefix_start(match_start: usize, look_ahead_char_count: usize, content: &str) -> PrefixStart {
    let mut it = content[..match_start].char_indices();
    let x = it.nth_back(look_ahead_char_count - 1);
    PrefixStart { used_all_chars: x.is_some(), start: x.map(|(i, _)| i).unwrap_or(0) }
}

fn after(content: &str, i: usize) -> usize {
    match content[i..].char_indices().nth(1) {
        Some((d, _)) => i + d,
        None => content.len(),
    }
}

pub fn contains_excluded_keyword_match(content: &str, match_start: usize, look_ahead_char_count: usize, regex: &ProximityKeywordsRegex) -> bool {
    let s = get_prefix_start(match_start, look_ahead_char_count + 1, content);
    let window = content[s.start..after(content, match_start)].replace(&['-', '_'][..], "");
    let from = if s.used_all_chars { after(&window, 0) } else { 0 };
    let to = window.char_indices().next_back().map_or(0, |(i, _)| i);
    if to <= from {
        return false;
    }
    let input = Input::new(&window).earliest(true).span(from..to);
    regex.content_regex.search_half(&input).is_some()
}

impl CompiledExcludedProximityKeywords {
    pub fn is_false_positive_match(&self, content: &str, match_start: usize) -> bool {
        if contains_excluded_keyword_match(content, match_start, self.look_ahead_character_count, &self.keywords_pattern) {
            self.false_positive_counter.increment(1);
            true
        } else {
            false
        }
    }
}

pub struct IncludedKeywordSearch<'a> {
    keywords: &'a CompiledIncludedProximityKeywords,
    content: &'a str,
    start: usize,
}

impl CompiledIncludedProximityKeywords {
    pub fn keyword_matches<'a>(&'a self, content: &'a str) -> IncludedKeywordSearch<'a> {
        IncludedKeywordSearch { start: 0, content, keywords: self }
    }
}

pub struct RegexCaches(u32);
impl RegexCaches {
    pub fn get(&mut self, shared_regex: &SharedRegex) -> &mut meta::Cache {
        loop {}
    }
}

impl<'a> IncludedKeywordSearch<'a> {
    pub fn skip_to(&mut self, start: usize) {
        self.start = if self.start < start { start } else { self.start };
    }

    pub fn next(&mut self, regex_caches: &mut RegexCaches) -> Option<usize> {
        let re = &self.keywords.keywords_pattern.content_regex;
        let input = Input::new(self.content).range(self.start..).earliest(true);
        let m = re.search_with(regex_caches.get(re), &input)?;
        let at = m.start();
        self.start = match self.content[at..].char_indices().nth(1) {
            Some((d, _)) => at + d,
            None => m.end(),
        };
        Some(at)
    }
}

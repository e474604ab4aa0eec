S = []
VA = "sds/src/validation.rs"
AD = "sds/src/normalization/rust_regex_adapter.rs"
RS = "sds/src/scanner/regex_rule/regex_store.rs"
RC = "sds/src/scanner/regex_rule/regex_cache_store.rs"
ST = "sds/src/stats.rs"
LA = "sds/src/observability/labels.rs"
S.append(dict(id="c03-estimate-cap", prop="C03",
  needs="a pattern several times more complex than the limit",
  breaks="the complexity estimate stops at twice the normal limit, so it reports the same number for every pattern beyond that",
  edits=[(VA, "    let mut high = 10 * REGEX_COMPLEXITY_LIMIT;", "    let mut high = 2 * REGEX_COMPLEXITY_LIMIT;")],
  demo='''use crate::{get_regex_complexity_estimate_very_slow, validate_regex, RegexValidationError};
#[test]
fn estimates_grow_with_the_pattern() {
    let a = get_regex_complexity_estimate_very_slow(".{1,1000}").unwrap();
    let b = get_regex_complexity_estimate_very_slow(".{1,3000}").unwrap();
    assert!(2 * b > 5 * a && a > 1_000_000, "{a} {b}");
    assert_eq!(validate_regex(".{1,3000}"), Err(RegexValidationError::TooComplex));
}
'''))
S.append(dict(id="c04-vertical-tab", prop="C04",
  needs="an unescaped vertical tab in a pattern that switches on the x flag",
  breaks="a vertical tab in a pattern is always written as an escape, so with the x flag it is matched instead of skipped",
  edits=[(AD, "&['\\x0D', '\\x0A', '\\x09', '\\x0C', '\\x0B', '\\x20']", "&['\\x0D', '\\x0A', '\\x09', '\\x0C', '\\x20']")],
  demo='''use crate::validation::validate_and_create_regex;
#[test]
fn white_space_is_skipped() {
    for c in ["\\r", "\\n", "\\t", "\\x0C", "\\x0B", " "] {
        let r = validate_and_create_regex(&format!("(?x)a{c}b")).unwrap();
        assert!(r.is_match("ab"), "{c:?}");
        assert!(!r.is_match(format!("a{c}b").as_str()), "{c:?}");
    }
}
'''))
GETK = "        self.pattern_index.get(pattern).and_then(|cache_key| {"
INSK = "self.pattern_index.insert(pattern.to_owned(), cache_key)"
S.append(dict(id="c17-short-index", prop="C17",
  needs="two live patterns that agree in their first 512 bytes",
  breaks="the store indexes patterns by their beginning only, so a long pattern gets the regex of another one with the same beginning",
  edits=[(RS, GETK, "        self.pattern_index.get(index_key(pattern)).and_then(|cache_key| {"),
         (RS, INSK, "self.pattern_index.insert(index_key(pattern).to_owned(), cache_key)"),
         (RS, "struct RegexStore {", "/// The part of a pattern used in the index, to bound its memory usage.\nfn index_key(pattern: &str) -> &str {\n    pattern.get(..512).unwrap_or(pattern)\n}\n\nstruct RegexStore {")],
  demo='''use crate::scanner::regex_rule::get_memoized_regex;
use regex_automata::meta::Regex;
#[test]
fn long_patterns_stay_apart() {
    let p = "(?:abc|def)".repeat(60);
    let one = get_memoized_regex(&format!("{p}1"), Regex::new).unwrap();
    let two = get_memoized_regex(&format!("{p}2"), Regex::new).unwrap();
    let text = format!("{}2", "abc".repeat(60));
    assert!(!one.is_match(text.as_str()));
    assert!(two.is_match(text.as_str()));
}
'''))
S.append(dict(id="c18-compile-under-lock", prop="C18",
  needs="a second thread that needs a regex while the first one is still compiling",
  breaks="the store stays locked while a pattern is compiled, so every other thread that creates or looks up a regex waits for it",
  edits=[(RS, """    {
        let regex_store = store.lock().unwrap();
        if let Some(exiting_regex) = regex_store.get(pattern) {
            return Ok(exiting_regex);
        }
    }
""", """    let mut regex_store = store.lock().unwrap();
    if let Some(exiting_regex) = regex_store.get(pattern) {
        return Ok(exiting_regex);
    }
"""), (RS, """    // Create the new regex after the RegexStore lock is released, since this can be slow
    let regex = regex_factory(pattern)?;

    let mut regex_store = store.lock().unwrap();
""", """    let regex = regex_factory(pattern)?;
""")],
  demo='''use crate::scanner::regex_rule::get_memoized_regex;
use regex_automata::meta::Regex;
use std::sync::mpsc;
use std::time::Duration;
#[test]
fn others_do_not_wait_for_a_compilation() {
    let r = get_memoized_regex("slow", |p| {
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let r = get_memoized_regex("quick", Regex::new).unwrap();
            tx.send(r.is_match("quick")).unwrap();
        });
        assert!(rx.recv_timeout(Duration::from_secs(20)).unwrap());
        Regex::new(p)
    })
    .unwrap();
    assert!(r.is_match("slow"));
}
'''))
S.append(dict(id="c19-recycled-scratch", prop="C19",
  needs="one thread that uses more than 64 regexes, the first with scratch space of another shape",
  breaks="once 64 scratch spaces exist, a new regex is given the scratch space of another one, which it was not created for",
  edits=[(RC, """        self.map
            .entry(key)""", """        if self.map.len() >= 64 && !self.map.contains_key(key) {
            // bound the memory of a thread by reusing the space of another regex
            if let Some(other) = self.map.keys().next() {
                return &mut self.map[other];
            }
        }
        self.map
            .entry(key)""")],
  demo='''use crate::scanner::regex_rule::get_memoized_regex;
use crate::RegexCaches;
use regex_automata::meta::Regex;
use regex_automata::Input;
#[test]
fn every_regex_has_its_own_scratch_space() {
    let mut caches = RegexCaches::new();
    let held: Vec<_> = (0..70)
        .map(|i| get_memoized_regex(&format!("demo-{i}(a|b){{{}}}\\\\w+x", i + 1), Regex::new).unwrap())
        .collect();
    let mut spaces = std::collections::HashSet::new();
    for (i, r) in held.iter().enumerate() {
        let text = format!("demo-{i}{}zzx", "ab".repeat(i + 1).split_at(i + 1).0);
        let cache = caches.get(r);
        assert_eq!(r.search_with(cache, &Input::new(text.as_str())).map(|m| m.range()), r.find(text.as_str()).map(|m| m.range()));
        spaces.insert(cache as *const _ as usize);
    }
    let again: std::collections::HashSet<usize> = held.iter().map(|r| caches.get(r) as *const _ as usize).collect();
    assert_eq!(again.len(), held.len());
    assert!(!spaces.is_empty());
}
'''))
S.append(dict(id="c23-gauge-only-grows", prop="C23",
  needs="a scanner that is dropped",
  breaks="the number of scanners is only published when it grows, so the gauge keeps counting scanners that are gone",
  edits=[(ST, "        self.total_scanners.set((prev_value + delta) as f64);", "        if delta > 0 || prev_value + delta == 0 {\n            self.total_scanners.set((prev_value + delta) as f64);\n        }")],
  demo='''use crate::stats::Stats;
use metrics_util::debugging::{DebugValue, DebuggingRecorder};
fn total(s: &metrics_util::debugging::Snapshotter) -> f64 {
    s.snapshot()
        .into_vec()
        .into_iter()
        .find(|x| x.0.key().name() == "scanner.total_count")
        .map(|x| match x.3 {
            DebugValue::Gauge(v) => v.into_inner(),
            _ => panic!(),
        })
        .unwrap()
}
#[test]
fn the_gauge_follows_the_count() {
    let recorder = DebuggingRecorder::new();
    let snap = recorder.snapshotter();
    metrics::with_local_recorder(&recorder, || {
        let s = Stats::new();
        s.increment_total_scanners();
        s.increment_total_scanners();
        assert_eq!(total(&snap), 2.0);
        s.increment_total_scanners();
        assert_eq!(total(&snap), 3.0);
        s.decrement_total_scanners();
        assert_eq!(total(&snap), 2.0);
        s.decrement_total_scanners();
        s.decrement_total_scanners();
        assert_eq!(total(&snap), 0.0);
    });
}
'''))
S.append(dict(id="c24-existing-key-wins", prop="C24",
  needs="additional labels with a key that is already present",
  breaks="an additional label whose key is already present is dropped when labels are combined",
  edits=[(LA, "        tags.extend(additional_labels.into_labels());\n", "        for label in additional_labels.into_labels() {\n            if self.0.iter().all(|l| l.key() != label.key()) {\n                tags.push(label);\n            }\n        }\n")],
  demo='''use crate::Labels;
use metrics::IntoLabels;
#[test]
fn all_labels_are_kept() {
    let a = Labels::new(&[("rule", "one"), ("team", "x")]);
    let b = Labels::new(&[("rule", "two"), ("env", "y")]);
    let all: Vec<_> = a
        .clone_with_labels(b)
        .into_labels()
        .into_iter()
        .map(|l| (l.key().to_string(), l.value().to_string()))
        .collect();
    let want: Vec<_> = [("rule", "one"), ("team", "x"), ("rule", "two"), ("env", "y")]
        .iter()
        .map(|(k, v)| (k.to_string(), v.to_string()))
        .collect();
    assert_eq!(all, want);
}
'''))

//! Published statistics and labels.
use metrics::{counter, gauge, Counter, Gauge, IntoLabels, Label};
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Stats {
    pub scanner_creations: Counter,
    pub scanner_deletions: Counter,
    pub total_scanners_count: AtomicI64,
    pub total_scanners: Gauge,
    pub total_regexes: Gauge,
    pub total_regex_cache_size_count: AtomicI64,
    pub total_regex_cache_size: Gauge,
}

pub fn new() -> Stats {
    Stats {
        scanner_creations: counter!("scanner.creations"),
        scanner_deletions: counter!("scanner.deletions"),
        total_scanners_count: AtomicI64::new(0),
        total_scanners: gauge!("scanner.total_count"),
        total_regexes: gauge!("scanner.total_regexes"),
        total_regex_cache_size_count: AtomicI64::new(0),
        total_regex_cache_size: gauge!("scanner.total_regex_cache_size"),
    }
}

/// The published value is the count after the change.
pub fn increment_total_scanners(s: &Stats) {
    let before = s.total_scanners_count.fetch_add(1, Ordering::Relaxed);
    s.total_scanners.set((before + 1) as f64);
}

pub fn decrement_total_scanners(s: &Stats) {
    let before = s.total_scanners_count.fetch_add(-1, Ordering::Relaxed);
    s.total_scanners.set((before - 1) as f64);
}

pub fn set_total_regexes(s: &Stats, n: usize) {
    s.total_regexes.set(n as f64);
}

pub fn add_total_regex_cache(s: &Stats, delta: i64) {
    let before = s.total_regex_cache_size_count.fetch_add(delta, Ordering::Relaxed);
    s.total_regex_cache_size.set((before + delta) as f64);
}

#[derive(Clone)]
pub struct Labels(Vec<Label>);

impl IntoLabels for Labels {
    fn into_labels(self) -> Vec<Label> {
        self.0
    }
}

pub struct RuleMetrics {
    pub false_positive_excluded_attributes: Counter,
}

pub fn rule_metrics(labels: &Labels) -> RuleMetrics {
    RuleMetrics { false_positive_excluded_attributes: counter!("false_positive.multipass.excluded_match", labels.clone()) }
}

pub struct ScannerMetrics {
    pub num_scanned_events: Counter,
    pub duration_ns: Counter,
    pub match_count: Counter,
}

pub fn scanner_metrics(labels: &Labels) -> ScannerMetrics {
    ScannerMetrics {
        num_scanned_events: counter!("scanned_events", labels.clone()),
        duration_ns: counter!("scanning.duration", labels.clone()),
        match_count: counter!("scanning.match_count", labels.clone()),
    }
}

/// Own labels first, then the additional ones.
pub fn clone_with_labels(own: &Labels, additional: Labels) -> Labels {
    let mut all = own.0.clone();
    all.extend(additional.0);
    Labels(all)
}

pub fn labels<'a, T: 'a>(pairs: impl IntoIterator<Item = &'a T>) -> Labels
where
    Label: From<&'a T>,
{
    let mut out = Vec::new();
    for p in pairs {
        out.push(Label::from(p));
    }
    Labels(out)
}

pub fn empty() -> Labels {
    Labels(vec![])
}

pub fn into_labels(l: Labels) -> Vec<Label> {
    l.0
}

pub fn serialize<S: serde::Serializer>(l: &Labels, serializer: S) -> Result<S::Ok, S::Error> {
    use serde::ser::SerializeSeq;
    let mut seq = serializer.serialize_seq(Some(l.0.len()))?;
    for label in l.0.iter() {
        seq.serialize_element(&vec![label.key(), label.value()])?;
    }
    seq.end()
}

/// Every element is a list of exactly two texts.
pub fn visit_seq<'de, A: serde::de::SeqAccess<'de>>(mut seq: A) -> Result<Labels, A::Error> {
    let mut pairs: Vec<(String, String)> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
    while let Some(element) = seq.next_element::<Vec<String>>()? {
        if element.len() < 2 {
            return Err(serde::de::Error::custom(format!("list `{:?}` contains a single element, two elements (key and value) are required", element)));
        }
        if element.len() > 2 {
            return Err(serde::de::Error::custom(format!("list `{:?}` contains more than two elements, only two elements (key and value) are allowed", element)));
        }
        pairs.push((element[0].clone(), element[1].clone()));
    }
    Ok(labels(&pairs))
}

pub mod alt {
    use super::{labels, Labels};

    /// Every element is a list of exactly two texts.
    pub fn visit_seq<'de, A: serde::de::SeqAccess<'de>>(mut seq: A) -> Result<Labels, A::Error> {
        let mut pairs: Vec<(String, String)> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
        while let Some(element) = seq.next_element::<Vec<String>>()? {
            if element.len() < 2 {
                return Err(serde::de::Error::custom(format!("list `{:?}` contains a single element, two elements (key and value) are required", element)));
            }
            if element.len() > 2 {
                return Err(serde::de::Error::custom(format!("list `{:?}` contains more than two elements, only two elements (key and value) are allowed", element)));
            }
            pairs.push((element.first().unwrap().clone(), element.last().unwrap().clone()));
        }
        Ok(labels(&pairs))
    }
}

//! The shared store of compiled patterns.
use ahash::AHashMap;
use regex_automata::meta::{Cache, Regex as MetaRegex};
use slotmap::{new_key_type, SlotMap};
use std::sync::{Arc, Mutex, Weak};

new_key_type! { pub struct RegexCacheKey; }

pub struct WeakSharedRegex {
    pub regex: Weak<MetaRegex>,
    pub cache_size: usize,
}

pub struct SharedRegex {
    pub regex: Arc<MetaRegex>,
    pub cache_key: RegexCacheKey,
}

pub struct RegexStore {
    pub pattern_index: AHashMap<String, RegexCacheKey>,
    pub key_map: SlotMap<RegexCacheKey, WeakSharedRegex>,
    pub gc_counter: u64,
}


/// The pattern's regex, with the key it was stored under, as long as somebody uses it.
pub fn get(s: &RegexStore, pattern: &str) -> Option<SharedRegex> {
    let key = match s.pattern_index.get(pattern) {
        Some(k) => *k,
        None => return None,
    };
    match s.key_map.get(key) {
        None => None,
        Some(w) => match w.regex.upgrade() {
            None => None,
            Some(regex) => Some(SharedRegex { regex, cache_key: key }),
        },
    }
}

pub struct Stats {
    _private: std::sync::atomic::AtomicBool,
}

impl Stats {
    pub fn add_total_regex_cache(&self, _n: i64) {}
    pub fn set_total_regexes(&self, _n: usize) {}
}

pub static GLOBAL_STATS: Stats = Stats { _private: std::sync::atomic::AtomicBool::new(false) };

impl RegexStore {
    fn get(&self, _pattern: &str) -> Option<SharedRegex> {
        loop {}
    }
    fn gc(&mut self) {}
    fn insert(&mut self, _pattern: &str, _regex: MetaRegex) -> SharedRegex {
        loop {}
    }
}

pub fn new() -> RegexStore {
    RegexStore { pattern_index: AHashMap::new(), key_map: SlotMap::with_key(), gc_counter: 0 }
}

/// Forgets every entry nobody uses any more, in both maps, and nothing else.
pub fn gc(s: &mut RegexStore) {
    s.gc_counter = 0;
    let RegexStore { pattern_index, key_map, .. } = s;
    pattern_index.retain(|_, key| {
        let alive = key_map.get(*key).unwrap().regex.strong_count() != 0;
        if !alive {
            if let Some(dead) = key_map.remove(*key) {
                GLOBAL_STATS.add_total_regex_cache(-(dead.cache_size as i64));
            }
        }
        alive
    });
    GLOBAL_STATS.set_total_regexes(s.key_map.len());
}

/// Every 1,000th insertion cleans up first. An entry still in use wins over the new regex; otherwise the
/// new regex is stored under a new key, which replaces the unused entry of the pattern.
pub fn insert(s: &mut RegexStore, pattern: &str, regex: MetaRegex) -> SharedRegex {
    s.gc_counter = s.gc_counter + 1;
    if s.gc_counter >= 1000 {
        s.gc();
    }
    match s.get(pattern) {
        Some(existing) => existing,
        None => {
            let regex = Arc::new(regex);
            let cache_size = regex.create_cache().memory_usage() + std::mem::size_of::<Cache>();
            let cache_key = s.key_map.insert(WeakSharedRegex { regex: Arc::downgrade(&regex), cache_size });
            GLOBAL_STATS.add_total_regex_cache(cache_size as i64);
            match s.pattern_index.insert(pattern.to_string(), cache_key) {
                None => {}
                Some(old) => match s.key_map.remove(old) {
                    None => {}
                    Some(dead) => GLOBAL_STATS.add_total_regex_cache(-(dead.cache_size as i64)),
                },
            }
            GLOBAL_STATS.set_total_regexes(s.key_map.len());
            SharedRegex { regex, cache_key }
        }
    }
}

/// Looks the pattern up, compiles it only when it is missing, and stores the result.
pub fn get_memoized_regex_with_custom_store<T>(
    pattern: &str,
    regex_factory: impl FnOnce(&str) -> Result<MetaRegex, T>,
    store: &Mutex<RegexStore>,
) -> Result<SharedRegex, T> {
    let found = store.lock().unwrap().get(pattern);
    match found {
        Some(r) => Ok(r),
        None => match regex_factory(pattern) {
            Err(e) => Err(e),
            Ok(r) => Ok(store.lock().unwrap().insert(pattern, r)),
        },
    }
}

/// The scratch space of a regex is the one stored under its key, made by that regex the first time.
pub struct RegexCaches {
    pub map: slotmap::SecondaryMap<RegexCacheKey, Cache>,
}

pub fn cache<'a>(s: &'a mut RegexCaches, shared: &SharedRegex) -> &'a mut Cache {
    let entry = s.map.entry(shared.cache_key).unwrap();
    entry.or_insert_with(|| shared.regex.create_cache())
}

pub fn no_caches() -> RegexCaches {
    RegexCaches { map: slotmap::SecondaryMap::new() }
}

lazy_static::lazy_static! {
    static ref REGEX_STORE: Arc<Mutex<RegexStore>> = Arc::new(Mutex::new(new()));
}

/// Everyone shares one store.
pub fn get_memoized_regex<T>(pattern: &str, regex_factory: impl FnOnce(&str) -> Result<MetaRegex, T>) -> Result<SharedRegex, T> {
    get_memoized_regex_with_custom_store(pattern, regex_factory, &REGEX_STORE)
}

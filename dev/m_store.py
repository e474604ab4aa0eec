R, C, ST, L, ME = ["sds/src/" + x for x in ("scanner/regex_rule/regex_store.rs", "scanner/regex_rule/regex_cache_store.rs", "stats.rs", "observability/labels.rs", "scanner/metrics.rs")]
GC = """            if self.key_map.get(*cache_key).unwrap().regex.strong_count() == 0 {
                if let Some(old_regex) = self.key_map.remove(*cache_key) {
                    GLOBAL_STATS.add_total_regex_cache(-(old_regex.cache_size as i64));
                }
                false
            } else {
                true
            }
"""
GET = """        self.pattern_index.get(pattern).and_then(|cache_key| {
            self.key_map
                .get(*cache_key)
                .and_then(|x| x.regex.upgrade())
                .map(|regex| SharedRegex {
                    regex,
                    cache_key: *cache_key,
                })
        })
"""
LOOK = """    {
        let regex_store = store.lock().unwrap();
        if let Some(exiting_regex) = regex_store.get(pattern) {
            return Ok(exiting_regex);
        }
    }
"""
OLD = """            if let Some(old_cache_key) = self.pattern_index.insert(pattern.to_owned(), cache_key) {
                // cleanup old value (which must be a "dead" reference since `get` returned None)
                if let Some(weak_ref) = self.key_map.remove(old_cache_key) {
                    GLOBAL_STATS.add_total_regex_cache(-(weak_ref.cache_size as i64));
                    debug_assert!(weak_ref.regex.strong_count() == 0)
                }
            }
"""
EXT = """        tags.extend(additional_labels.into_labels());
        Labels(tags)"""
M = [
 ("gc-weak", "C17", R, "regex.strong_count() == 0 {", "regex.strong_count() <= 1 {"),
 ("gc-nomap", "C17", R, GC, GC.replace("if let Some(old_regex) = self.key_map.remove(*cache_key)", "if let Some(old_regex) = self.key_map.get(*cache_key)")),
 ("gc-keep", "C17", R, GC, GC.replace("                false\n", "                self.gc_counter > 0\n"), R, "        self.gc_counter = 0;\n", "        let counter = self.gc_counter;\n        self.gc_counter = 0;\n", R, "self.gc_counter > 0\n", "counter == 0\n"),
 ("gc-noreset", "C17", R, "        self.gc_counter = 0;\n        self.pattern", "        self.pattern"),
 ("gc-total", "C23", R, "        GLOBAL_STATS.set_total_regexes(self.key_map.len());\n    }\n\n    /// Check", "        GLOBAL_STATS.set_total_regexes(self.key_map.capacity());\n    }\n\n    /// Check"),
 ("gc-stat", "C23", R, "-(old_regex.cache_size as i64)", "-(old_regex.cache_size as i64 / 2)"),
 ("gc-alive-ok", "ok", R, GC, """            let alive = self
                .key_map
                .get(*cache_key)
                .map(|x| x.regex.strong_count() > 0)
                .unwrap();
            if !alive {
                if let Some(old_regex) = self.key_map.remove(*cache_key) {
                    GLOBAL_STATS.add_total_regex_cache(-(old_regex.cache_size as i64));
                }
            }
            alive
"""),
 ("gc-index-ok", "ok", R, "self.key_map.get(*cache_key).unwrap().regex", "self.key_map[*cache_key].regex"),
 ("gc-early-ok", "ok", R, GC, """            let weak = &self.key_map.get(*cache_key).unwrap().regex;
            if weak.strong_count() != 0 {
                return true;
            }
            if let Some(old_regex) = self.key_map.remove(*cache_key) {
                let freed = old_regex.cache_size as i64;
                GLOBAL_STATS.add_total_regex_cache(-freed);
            }
            false
"""),
 ("get-q-ok", "ok", R, GET, """        let cache_key = *self.pattern_index.get(pattern)?;
        let regex = self.key_map.get(cache_key)?.regex.upgrade()?;
        Some(SharedRegex { regex, cache_key })
"""),
 ("get-match-ok", "ok", R, GET, """        match self.pattern_index.get(pattern) {
            Some(&cache_key) => match self.key_map.get(cache_key) {
                Some(x) => x.regex.upgrade().map(|regex| SharedRegex { regex, cache_key }),
                None => None,
            },
            None => None,
        }
"""),
 ("get-lower", "C17", R, "self.pattern_index.get(pattern).and_then", "self.pattern_index.get(&pattern.to_lowercase()).and_then"),
 ("ins-freq", "C17", R, "if self.gc_counter >= GC_FREQUENCY {", "if self.gc_counter > GC_FREQUENCY * 2 {"),
 ("ins-nore", "C17", R, "if let Some(existing_regex) = self.get(pattern) {\n            existing_regex", "if let Some(existing_regex) = self.get(pattern).filter(|x| x.pattern_len() > 1) {\n            existing_regex"),
 ("ins-nocleanup", "C17", R, OLD, "            self.pattern_index.insert(pattern.to_owned(), cache_key);\n"),
 ("ins-removenew", "C17", R, "self.key_map.remove(old_cache_key)", "self.key_map.remove(cache_key)"),
 ("ins-key", "C17", R, """            SharedRegex {
                regex: shared_regex,
                cache_key,
            }
        }
    }""", """            SharedRegex {
                regex: shared_regex,
                cache_key: RegexCacheKey::default(),
            }
        }
    }"""),
 ("ins-size", "C23", R, "GLOBAL_STATS.add_total_regex_cache(cache_size as i64);", "GLOBAL_STATS.add_total_regex_cache(regex_cache.memory_usage() as i64);"),
 ("ins-noneg", "C23", R, "GLOBAL_STATS.add_total_regex_cache(-(weak_ref.cache_size as i64));", "GLOBAL_STATS.add_total_regex_cache(weak_ref.cache_size as i64);"),
 ("ins-early-ok", "ok", R, """        if let Some(existing_regex) = self.get(pattern) {
            existing_regex
        } else {
            let shared_regex""", """        if let Some(existing_regex) = self.get(pattern) {
            return existing_regex;
        }
        {
            let shared_regex"""),
 ("ins-cnt-ok", "ok", R, """        self.gc_counter += 1;
        if self.gc_counter >= GC_FREQUENCY {""", """        let count = self.gc_counter + 1;
        self.gc_counter = count;
        if !(count < GC_FREQUENCY) {"""),
 ("ins-helper-ok", "ok", R, OLD, """            self.forget(pattern, cache_key);
""", R, "    #[cfg(test)]\n    fn len", """    fn forget(&mut self, pattern: &str, cache_key: RegexCacheKey) {
        let old = self.pattern_index.insert(pattern.to_string(), cache_key);
        if let Some(weak_ref) = old.and_then(|k| self.key_map.remove(k)) {
            GLOBAL_STATS.add_total_regex_cache(-(weak_ref.cache_size as i64));
        }
    }

    #[cfg(test)]
    fn len"""),
 ("memo-hold", "C18", R, LOOK + """
    // Create the new regex after the RegexStore lock is released, since this can be slow
    let regex = regex_factory(pattern)?;

    let mut regex_store = store.lock().unwrap();
""", """    let mut regex_store = store.lock().unwrap();
    if let Some(exiting_regex) = regex_store.get(pattern) {
        return Ok(exiting_regex);
    }
    let regex = regex_factory(pattern)?;
"""),
 ("memo-relock", "C18", R, LOOK, """    let existing = store.lock().unwrap();
    if let Some(exiting_regex) = existing.get(pattern) {
        return Ok(exiting_regex);
    }
    drop(existing);
    let existing = store.lock().unwrap();
""" , R, "    Ok(regex_store.insert(pattern, regex))", "    drop(existing);\n    Ok(regex_store.insert(pattern, regex))"),
 ("memo-noinsert", "C18", R, "    let mut regex_store = store.lock().unwrap();\n    Ok(regex_store.insert(pattern, regex))", "    let mut regex_store = store.lock().unwrap();\n    if pattern.is_empty() {\n        return Ok(SharedRegex { regex: Arc::new(regex), cache_key: RegexCacheKey::default() });\n    }\n    Ok(regex_store.insert(pattern, regex))"),
 ("memo-trim", "C18", R, "    Ok(regex_store.insert(pattern, regex))", "    Ok(regex_store.insert(pattern.trim(), regex))"),
 ("memo-temp-ok", "ok", R, LOOK, """    if let Some(exiting_regex) = store.lock().unwrap().get(pattern) {
        return Ok(exiting_regex);
    }
"""),
 ("memo-temp2-ok", "ok", R, LOOK, """    let existing = store.lock().unwrap().get(pattern);
    if let Some(exiting_regex) = existing {
        return Ok(exiting_regex);
    }
"""),
 ("memo-drop-ok", "ok", R, LOOK, """    let guard = store.lock().unwrap();
    if let Some(exiting_regex) = guard.get(pattern) {
        return Ok(exiting_regex);
    }
    drop(guard);
"""),
 ("memo-match-ok", "ok", R, """    let regex = regex_factory(pattern)?;

    let mut regex_store = store.lock().unwrap();
    Ok(regex_store.insert(pattern, regex))""", """    regex_factory(pattern).map(|regex| {
        let mut regex_store = store.lock().unwrap();
        regex_store.insert(pattern, regex)
    })"""),
 ("memo-tail", "C18", R, """    // Create the new regex after the RegexStore lock is released, since this can be slow
    let regex = regex_factory(pattern)?;

    let mut regex_store = store.lock().unwrap();
    Ok(regex_store.insert(pattern, regex))""", """    let mut regex_store = store.lock().unwrap();
    let regex = regex_factory(pattern)?;
    Ok(regex_store.insert(pattern, regex))"""),
 ("memo-iflet-hold", "C18", R, LOOK + """
    // Create the new regex after the RegexStore lock is released, since this can be slow
    let regex = regex_factory(pattern)?;
""", """    let regex = match store.lock().unwrap().get(pattern) {
        Some(exiting_regex) => return Ok(exiting_regex),
        None => regex_factory(pattern)?,
    };
"""),
 ("cache-key", "C19", C, "self.raw_get(shared_regex.cache_key, &shared_regex.regex)", "self.raw_get(RegexCacheKey::default(), &shared_regex.regex)"),
 ("cache-fresh", "C19", C, """        self.map
            .entry(key)
            .unwrap()
            .or_insert_with(|| regex.create_cache())""", """        self.map.insert(key, regex.create_cache());
        &mut self.map[key]"""),
 ("cache-match-ok", "ok", C, """        self.map
            .entry(key)
            .unwrap()
            .or_insert_with(|| regex.create_cache())""", """        let entry = self.map.entry(key);
        let entry = entry.unwrap();
        entry.or_insert_with(|| MetaRegex::create_cache(regex))"""),
 ("st-prev", "C23", ST, "self.total_scanners.set((prev_value + delta) as f64)", "self.total_scanners.set(prev_value as f64)"),
 ("st-dec", "C23", ST, "self.update_total_scanners(-1)", "self.update_total_scanners(1)"),
 ("st-swap", "C23", ST, "    pub fn add_total_regex_cache(&self, delta: i64) {\n        let prev_value = self\n            .total_regex_cache_size_count", "    pub fn add_total_regex_cache(&self, delta: i64) {\n        let prev_value = self\n            .total_scanners_count"),
 ("st-name", "C23", ST, 'gauge!("scanner.total_regexes")', 'gauge!("scanner.total_regex")'),
 ("st-ctr", "C23", ST, 'scanner_deletions: counter!("scanner.deletions")', 'scanner_deletions: counter!("scanner.creations")'),
 ("me-name", "C23", ME, '"scanning.match_count", labels.clone()', '"scanning.match_count"'),
 ("me-swap", "C23", ME, '"scanning.duration"', '"scanned_events"', ME, 'num_scanned_events: counter!("scanned_events"', 'num_scanned_events: counter!("scanning.duration"'),
 ("st-inline-ok", "ok", ST, "        let prev_value = self\n            .total_scanners_count\n            .fetch_add(delta, Ordering::Relaxed);\n        self.total_scanners.set((prev_value + delta) as f64);", "        let counter = &self.total_scanners_count;\n        let total = counter.fetch_add(delta, Ordering::Relaxed) + delta;\n        self.total_scanners.set(total as f64);"),
 ("st-ord-ok", "ok", ST, "            .total_scanners_count\n            .fetch_add(delta, Ordering::Relaxed)", "            .total_scanners_count\n            .fetch_add(delta, Ordering::SeqCst)"),
 ("la-order", "C24", L, "        let mut tags = self.0.clone();\n" + EXT, "        let mut tags = additional_labels.into_labels();\n        tags.extend(self.0.clone());\n        Labels(tags)"),
 ("la-drop", "C24", L, EXT, "        if tags.is_empty() {\n            tags.extend(additional_labels.into_labels());\n        }\n        Labels(tags)"),
 ("la-dedup", "C24", L, EXT, "        for label in additional_labels.into_labels() {\n            if !tags.contains(&label) {\n                tags.push(label);\n            }\n        }\n        Labels(tags)"),
 ("la-append-ok", "ok", L, EXT, "        let mut more = additional_labels.into_labels();\n        tags.append(&mut more);\n        Labels(tags)"),
 ("la-chain-ok", "ok", L, "        let mut tags = self.0.clone();\n" + EXT, "        Labels(self.0.iter().cloned().chain(additional_labels.into_labels()).collect())"),
 ("la-push-ok", "ok", L, EXT, "        for label in additional_labels.into_labels() {\n            tags.push(label);\n        }\n        Labels(tags)"),
 ("la-ser", "C24", L, "&vec![label.key(), label.value()]", "&vec![label.value(), label.key()]"),
 ("la-ser2", "C24", L, "for label in self.clone().into_labels() {", "for label in self.clone().into_labels().into_iter().filter(|l| !l.value().is_empty()) {"),
 ("la-ser-ok", "ok", L, "for label in self.clone().into_labels() {", "for label in &self.0 {"),
 ("la-de", "C24", L, "if element.len() > 2 {", "if element.len() > 3 {"),
 ("la-de2", "C24", L, "element.last().unwrap().clone(),", "element.first().unwrap().clone(),"),
 ("la-de-ok", "ok", L, """                    label_list.push((
                        element.first().unwrap().clone(),
                        element.last().unwrap().clone(),
                    ))""", """                    label_list.push((element[0].clone(), element[1].clone()));"""),
]

R = "sds/src/scanner/regex_rule/regex_store.rs"
P = "sds/src/path.rs"
SE = "sds/src/simple_event.rs"
EJ = "sds/src/event_json.rs"
EV = "sds/src/event.rs"
B = "sds-bindings-utils/src/binary_encoding.rs"
MS = "sds/src/match_validation/match_status.rs"
L = "sds/src/observability/labels.rs"
V = "sds/src/secondary_validation/"
LU = V + "luhn_checksum.rs"
NH = V + "nhs_check_digit.rs"
NI = V + "nir_checksum.rs"
M = [
("r6-rs-bump", "ok", R, """        self.gc_counter += 1;
        if self.gc_counter >= GC_FREQUENCY {
            self.gc();
        }
        if let Some""", """        self.maybe_gc();
        if let Some""", R, """    /// Cleans up any""", """    fn maybe_gc(&mut self) {
        self.gc_counter += 1;
        if self.gc_counter >= GC_FREQUENCY {
            self.gc();
        }
    }

    /// Cleans up any"""),
("r6-rs-new-entry", "ok", R, """            let regex_cache = shared_regex.create_cache();
            let cache_size = regex_cache.memory_usage() + std::mem::size_of::<Cache>();
            let cache_key = self.key_map.insert(WeakSharedRegex {
                regex: Arc::downgrade(&shared_regex),
                cache_size,
            });
            GLOBAL_STATS.add_total_regex_cache(cache_size as i64);
            if let Some(old_cache_key) = self.pattern_index.insert(pattern.to_owned(), cache_key) {
                // cleanup old value (which must be a "dead" reference since `get` returned None)
                if let Some(weak_ref) = self.key_map.remove(old_cache_key) {
                    GLOBAL_STATS.add_total_regex_cache(-(weak_ref.cache_size as i64));
                    debug_assert!(weak_ref.regex.strong_count() == 0)
                }
            }
""", """            let cache_size = estimate_cache_size(&shared_regex);
            let cache_key = self.key_map.insert(WeakSharedRegex {
                regex: Arc::downgrade(&shared_regex),
                cache_size,
            });
            GLOBAL_STATS.add_total_regex_cache(cache_size as i64);
            let replaced = self.pattern_index.insert(pattern.to_owned(), cache_key);
            if let Some(weak_ref) = replaced.and_then(|old| self.key_map.remove(old)) {
                GLOBAL_STATS.add_total_regex_cache(-(weak_ref.cache_size as i64));
                debug_assert!(weak_ref.regex.strong_count() == 0)
            }
""", R, """// A GC of""", """fn estimate_cache_size(regex: &MetaRegex) -> usize {
    regex.create_cache().memory_usage() + std::mem::size_of::<Cache>()
}

// A GC of"""),
("r6-rs-get-q", "ok", R, """        self.pattern_index.get(pattern).and_then(|cache_key| {
            self.key_map
                .get(*cache_key)
                .and_then(|x| x.regex.upgrade())
                .map(|regex| SharedRegex {
                    regex,
                    cache_key: *cache_key,
                })
        })""", """        let cache_key = *self.pattern_index.get(pattern)?;
        let entry = self.key_map.get(cache_key)?;
        let regex = entry.regex.upgrade()?;
        Some(SharedRegex { regex, cache_key })"""),
("r6-rs-get-zip", "ok", R, """            self.key_map
                .get(*cache_key)
                .and_then(|x| x.regex.upgrade())
                .map(|regex| SharedRegex {
                    regex,
                    cache_key: *cache_key,
                })""", """            let entry = self.key_map.get(*cache_key)?;
            match entry.regex.upgrade() {
                Some(regex) => Some(SharedRegex { cache_key: *cache_key, regex }),
                None => None,
            }"""),
("r6-rs-gc-idx", "ok", R, """            if self.key_map.get(*cache_key).unwrap().regex.strong_count() == 0 {
                if let Some(old_regex) = self.key_map.remove(*cache_key) {
                    GLOBAL_STATS.add_total_regex_cache(-(old_regex.cache_size as i64));
                }
                false
            } else {
                true
            }""", """            let is_alive = self.key_map[*cache_key].regex.strong_count() > 0;
            if !is_alive {
                if let Some(old_regex) = self.key_map.remove(*cache_key) {
                    GLOBAL_STATS.add_total_regex_cache(-(old_regex.cache_size as i64));
                }
            }
            is_alive"""),
("r6-rs-gc-order", "ok", R, """        self.gc_counter = 0;
        self.pattern_index.retain""", """        self.pattern_index.retain""", R, """        GLOBAL_STATS.set_total_regexes(self.key_map.len());
    }
""", """        self.gc_counter = 0;
        GLOBAL_STATS.set_total_regexes(self.key_map.len());
    }
"""),
("r6-rs-memo-lookup", "ok", R, """    {
        let regex_store = store.lock().unwrap();
        if let Some(exiting_regex) = regex_store.get(pattern) {
            return Ok(exiting_regex);
        }
    }
""", """    let existing = store.lock().unwrap().get(pattern);
    if let Some(regex) = existing {
        return Ok(regex);
    }
"""),
("r6-rs-memo-match", "ok", R, """    // Create the new regex after the RegexStore lock is released, since this can be slow
    let regex = regex_factory(pattern)?;

    let mut regex_store = store.lock().unwrap();
    Ok(regex_store.insert(pattern, regex))""", """    match regex_factory(pattern) {
        Ok(regex) => Ok(store.lock().unwrap().insert(pattern, regex)),
        Err(error) => Err(error),
    }"""),
("r6-rs-memo-map", "ok", R, """    let regex = regex_factory(pattern)?;

    let mut regex_store = store.lock().unwrap();
    Ok(regex_store.insert(pattern, regex))""", """    regex_factory(pattern).map(|regex| {
        let mut regex_store = store.lock().unwrap();
        regex_store.insert(pattern, regex)
    })"""),
("r6-rs-default", "ok", R, """            pattern_index: AHashMap::new(),
            key_map: SlotMap::with_key(),
            gc_counter: 0,""", """            pattern_index: AHashMap::default(),
            key_map: SlotMap::default(),
            gc_counter: 0,"""),
("r6-pa-sw-slice", "ok", P, """        if prefix.len() > self.len() {
            // the prefix is longer than the path
            return false;
        }

        // ensure all segments of `prefix` match self
        for (a, b) in prefix.segments.iter().zip(self.segments.iter()) {
            if a != b {
                return false;
            }
        }
        true""", """        self.segments.starts_with(&prefix.segments)"""),
("r6-pa-sw-eq", "ok", P, """        // ensure all segments of `prefix` match self
        for (a, b) in prefix.segments.iter().zip(self.segments.iter()) {
            if a != b {
                return false;
            }
        }
        true""", """        self.segments[..prefix.len()] == prefix.segments[..]"""),
("r6-pa-sw-any", "ok", P, """        // ensure all segments of `prefix` match self
        for (a, b) in prefix.segments.iter().zip(self.segments.iter()) {
            if a != b {
                return false;
            }
        }
        true""", """        !prefix
            .segments
            .iter()
            .zip(&self.segments)
            .any(|(expected, actual)| expected != actual)"""),
("r6-pa-san-for", "ok", P, """        self.segments.iter().enumerate().for_each(|(i, segment)| {
            if let PathSegment::Field(field) = segment {
                if i != 0 {
                    sanitized_path.push(UNIFIED_LINK_CHAR);
                }

                if should_bypass_standardize_path(field) != BypassStandardizePathResult::NoBypass {
                    sanitized_path.push_str(field.to_ascii_lowercase().as_str())
                } else {
                    standardize_path_chars(field, |c| {
                        sanitized_path.push(c.to_ascii_lowercase());
                    });
                }
            }
        });
""", """        for (i, segment) in self.segments.iter().enumerate() {
            let PathSegment::Field(field) = segment else {
                continue;
            };
            if i > 0 {
                sanitized_path.push(UNIFIED_LINK_CHAR);
            }
            match should_bypass_standardize_path(field) {
                BypassStandardizePathResult::NoBypass => {
                    standardize_path_chars(field, |c| {
                        sanitized_path.push(c.to_ascii_lowercase());
                    });
                }
                _ => sanitized_path.push_str(&field.to_ascii_lowercase()),
            }
        }
"""),
("r6-pa-san-filter", "ok", P, """        self.segments.iter().enumerate().for_each(|(i, segment)| {
            if let PathSegment::Field(field) = segment {
                if i != 0 {""", """        let fields = self.segments.iter().enumerate().filter_map(|(i, segment)| match segment {
            PathSegment::Field(field) => Some((i, field)),
            PathSegment::Index(_) => None,
        });
        fields.for_each(|(i, field)| {
            {
                if i != 0 {"""),
("r6-pa-size-len", "ok", P, """            .map(|segment| {
                if let PathSegment::Field(field) = segment {
                    return field.len();
                }
                0
            })
            .sum()""", """            .map(PathSegment::length)
            .sum()"""),
("r6-pa-san-dedup", "ok", P, """                BypassStandardizePathResult::NoBypass => {
                    let mut sanitized_segment = String::with_capacity(self.length() + 1);
                    standardize_path_chars(field, |c| {
                        sanitized_segment.push(c.to_ascii_lowercase());
                    });
                    Some(Cow::Owned(sanitized_segment))
                }""", """                BypassStandardizePathResult::NoBypass => {
                    let mut sanitized_segment = String::with_capacity(field.len() + 1);
                    append_standardized(field, &mut sanitized_segment);
                    Some(Cow::Owned(sanitized_segment))
                }""", P, """                    standardize_path_chars(field, |c| {
                        sanitized_path.push(c.to_ascii_lowercase());
                    });""", """                    append_standardized(field, &mut sanitized_path);""", P, """impl<'a> Debug for Path<'a> {""", """fn append_standardized(field: &str, out: &mut String) {
    standardize_path_chars(field, |c| out.push(c.to_ascii_lowercase()));
}

impl<'a> Debug for Path<'a> {"""),
("r6-pa-san-reserve", "ok", P, """                    let mut sanitized_segment = String::with_capacity(self.length() + 1);
                    standardize_path_chars(field, |c| {
                        sanitized_segment.push(c.to_ascii_lowercase());
                    });
                    Some(Cow::Owned(sanitized_segment))""", """                    let mut sanitized_segment = String::with_capacity(self.length() + 1);
                    standardize_path_chars(field, |c| sanitized_segment.push(*c));
                    sanitized_segment.make_ascii_lowercase();
                    Some(Cow::Owned(sanitized_segment))"""),
("r6-pa-disp-str", "ok", P, """                    if i != 0 {
                        write!(f, ".")?;
                    }
                    write!(f, "{}", field)?;""", """                    if i != 0 {
                        f.write_str(".")?;
                    }
                    f.write_str(field)?;"""),
("r6-pa-disp-sep", "ok", P, """                    if i != 0 {
                        write!(f, ".")?;
                    }
                    write!(f, "{}", field)?;""", """                    let separator = if i == 0 { "" } else { "." };
                    write!(f, "{separator}{field}")?;"""),
("r6-pa-disp-try", "ok", P, """        for (i, segment) in self.segments.iter().enumerate() {
            match segment {
                PathSegment::Field(field) => {
                    if i != 0 {
                        write!(f, ".")?;
                    }
                    write!(f, "{}", field)?;
                }
                PathSegment::Index(i) => {
                    write!(f, "[{}]", i)?;
                }
            }
        }
        Ok(())""", """        self.segments
            .iter()
            .enumerate()
            .try_for_each(|(position, segment)| match segment {
                PathSegment::Field(field) if position == 0 => write!(f, "{}", field),
                PathSegment::Field(field) => write!(f, ".{}", field),
                PathSegment::Index(index) => write!(f, "[{}]", index),
            })"""),
("r6-pa-static-clone", "ok", P, """            PathSegment::Field(cow) => PathSegment::Field(Cow::Owned(cow.as_ref().to_owned())),""", """            PathSegment::Field(cow) => PathSegment::Field(Cow::Owned(cow.clone().into_owned())),"""),
("r6-pa-static-str", "ok", P, """            PathSegment::Field(cow) => PathSegment::Field(Cow::Owned(cow.as_ref().to_owned())),""", """            PathSegment::Field(cow) => PathSegment::Field(cow.to_string().into()),"""),
("r6-pa-static-from", "ok", P, """        Path {
            segments: self.segments.iter().map(PathSegment::into_static).collect(),
        }""", """        let segments: Vec<_> = self.segments.iter().map(|s| s.into_static()).collect();
        segments.into()"""),
("r6-se-two-pass", "ok", SE, """                for (key, child) in map.iter_mut() {
                    if key == FIRST_VISIT_KEY {
                        visitor.push_segment(key.as_str().into());
                        child.visit_event(visitor);
                        visitor.pop_segment();
                    } else {
                        key_to_post_process.push((key, child));
                    }
                }
                for (key, child) in key_to_post_process {""", """                for (key, child) in map.iter_mut() {
                    if key != FIRST_VISIT_KEY {
                        key_to_post_process.push((key, child));
                        continue;
                    }
                    visitor.push_segment(PathSegment::Field(key.as_str().into()));
                    child.visit_event(visitor);
                    visitor.pop_segment();
                }
                for (key, child) in key_to_post_process.into_iter() {"""),
("r6-se-partition", "ok", SE, """                let mut key_to_post_process: Vec<(&String, &mut SimpleEvent)> = vec![];
                for (key, child) in map.iter_mut() {
                    if key == FIRST_VISIT_KEY {
                        visitor.push_segment(key.as_str().into());
                        child.visit_event(visitor);
                        visitor.pop_segment();
                    } else {
                        key_to_post_process.push((key, child));
                    }
                }
                for (key, child) in key_to_post_process {""", """                let (first, rest): (Vec<_>, Vec<_>) = map
                    .iter_mut()
                    .partition(|(key, _)| key.as_str() == FIRST_VISIT_KEY);
                for (key, child) in first.into_iter().chain(rest) {"""),
("r6-se-helper", "ok", SE, """                        visitor.push_segment(key.as_str().into());
                        child.visit_event(visitor);
                        visitor.pop_segment();
                    } else {""", """                        visit_child(visitor, key.as_str().into(), child);
                    } else {""", SE, """                for (key, child) in key_to_post_process {
                    visitor.push_segment(key.as_str().into());
                    child.visit_event(visitor);
                    visitor.pop_segment();
                }""", """                for (key, child) in key_to_post_process {
                    visit_child(visitor, key.as_str().into(), child);
                }""", SE, """                    visitor.push_segment(PathSegment::Index(i));
                    child.visit_event(visitor);
                    visitor.pop_segment();
                }
            }
            Self::Map""", """                    visit_child(visitor, i.into(), child);
                }
            }
            Self::Map""", SE, """impl SimpleEvent {""", """fn visit_child<'path>(
    visitor: &mut impl EventVisitor<'path>,
    segment: PathSegment<'path>,
    child: &'path mut SimpleEvent,
) {
    visitor.push_segment(segment);
    child.visit_event(visitor);
    visitor.pop_segment();
}

impl SimpleEvent {"""),
("r6-se-fold", "ok", SE, """        let mut value = self;

        for segment in &path.segments {
            match segment {
                PathSegment::Field(key) => {
                    value = value.as_map_mut().unwrap().get_mut(key.as_ref()).unwrap();
                }
                PathSegment::Index(i) => {
                    value = value.as_list_mut().unwrap().get_mut(*i).unwrap();
                }
            }
        }
        (visit)(value.as_string_mut().unwrap());""", """        let target = path.segments.iter().fold(self, |value, segment| match segment {
            PathSegment::Field(key) => value.as_map_mut().unwrap().get_mut(key.as_ref()).unwrap(),
            PathSegment::Index(i) => value.as_list_mut().unwrap().get_mut(*i).unwrap(),
        });
        visit(target.as_string_mut().unwrap());"""),
("r6-se-index", "ok", SE, """                    value = value.as_list_mut().unwrap().get_mut(*i).unwrap();""", """                    value = &mut value.as_list_mut().unwrap()[*i];"""),
("r6-se-expect", "ok", SE, """        (visit)(value.as_string_mut().unwrap());""", """        let content = value.as_string_mut().expect("path must point to a string");
        visit(content);"""),
("r6-se-asm", "ok", SE, """        match self {
            Self::Map(x) => Some(x),
            _ => None,
        }""", """        if let Self::Map(entries) = self {
            Some(entries)
        } else {
            None
        }"""),
("r6-ej-scalar", "ok", EJ, """            serde_json::Value::Bool(value) => {
                let _result = visitor.visit_string(value.to_string().as_str());
            }
            serde_json::Value::Number(number) => {
                let _result = visitor.visit_string(number.to_string().as_str());
            }""", """            serde_json::Value::Bool(value) => visit_scalar(value, visitor),
            serde_json::Value::Number(number) => visit_scalar(number, visitor),""", EJ, """impl Event for HashMap""", """fn visit_scalar<'a>(value: &impl ToString, visitor: &mut impl EventVisitor<'a>) {
    visitor.visit_string(&value.to_string());
}

impl Event for HashMap"""),
("r6-ej-use", "ok", EJ, """            serde_json::Value::Bool(value) => {
                let _result = visitor.visit_string(value.to_string().as_str());
            }""", """            serde_json::Value::Bool(value) => {
                let _result = visitor.visit_string(if *value { "true" } else { "false" });
            }"""),
("r6-ej-hm-slice", "ok", EJ, """        let first_segment = path.segments.first().unwrap();
        let mut remaining_segments = path.segments.clone();
        remaining_segments.remove(0);
        if let PathSegment::Field(field) = first_segment {
            let value = self.get_mut(&field.to_string()).unwrap();
            value.visit_string_mut(&Path::from(remaining_segments), &mut visit);
        }""", """        let (first_segment, remaining_segments) = path.segments.split_first().unwrap();
        if let PathSegment::Field(field) = first_segment {
            let value = self.get_mut(field.as_ref()).unwrap();
            value.visit_string_mut(&Path::from(remaining_segments.to_vec()), &mut visit);
        }"""),
("r6-ej-hm-match", "ok", EJ, """        let first_segment = path.segments.first().unwrap();
        let mut remaining_segments = path.segments.clone();
        remaining_segments.remove(0);
        if let PathSegment::Field(field) = first_segment {
            let value = self.get_mut(&field.to_string()).unwrap();
            value.visit_string_mut(&Path::from(remaining_segments), &mut visit);
        }""", """        let mut remaining_segments = path.segments.clone();
        match remaining_segments.remove(0) {
            PathSegment::Field(field) => self
                .get_mut(field.as_ref())
                .unwrap()
                .visit_string_mut(&Path::from(remaining_segments), &mut visit),
            PathSegment::Index(_) => {}
        }"""),
("r6-ej-letelse", "ok", EJ, """        match value {
            serde_json::Value::String(s) => {
                (visit)(s);
            }
            _ => panic!("unknown value"),
        };""", """        let serde_json::Value::String(content) = value else {
            panic!("unknown value");
        };
        visit(content);"""),
("r6-be-fields", "ok", B, """    out.push(5);
    out.extend((rule_match.rule_index as u32).to_be_bytes());
""", """    out.push(5);
    encode_u32(out, rule_match.rule_index);
""", B, """    out.extend((rule_match.start_index as u32).to_be_bytes());
    out.extend((rule_match.end_index_exclusive as u32).to_be_bytes());
""", """    encode_u32(out, rule_match.start_index);
    encode_u32(out, rule_match.end_index_exclusive);
""", B, """                out.extend((*index as u32).to_be_bytes());""", """                encode_u32(out, *index);""", B, """fn encode_bytes(out: &mut Vec<u8>, bytes: &[u8]) {
    out.extend((bytes.len() as u32).to_be_bytes());
    out.extend(bytes);""", """fn encode_u32(out: &mut Vec<u8>, value: usize) {
    out.extend_from_slice(&(value as u32).to_be_bytes());
}

fn encode_bytes(out: &mut Vec<u8>, bytes: &[u8]) {
    encode_u32(out, bytes.len());
    out.extend_from_slice(bytes);"""),
("r6-be-readfield", "ok", B, """                    let field = if self.strings_are_valid_utf8 {
                        Cow::from(unsafe {
                            std::str::from_utf8_unchecked(&self.bytes[index..(index + len)])
                        })
                    } else {
                        String::from_utf8_lossy(&self.bytes[index..(index + len)])
                    };

                    index += len;
                    visitor.push_segment(PathSegment::Field(field))""", """                    let end = index + len;
                    let raw = &self.bytes[index..end];
                    let field = if self.strings_are_valid_utf8 {
                        Cow::Borrowed(unsafe { std::str::from_utf8_unchecked(raw) })
                    } else {
                        String::from_utf8_lossy(raw)
                    };
                    index = end;
                    visitor.push_segment(PathSegment::Field(field))"""),
("r6-be-entry", "ok", B, """                    if visit_result.might_mutate && !self.storage.contains_key(&visit_result.path) {
                        self.storage.insert(
                            visit_result.path.into_static(),
                            (false, content.to_string()),
                        );
                    }""", """                    if visit_result.might_mutate {
                        self.storage
                            .entry(visit_result.path.into_static())
                            .or_insert_with(|| (false, content.into_owned()));
                    }"""),
("r6-be-loop", "ok", B, """        let mut index = 0;
        while index < self.bytes.len() {
            match self.bytes[index] {""", """        let mut index = 0;
        while let Some(tag) = self.bytes.get(index) {
            match *tag {"""),
("r6-be-foreach", "ok", B, """    for rule_match in matches {
        encode_match(&mut out, rule_match);
    }
""", """    matches
        .iter()
        .for_each(|rule_match| encode_match(&mut out, rule_match));
"""),
("r6-be-destr", "ok", B, """        let content = self.storage.get_mut(&path.into_static()).unwrap();
        let was_mutated = visit(&mut content.1);

        // Mark the string as mutated (can be used for perf optimizations)
        content.0 = was_mutated;""", """        let (was_mutated, content) = self.storage.get_mut(&path.into_static()).unwrap();
        *was_mutated = visit(content);"""),
("r6-ms-match", "ok", MS, """        if new_status > *self {
            *self = new_status;
        }""", """        if *self < new_status {
            let _ = std::mem::replace(self, new_status);
        }"""),
("r6-ms-pc", "ok", MS, """        if new_status > *self {
            *self = new_status;
        }""", """        match new_status.cmp(self) {
            std::cmp::Ordering::Greater => *self = new_status,
            std::cmp::Ordering::Equal | std::cmp::Ordering::Less => {}
        }"""),
("r6-la-from", "ok", L, """        let mut tags = self.0.clone();
        tags.extend(additional_labels.into_labels());
        Labels(tags)""", """        let Labels(mut tags) = self.clone();
        tags.extend(additional_labels.0);
        Labels(tags)"""),
("r6-la-append", "ok", L, """        let mut tags = self.0.clone();
        tags.extend(additional_labels.into_labels());
        Labels(tags)""", """        let mut tags = Vec::with_capacity(self.0.len() + additional_labels.0.len());
        tags.extend(self.0.iter().cloned());
        tags.append(&mut additional_labels.into_labels());
        Labels(tags)"""),
("r6-la-loop", "ok", L, """        Labels(labels.into_iter().map(Label::from).collect())""", """        let mut list = Vec::new();
        for label in labels {
            list.push(Label::from(label));
        }
        Labels(list)"""),
("r6-lu-letelse", "ok", LU, """        if let Some(checksum) = get_previous_digit(&mut input_iter) {
            let mut sum: u32 = 0;
            let mut is_odd = false;
            while let Some(digit) = get_previous_digit(&mut input_iter) {
                if is_odd {
                    sum += digit
                } else if digit > 4 {
                    sum += digit * 2 - 9;
                } else {
                    sum += digit * 2
                }
                is_odd = !is_odd;
            }
            return (10 - (sum % 10)) % 10 == checksum;
        }
        false""", """        let Some(checksum) = get_previous_digit(&mut input_iter) else {
            return false;
        };
        let mut sum: u32 = 0;
        let mut double = true;
        while let Some(digit) = get_previous_digit(&mut input_iter) {
            sum += match (double, digit) {
                (false, d) => d,
                (true, d) if d >= 5 => 2 * d - 9,
                (true, d) => d + d,
            };
            double = !double;
        }
        (10 - sum % 10) % 10 == checksum"""),
("r6-lu-sum", "ok", LU, """            return (10 - (sum % 10)) % 10 == checksum;""", """            return (sum + checksum) % 10 == 0;"""),
("r6-nh-early", "ok", NH, """            if nb_digit > 10 {
                return false;
            }
            if nb_digit < 9 {
                let multiplier = nhs_multiplier_from_number_idx(nb_digit);
                total_sum += digit * multiplier;
            } else {
                check_digit = digit;
            }
            nb_digit += 1;""", """            if nb_digit >= 10 {
                return false;
            }
            if nb_digit == 9 {
                check_digit = digit;
            } else {
                total_sum += digit * nhs_multiplier_from_number_idx(nb_digit);
            }
            nb_digit += 1;"""),
("r6-nh-final", "ok", NH, """        let mut identifier = 11 - remainder;

        // The identifier is used to compare against the check digit we extracted earlier
        // If the total is 11, we set the identifier to 0
        if identifier == 11 {
            identifier = 0;
        }

        // Finally, we check the identifier against the check digit to see if the NHS number is valid
        if identifier == 10 {
            // If the identifier is 10, we know the NHS number is INVALID
            return false;
        } else if identifier == check_digit {
            // If the identifier is equal to the check digit, we know the NHS number is VALID
            return true;
        }
        false""", """        match 11 - remainder {
            11 => check_digit == 0,
            10 => false,
            identifier => identifier == check_digit,
        }"""),
("r6-nh-final2", "ok", NH, """        let mut identifier = 11 - remainder;

        // The identifier is used to compare against the check digit we extracted earlier
        // If the total is 11, we set the identifier to 0
        if identifier == 11 {
            identifier = 0;
        }
""", """        let identifier = (11 - remainder) % 11;
"""),
("r6-ni-match", "ok", NI, """        let digit = get_next_digit_chars(&mut input_iter, 13);
        if digit.is_none() {
            return false;
        }

        let checksum = get_next_digit_chars(&mut input_iter, 2);
        if checksum.is_none() || get_next_digit(&mut input_iter).is_some() {
            return false;
        }

        (97 - digit.unwrap() % 97) == checksum.unwrap()""", """        let Some(digits) = get_next_digit_chars(&mut input_iter, 13) else {
            return false;
        };
        let Some(checksum) = get_next_digit_chars(&mut input_iter, 2) else {
            return false;
        };
        if get_next_digit(&mut input_iter).is_some() {
            return false;
        }
        checksum + digits % 97 == 97"""),
]

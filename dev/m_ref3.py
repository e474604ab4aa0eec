exec(open("/verif/dev/m_ref2.py").read().split("M = [")[0])
AD, PR = "sds/src/normalization/rust_regex_adapter.rs", "sds/src/parser/regex_parser.rs"
INS = cut(RS, "        self.gc_counter += 1;", "\n    }\n}\n")
GC = cut(RS, "        self.pattern_index.retain(", "        GLOBAL_STATS.set_total_regexes(self.key_map.len());\n    }")
LV = cut(LA, "                while let Some(element) =", "                Ok(Labels::new(&label_list))")
M = [
 ("r-bs-replace", "ok", BS, """        let result = self.rule_used[index];
        self.rule_used[index] = true;
        result""", "        std::mem::replace(&mut self.rule_used[index], true)"),
 ("r-bs-iter", "ok", BS, "        self.rule_used.fill(false);", "        for flag in self.rule_used.iter_mut() {\n            *flag = false;\n        }"),
 ("r-bs-if", "ok", BS, """        let result = self.rule_used[index];
        self.rule_used[index] = true;
        result""", """        if self.rule_used[index] {
            return true;
        }
        self.rule_used[index] = true;
        false"""),
 ("r-bs-slot", "ok", BS, """        let result = self.rule_used[index];
        self.rule_used[index] = true;
        result""", """        let slot = &mut self.rule_used[index];
        let was_used = *slot;
        *slot = true;
        was_used"""),
 ("r-sr-then", "ok", SR, """        let bool_set = if self.add_implicit_index_wildcards {
            Some(BoolSet::new(self.num_rules))
        } else {
            None
        };""", """        let bool_set = self
            .add_implicit_index_wildcards
            .then(|| BoolSet::new(self.num_rules));"""),
 ("r-sr-new-order", "ok", SR, """                    for path in exclude {
                        tree.insert_rule_removal(path, rule_index);
                    }

                    for path in include {
                        tree.insert_rule_add(path, rule_index);
                    }""", """                    include
                        .iter()
                        .for_each(|path| tree.insert_rule_add(path, rule_index));
                    exclude
                        .iter()
                        .for_each(|path| tree.insert_rule_removal(path, rule_index));"""),
 ("r-sr-excl-any", "ok", SR, cut(SR, "        for include_node in self.tree_nodes {\n            for change in &include_node.rule_tree.rule_changes {\n                match change {\n                    RuleChange::Add(_)", "    }\n}\n\npub trait ContentVisitor"), """        self.tree_nodes
            .iter()
            .any(|node| node.rule_tree.rule_changes.contains(&RuleChange::Remove(rule_index)))
"""),
 ("r-sr-excl-matches", "ok", SR, cut(SR, "        for include_node in self.tree_nodes {\n            for change in &include_node.rule_tree.rule_changes {\n                match change {\n                    RuleChange::Add(_)", "    }\n}\n\npub trait ContentVisitor"), """        for node in self.tree_nodes.iter() {
            let removed = node
                .rule_tree
                .rule_changes
                .iter()
                .any(|change| matches!(change, RuleChange::Remove(i) if *i == rule_index));
            if removed {
                return true;
            }
        }
        false
"""),
 ("r-sr-push-let", "ok", SR, cut(SR, "        for tree_index in active_trees_range {", "        // Sanitize the segment and push it."), """        let is_index = segment.is_index();
        for tree_index in active_trees_range {
            let active_tree = &self.tree_nodes[tree_index];
            let rule_tree = active_tree.rule_tree;
            let skip_lookup = active_tree.index_wildcard_match && is_index;
            if !skip_lookup {
                if let Some(child) = rule_tree.children.get(&segment) {
                    self.tree_nodes.push(ActiveRuleTree {
                        rule_tree: child,
                        index_wildcard_match: false,
                    });
                }
            }
            if is_index && self.add_implicit_index_wildcards {
                self.tree_nodes.push(ActiveRuleTree {
                    rule_tree,
                    index_wildcard_match: true,
                });
            }
        }

"""),
 ("r-sr-pop-trunc", "ok", SR, """        for _ in 0..node_counter.active_tree_count {
            // The rules from the last node are no longer active, so remove them.
            let _popped = self.tree_nodes.pop();
        }""", """        let remaining = self.tree_nodes.len() - node_counter.active_tree_count;
        self.tree_nodes.truncate(remaining);"""),
 ("r-sr-pop-order", "ok", SR, """        // Pop the sanitized segment
        self.sanitized_segments_until_node.pop();
        self.path.segments.pop();""", """        self.path.segments.pop();
        let _ = self.sanitized_segments_until_node.pop();"""),
 ("r-sr-visit-let", "ok", SR, """        if let Some(bool_set) = &mut self.bool_set {
            bool_set.reset();
        }
        VisitStringResult {""", """        if let Some(bool_set) = self.bool_set.as_mut() {
            bool_set.reset();
        }
        VisitStringResult {"""),
 ("r-sr-vri", "ok", SR, cut(SR, "        for include_node in self.tree_nodes {\n            if include_node.index_wildcard_match", "    }\n}\n\n#[derive(Clone, Copy, PartialEq, Debug)]"), """        let nodes = self.tree_nodes.iter().filter(|node| !node.index_wildcard_match);
        for node in nodes {
            for change in node.rule_tree.rule_changes.iter() {
                let RuleChange::Add(rule_index) = *change else {
                    continue;
                };
                let already_visited = match self.used_rule_set.as_mut() {
                    Some(used) => used.get_and_set(rule_index),
                    None => false,
                };
                if !already_visited {
                    visit(rule_index);
                }
            }
        }
"""),
 ("r-sr-ins-match", "ok", SR, """        if let Some((first, remaining)) = path.split_first() {
            let child_tree = self
                .children
                .entry(first.clone())
                .or_insert_with(RuleTree::new);
            child_tree.insert_rule_inner(remaining, rule_change);
        } else {
            // remove any recursive children, since they will be duplicated
            self.recursively_remove(rule_change);
            self.rule_changes.push(rule_change);
        }""", """        match path {
            [] => {
                self.recursively_remove(rule_change);
                self.rule_changes.push(rule_change);
            }
            [first, remaining @ ..] => self
                .children
                .entry(first.clone())
                .or_insert_with(RuleTree::new)
                .insert_rule_inner(remaining, rule_change),
        }"""),
 ("r-sr-ins-any", "ok", SR, "        if self.rule_changes.contains(&rule_change) {\n            return;", "        if self.rule_changes.iter().any(|change| *change == rule_change) {\n            return;"),
 ("r-st-let", "ok", ST, """        let prev_value = self
            .total_scanners_count
            .fetch_add(delta, Ordering::Relaxed);
        self.total_scanners.set((prev_value + delta) as f64);""", """        let total = self.total_scanners_count.fetch_add(delta, Ordering::Relaxed) + delta;
        self.total_scanners.set(total as f64);"""),
 ("r-st-shared", "ok", ST, """        let prev_value = self
            .total_regex_cache_size_count
            .fetch_add(delta, Ordering::Relaxed);
        self.total_regex_cache_size.set((prev_value + delta) as f64);""", "        add_and_publish(&self.total_regex_cache_size_count, &self.total_regex_cache_size, delta);", ST, "impl Stats {", """fn add_and_publish(count: &AtomicI64, gauge: &Gauge, delta: i64) {
    let previous = count.fetch_add(delta, Ordering::Relaxed);
    gauge.set((previous + delta) as f64);
}

impl Stats {"""),
 ("r-st-sub", "ok", ST, """        self.update_total_scanners(-1);""", """        let prev_value = self.total_scanners_count.fetch_sub(1, Ordering::Relaxed);
        self.total_scanners.set((prev_value - 1) as f64);"""),
 ("r-la-fold", "ok", LA, """        let mut tags = self.0.clone();
        tags.extend(additional_labels.into_labels());
        Labels(tags)""", """        let additional = additional_labels.0;
        let mut tags = Vec::with_capacity(self.0.len() + additional.len());
        tags.extend_from_slice(&self.0);
        tags.extend(additional);
        Labels(tags)"""),
 ("r-la-concat", "ok", LA, """        let mut tags = self.0.clone();
        tags.extend(additional_labels.into_labels());
        Labels(tags)""", """        Labels([self.0.as_slice(), additional_labels.0.as_slice()].concat())"""),
 ("r-la-ser-ref", "ok", LA, "for label in self.clone().into_labels() {", "for label in self.0.iter() {"),
 ("r-la-ser-arr", "ok", LA, "            seq.serialize_element(&vec![label.key(), label.value()])?;", "            let pair = [label.key(), label.value()];\n            seq.serialize_element(&pair[..])?;"),
 ("r-la-de-match", "ok", LA, LV, """                while let Some(element) = seq.next_element::<Vec<String>>()? {
                    match element.as_slice() {
                        [key, value] => label_list.push((key.clone(), value.clone())),
                        [] | [_] => {
                            return Err(Error::custom(format!(
                                "list `{:?}` contains a single element, two elements (key and value) are required",
                                element
                            )))
                        }
                        _ => {
                            return Err(Error::custom(format!(
                                "list `{:?}` contains more than two elements, only two elements (key and value) are allowed",
                                element
                            )))
                        }
                    }
                }

"""),
 ("r-la-de-idx", "ok", LA, """                    label_list.push((
                        element.first().unwrap().clone(),
                        element.last().unwrap().clone(),
                    ))""", """                    label_list.push((element[0].clone(), element[1].clone()));"""),
 ("r-la-de-iter", "ok", LA, """                    label_list.push((
                        element.first().unwrap().clone(),
                        element.last().unwrap().clone(),
                    ))""", """                    let mut parts = element.into_iter();
                    let key = parts.next().unwrap();
                    let value = parts.next().unwrap();
                    label_list.push((key, value));"""),
 ("r-va-q", "ok", VA, "    validate_and_create_regex(input).map(|_| ())", "    let _regex = validate_and_create_regex(input)?;\n    Ok(())"),
 ("r-va-drop", "ok", VA, "    validate_and_create_regex(input).map(|_| ())", "    validate_and_create_regex(input).map(drop)"),
 ("r-va-within", "ok", VA, """    match build_regex(converted_pattern, complexity_limit) {
        Ok(_) => Ok(true),
        Err(err) => match err {
            RegexValidationError::TooComplex => Ok(false),
            _ => Err(err),
        },
    }""", """    match build_regex(converted_pattern, complexity_limit) {
        Ok(_) => Ok(true),
        Err(RegexValidationError::TooComplex) => Ok(false),
        Err(err) => Err(err),
    }"""),
 ("r-va-empty", "ok", VA, """    if regex.is_match("") || can_match_empty_string(&converted_pattern) {
        return Err(RegexValidationError::MatchesEmptyString);
    }
    Ok(regex)""", """    let matches_empty = regex.is_match("") || can_match_empty_string(&converted_pattern);
    match matches_empty {
        true => Err(RegexValidationError::MatchesEmptyString),
        false => Ok(regex),
    }"""),
 ("r-va-canmatch", "ok", VA, """    regex_automata::util::syntax::parse(converted_pattern)
        .map_or(true, |hir| hir.properties().minimum_len() == Some(0))""", """    match regex_automata::util::syntax::parse(converted_pattern) {
        Ok(hir) => matches!(hir.properties().minimum_len(), Some(0)),
        Err(_) => true,
    }"""),
 ("r-va-maperr", "ok", VA, """        .map_err(|regex_err| {
            if regex_err.size_limit().is_some() {
                RegexValidationError::TooComplex
            } else {
                // Internally the `regex` crate does this conversion, so we do it too
                RegexValidationError::InvalidSyntax
            }
        })""", """        .map_err(|regex_err| match regex_err.size_limit() {
            Some(_) => RegexValidationError::TooComplex,
            None => RegexValidationError::InvalidSyntax,
        })"""),
 ("r-rs-gc", "ok", RS, GC, """        let key_map = &mut self.key_map;
        self.pattern_index.retain(|_, cache_key| {
            let is_alive = key_map[*cache_key].regex.strong_count() > 0;
            if !is_alive {
                if let Some(old_regex) = key_map.remove(*cache_key) {
                    GLOBAL_STATS.add_total_regex_cache(-(old_regex.cache_size as i64));
                }
            }
            is_alive
        });
"""),
 ("r-rs-get", "ok", RS, cut(RS, "        self.pattern_index.get(pattern).and_then(|cache_key| {", "    }\n\n    /// Insert"  if "    }\n\n    /// Insert" in R(RS) else "    }\n\n    pub fn insert" if "    }\n\n    pub fn insert" in R(RS) else "    }\n\n    ///"), """        let cache_key = *self.pattern_index.get(pattern)?;
        let regex = self.key_map.get(cache_key)?.regex.upgrade()?;
        Some(SharedRegex { regex, cache_key })
"""),
 ("r-rs-ins-early", "ok", RS, """        if let Some(existing_regex) = self.get(pattern) {
            existing_regex
        } else {
            let shared_regex""", """        let existing = self.get(pattern);
        if let Some(existing_regex) = existing {
            return existing_regex;
        }
        {
            let shared_regex"""),
 ("r-rs-memo", "ok", RS, """    {
        let regex_store = store.lock().unwrap();
        if let Some(exiting_regex) = regex_store.get(pattern) {
            return Ok(exiting_regex);
        }
    }
""", """    let existing = store.lock().unwrap().get(pattern);
    if let Some(existing_regex) = existing {
        return Ok(existing_regex);
    }
"""),
 ("r-rs-memo-tail", "ok", RS, """    let mut regex_store = store.lock().unwrap();
    Ok(regex_store.insert(pattern, regex))""", """    let shared = store.lock().unwrap().insert(pattern, regex);
    Ok(shared)"""),
 ("r-be-readu32", "ok", BE, """                    let segment_index =
                        u32::from_be_bytes(self.bytes[index + 1..index + 5].try_into().unwrap())
                            as usize;
                    index += 5;
                    visitor.push_segment(PathSegment::Index(segment_index));""", """                    let segment_index = read_u32(&self.bytes, index + 1);
                    index += 5;
                    visitor.push_segment(PathSegment::Index(segment_index));""", BE, "/// Encode a result to a byte array", """fn read_u32(bytes: &[u8], start: usize) -> usize {
    let raw: [u8; 4] = bytes[start..start + 4].try_into().unwrap();
    u32::from_be_bytes(raw) as usize
}

/// Encode a result to a byte array"""),
 ("r-be-decode", "ok", BE, """                    let field = if self.strings_are_valid_utf8 {
                        Cow::from(unsafe {
                            std::str::from_utf8_unchecked(&self.bytes[index..(index + len)])
                        })
                    } else {
                        String::from_utf8_lossy(&self.bytes[index..(index + len)])
                    };
""", """                    let field = decode(&self.bytes[index..index + len], self.strings_are_valid_utf8);
""", BE, "/// Encode a result to a byte array", """fn decode(bytes: &[u8], valid_utf8: bool) -> Cow<'_, str> {
    if valid_utf8 {
        Cow::Borrowed(unsafe { std::str::from_utf8_unchecked(bytes) })
    } else {
        String::from_utf8_lossy(bytes)
    }
}

/// Encode a result to a byte array"""),
 ("r-be-entry", "ok", BE, """                    if visit_result.might_mutate && !self.storage.contains_key(&visit_result.path) {
                        self.storage.insert(
                            visit_result.path.into_static(),
                            (false, content.to_string()),
                        );
                    }""", """                    if visit_result.might_mutate {
                        let path = visit_result.path.into_static();
                        if self.storage.get(&path).is_none() {
                            self.storage.insert(path, (false, content.into_owned()));
                        }
                    }"""),
 ("r-be-filter", "ok", BE, """    for (path, (mutated, content)) in storage {
        if *mutated {
            encode_mutation(&mut out, path, content);
        }
    }""", """    for (path, (_, content)) in storage.iter().filter(|(_, (mutated, _))| *mutated) {
        encode_mutation(&mut out, path, content);
    }"""),
 ("r-be-u32", "ok", BE, """    out.extend((rule_match.start_index as u32).to_be_bytes());
    out.extend((rule_match.end_index_exclusive as u32).to_be_bytes());
    out.extend((rule_match.shift_offset as u32).to_be_bytes());""", """    for value in [
        rule_match.start_index as u32,
        rule_match.end_index_exclusive as u32,
        rule_match.shift_offset as u32,
    ] {
        out.extend(value.to_be_bytes());
    }"""),
 ("r-be-u32fn", "ok", BE, """    out.extend((rule_match.start_index as u32).to_be_bytes());
    out.extend((rule_match.end_index_exclusive as u32).to_be_bytes());""", """    encode_u32(out, rule_match.start_index);
    encode_u32(out, rule_match.end_index_exclusive);""", BE, "fn encode_path(", """fn encode_u32(out: &mut Vec<u8>, value: usize) {
    out.extend_from_slice(&(value as u32).to_be_bytes());
}

fn encode_path("""),
 ("r-be-while", "ok", BE, "        while index < self.bytes.len() {\n            match self.bytes[index] {", "        while let Some(tag) = self.bytes.get(index) {\n            match *tag {"),
 ("r-be-tag", "ok", BE, "            match self.bytes[index] {", "            let tag = self.bytes[index];\n            match tag {"),
 ("r-ad-items", "ok", AD, """    let mut output: Vec<RegexClassSetItem> = vec![];

    for item in items {
        match item {""", """    let mut output: Vec<RegexClassSetItem> = Vec::with_capacity(items.len());

    for item in items.iter() {
        match item {"""),
 ("r-ad-quant", "ok", AD, """                    SdsQuantifierKind::RangeMinMax(min, max) => {
                        if min > QUANTIFIER_LIMIT || max > QUANTIFIER_LIMIT {
                            return Err(ParseError::ExceededQuantifierLimit);
                        }
                        RegexRepetitionKind::Range(RepetitionRange::Bounded(min, max))
                    }""", """                    SdsQuantifierKind::RangeMinMax(min, max) => {
                        check_quantifier(min)?;
                        check_quantifier(max)?;
                        RegexRepetitionKind::Range(RepetitionRange::Bounded(min, max))
                    }""", AD, "fn horizontal_whitespace(", """fn check_quantifier(value: u32) -> Result<(), ParseError> {
    if value <= QUANTIFIER_LIMIT {
        Ok(())
    } else {
        Err(ParseError::ExceededQuantifierLimit)
    }
}

fn horizontal_whitespace("""),
 ("r-ad-wb", "ok", AD, """                    ast: Box::new(RegexAst::Assertion(RegexAssertion {
                        span: span(),
                        kind: RegexAssertionKind::NotWordBoundary,
                    })),
                })""", """                    ast: Box::new(assertion(RegexAssertionKind::NotWordBoundary)),
                })""", AD, "fn horizontal_whitespace(", """fn assertion(kind: RegexAssertionKind) -> RegexAst {
    RegexAst::Assertion(RegexAssertion { span: span(), kind })
}

fn horizontal_whitespace("""),
 ("r-ad-conv", "ok", AD, """    let sds_ast = parse_regex_pattern(pattern)?;
    let regex_ast = convert_ast(&sds_ast)?;
    Ok(regex_ast.to_string())""", """    parse_regex_pattern(pattern)
        .and_then(|sds_ast| convert_ast(&sds_ast))
        .map(|regex_ast| regex_ast.to_string())"""),
 ("r-ad-concat-loop", "ok", AD, """        SdsAst::Concat(list) => RegexAst::Concat(RegexConcat {
            span: span(),
            asts: list.iter().map(convert_ast).collect::<Result<_, _>>()?,
        }),""", """        SdsAst::Concat(list) => {
            let mut asts = Vec::with_capacity(list.len());
            for child in list {
                asts.push(convert_ast(child)?);
            }
            RegexAst::Concat(RegexConcat { span: span(), asts })
        }"""),
]

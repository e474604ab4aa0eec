S = "sds/src/scoped_ruleset/mod.rs"
K = "sds/src/proximity_keywords/mod.rs"
X = "sds/src/proximity_keywords/excluded_keywords.rs"
T = "sds/src/stats.rs"
V = "sds/src/validation.rs"
M = [
("r5-inner-direct", "ok", S, """                        tree.insert_rule_removal(path, rule_index);
                    }

                    for path in include {
                        tree.insert_rule_add(path, rule_index);""", """                        tree.insert_rule_inner(&path.segments, RuleChange::Remove(rule_index));
                    }

                    for path in include {
                        tree.insert_rule_inner(&path.segments, RuleChange::Add(rule_index));""",
 S, """                    tree.insert_rule_add(&Path::root(), rule_index);
                    for path in paths {
                        tree.insert_rule_removal(path, rule_index);""", """                    tree.insert_rule_inner(&[], RuleChange::Add(rule_index));
                    for path in paths {
                        tree.insert_rule_inner(&path.segments, RuleChange::Remove(rule_index));""",
 S, """    pub fn insert_rule_add(&mut self, path: &Path<'static>, rule_index: usize) {
        self.insert_rule_inner(&path.segments, RuleChange::Add(rule_index));
    }

    pub fn insert_rule_removal(&mut self, path: &Path<'static>, rule_index: usize) {
        self.insert_rule_inner(&path.segments, RuleChange::Remove(rule_index));
    }

""", ""),
("r5-insert-loop", "ok", S, """        if self.rule_changes.contains(&rule_change) {
            return;
        }
        if let Some((first, remaining)) = path.split_first() {
            let child_tree = self
                .children
                .entry(first.clone())
                .or_insert_with(RuleTree::new);
            child_tree.insert_rule_inner(remaining, rule_change);
        } else {
            // remove any recursive children, since they will be duplicated
            self.recursively_remove(rule_change);
            self.rule_changes.push(rule_change);
        }
""", """        let mut node = self;
        for segment in path {
            if node.rule_changes.contains(&rule_change) {
                return;
            }
            node = node.children.entry(segment.clone()).or_insert_with(RuleTree::new);
        }
        if node.rule_changes.contains(&rule_change) {
            return;
        }
        node.recursively_remove(rule_change);
        node.rule_changes.push(rule_change);
"""),
("r5-pop-truncate", "ok", S, """        for _ in 0..node_counter.active_tree_count {
            // The rules from the last node are no longer active, so remove them.
            let _popped = self.tree_nodes.pop();
        }
""", """        let keep = self.tree_nodes.len() - node_counter.active_tree_count;
        self.tree_nodes.truncate(keep);
"""),
("r5-pop-truncate-sat", "ok", S, """        for _ in 0..node_counter.active_tree_count {
            // The rules from the last node are no longer active, so remove them.
            let _popped = self.tree_nodes.pop();
        }
""", """        let keep = self.tree_nodes.len().saturating_sub(node_counter.active_tree_count);
        self.tree_nodes.truncate(keep);
"""),
("r5-range-helper", "ok", S, """        let num_active_trees = self.active_node_counter.last().unwrap().active_tree_count;
        let tree_nodes_len = self.tree_nodes.len();
        let active_trees_range = tree_nodes_len - num_active_trees..tree_nodes_len;
""", """        let tree_nodes_len = self.tree_nodes.len();
        let active_trees_range = self.active_trees_range();
""", S, """impl<'path, C> EventVisitor<'path> for ScopedRuledSetEventVisitor<'path, C>""", """impl<'a, C> ScopedRuledSetEventVisitor<'a, C> {
    fn active_trees_range(&self) -> std::ops::Range<usize> {
        let len = self.tree_nodes.len();
        let active = self.active_node_counter.last().unwrap().active_tree_count;
        len - active..len
    }
}

impl<'path, C> EventVisitor<'path> for ScopedRuledSetEventVisitor<'path, C>"""),
("r5-visit-chain", "ok", S, """        for include_node in self.tree_nodes {
            if include_node.index_wildcard_match {
                // This is guaranteed to be a duplicated node. Skip it
                continue;
            }
            for change in &include_node.rule_tree.rule_changes {
                match change {
                    RuleChange::Add(rule_index) => {
                        if let Some(used_rule_set) = &mut self.used_rule_set {
                            if !used_rule_set.get_and_set(*rule_index) {
                                (visit)(*rule_index);
                            }
                        } else {
                            (visit)(*rule_index);
                        }
                    }
                    RuleChange::Remove(_) => { /* Nothing to do here */ }
                }
            }
        }
""", """        let added = self
            .tree_nodes
            .iter()
            .filter(|node| !node.index_wildcard_match)
            .flat_map(|node| node.rule_tree.rule_changes.iter())
            .filter_map(|change| match change {
                RuleChange::Add(rule_index) => Some(*rule_index),
                RuleChange::Remove(_) => None,
            });
        for rule_index in added {
            let already_used = match &mut self.used_rule_set {
                Some(set) => set.get_and_set(rule_index),
                None => false,
            };
            if !already_used {
                visit(rule_index);
            }
        }
"""),
("r5-push-child-helper", "ok", S, """            if !self.tree_nodes[tree_index].index_wildcard_match || !segment.is_index() {
                if let Some(child) = self.tree_nodes[tree_index].rule_tree.children.get(&segment) {
                    self.tree_nodes.push(ActiveRuleTree {
                        rule_tree: child,
                        index_wildcard_match: false,
                    });
                }
            }
""", """            let current = &self.tree_nodes[tree_index];
            let skip = current.index_wildcard_match && segment.is_index();
            let child = if skip { None } else { current.rule_tree.children.get(&segment) };
            if let Some(rule_tree) = child {
                self.tree_nodes.push(ActiveRuleTree { rule_tree, index_wildcard_match: false });
            }
"""),
("r5-dead-removed", "ok", S, """        let true_positive_rules_count = if false {
            let mut total_len: usize = self
                .sanitized_segments_until_node
                .iter()
                .flatten()
                .map(|x| x.len() + 1)
                .sum();

            // This will remove 1 to the total_len only if the result is >= 0
            total_len = total_len.saturating_sub(1);

            let mut current_sanitized_path = String::with_capacity(total_len);
            for (i, segment) in self
                .sanitized_segments_until_node
                .iter()
                .flatten()
                .enumerate()
            {
                if i != 0 {
                    current_sanitized_path.push(UNIFIED_LINK_CHAR);
                }
                current_sanitized_path.push_str(segment.as_ref());
            }

            self.content_visitor
                .find_true_positive_rules_from_current_path(
                    current_sanitized_path.as_str(),
                    &mut self.true_positive_rule_idx,
                )
        } else {
            0
        };
""", """        let true_positive_rules_count = 0;
""", S, "use crate::proximity_keywords::UNIFIED_LINK_CHAR;\n", ""),
("r5-stats-inline", "ok", T, """        self.update_total_scanners(1);""", """        let prev_value = self.total_scanners_count.fetch_add(1, Ordering::Relaxed);
        self.total_scanners.set((prev_value + 1) as f64);""", T, """        self.update_total_scanners(-1);""", """        let prev_value = self.total_scanners_count.fetch_sub(1, Ordering::Relaxed);
        self.total_scanners.set((prev_value - 1) as f64);""", T, """    fn update_total_scanners(&self, delta: i64) {
        let prev_value = self
            .total_scanners_count
            .fetch_add(delta, Ordering::Relaxed);
        self.total_scanners.set((prev_value + delta) as f64);
    }

""", ""),
("r5-stats-shared", "ok", T, """        let prev_value = self
            .total_regex_cache_size_count
            .fetch_add(delta, Ordering::Relaxed);
        self.total_regex_cache_size.set((prev_value + delta) as f64);
""", """        Self::bump(&self.total_regex_cache_size_count, &self.total_regex_cache_size, delta);
    }

    fn bump(count: &AtomicI64, gauge: &Gauge, delta: i64) {
        let now = count.fetch_add(delta, Ordering::Relaxed) + delta;
        gauge.set(now as f64);
"""),
("r5-empty-inline", "ok", V, """    if regex.is_match("") || can_match_empty_string(&converted_pattern) {
        return Err(RegexValidationError::MatchesEmptyString);
    }
    Ok(regex)""", """    let matches_empty = regex.is_match("")
        || regex_automata::util::syntax::parse(&converted_pattern)
            .map_or(true, |hir| hir.properties().minimum_len() == Some(0));
    if matches_empty {
        Err(RegexValidationError::MatchesEmptyString)
    } else {
        Ok(regex)
    }""", V, """fn can_match_empty_string(converted_pattern: &str) -> bool {
    regex_automata::util::syntax::parse(converted_pattern)
        .map_or(true, |hir| hir.properties().minimum_len() == Some(0))
}
""", ""),
("r5-within-inline", "ok", V, """        if is_regex_within_complexity_limit(&converted_pattern, mid)? {
            high = mid;
        } else {
            low = mid + 1;
        }""", """        match build_regex(&converted_pattern, mid) {
            Ok(_) => high = mid,
            Err(RegexValidationError::TooComplex) => low = mid + 1,
            Err(err) => return Err(err),
        }"""),
("r5-within-match", "ok", V, """        Ok(_) => Ok(true),
        Err(err) => match err {
            RegexValidationError::TooComplex => Ok(false),
            _ => Err(err),
        },""", """        Ok(_) => Ok(true),
        Err(RegexValidationError::TooComplex) => Ok(false),
        Err(err) => Err(err),"""),
("r5-ast-loop", "ok", K, """    let (content_patterns, path_patterns) = keywords
        .iter()
        .map(|keyword| {
            if keyword.chars().count() > look_ahead_character_count {
                return Err(KeywordTooLong(look_ahead_character_count));
            }

            let trimmed_keyword = keyword.trim().replace(remove_chars, "");
            if trimmed_keyword.is_empty() {
                return Err(EmptyKeyword);
            }
            Ok((
                calculate_keyword_content_pattern(&trimmed_keyword),
                calculate_keyword_path_pattern(&trimmed_keyword),
            ))
        })
        .collect::<Result<Vec<_>, _>>()?
        .iter()
        .cloned()
        .unzip();
""", """    let mut content_patterns = Vec::with_capacity(keywords.len());
    let mut path_patterns = Vec::with_capacity(keywords.len());
    for keyword in keywords {
        if keyword.chars().count() > look_ahead_character_count {
            return Err(KeywordTooLong(look_ahead_character_count));
        }
        let trimmed_keyword = keyword.trim().replace(remove_chars, "");
        if trimmed_keyword.is_empty() {
            return Err(EmptyKeyword);
        }
        content_patterns.push(calculate_keyword_content_pattern(&trimmed_keyword));
        path_patterns.push(calculate_keyword_path_pattern(&trimmed_keyword));
    }
"""),
("r5-ast-helper", "ok", K, """            if keyword.chars().count() > look_ahead_character_count {
                return Err(KeywordTooLong(look_ahead_character_count));
            }

            let trimmed_keyword = keyword.trim().replace(remove_chars, "");
            if trimmed_keyword.is_empty() {
                return Err(EmptyKeyword);
            }
            Ok((""", """            let trimmed_keyword = checked_keyword(keyword, look_ahead_character_count, remove_chars)?;
            Ok((""", K, """fn compile_keywords_to_ast(""", """fn checked_keyword(
    keyword: &str,
    limit: usize,
    remove_chars: &[char],
) -> Result<String, ProximityKeywordsValidationError> {
    if keyword.chars().count() > limit {
        return Err(KeywordTooLong(limit));
    }
    let trimmed = keyword.trim().replace(remove_chars, "");
    if trimmed.is_empty() {
        Err(EmptyKeyword)
    } else {
        Ok(trimmed)
    }
}

fn compile_keywords_to_ast("""),
("r5-prefix-map", "ok", K, """    match char_indices.nth_back(look_ahead_char_count - 1) {
        Some((i, _)) => PrefixStart {
            start: i,
            used_all_chars: true,
        },
        None => PrefixStart {
            start: 0,
            used_all_chars: false,
        },
    }""", """    let found = char_indices.nth_back(look_ahead_char_count - 1);
    PrefixStart {
        start: found.map_or(0, |(i, _)| i),
        used_all_chars: found.is_some(),
    }"""),
("r5-prefix-rev", "ok", K, """    match char_indices.nth_back(look_ahead_char_count - 1) {
        Some((i, _)) =>""", """    match char_indices.rev().nth(look_ahead_char_count - 1) {
        Some((i, _)) =>""", K, "    let mut char_indices = prefix.char_indices();", "    let char_indices = prefix.char_indices();"),
("r5-within-skip", "ok", K, """    content[prefix_start..]
        .char_indices()
        .nth(prefix_size)
        .map_or(true, |(i, _)| prefix_start + i >= target)""", """    match content[prefix_start..].char_indices().nth(prefix_size) {
        Some((offset, _)) => prefix_start + offset >= target,
        None => true,
    }"""),
("r5-next-char", "ok", K, """    content[start..]
        .char_indices()
        .nth(1)
        .map(|(i, _c)| start + i)""", """    let mut chars = content[start..].char_indices();
    chars.next()?;
    let (i, _) = chars.next()?;
    Some(start + i)"""),
("r5-prev-char", "ok", K, """    content[..start].char_indices().next_back().map(|(i, _c)| i)""", """    content[..start].char_indices().last().map(|(i, _)| i)"""),
("r5-content-extend", "ok", K, """    for c in keyword.chars() {
        keyword_pattern.push(Ast::Literal(literal_ast(c)))
    }

    if should_push_word_boundary(keyword.chars().next_back().unwrap()) {""", """    keyword_pattern.extend(keyword.chars().map(|c| Ast::Literal(literal_ast(c))));

    if should_push_word_boundary(keyword.chars().last().unwrap()) {"""),
("r5-alnum", "ok", K, "c.is_ascii_alphabetic() || c.is_ascii_digit()", "c.is_ascii_alphanumeric()"),
("r5-excl-inline", "ok", X, """        let is_false_positive = contains_excluded_keyword_match(
            content,
            match_start,
            self.look_ahead_character_count,
            &self.keywords_pattern,
        );
        if is_false_positive {
            self.false_positive_counter.increment(1);
        }
        is_false_positive""", """        if !contains_excluded_keyword_match(
            content,
            match_start,
            self.look_ahead_character_count,
            &self.keywords_pattern,
        ) {
            return false;
        }
        self.false_positive_counter.increment(1);
        true"""),
("r5-compile-helper", "ok", K, """    if let Some((content_regex, path_regex)) = compile_keywords(
        config.included_keywords.clone(),
        config.look_ahead_character_count,
        &[],
    )? {
        included_keywords = Some(CompiledIncludedProximityKeywords {
            look_ahead_character_count: config.look_ahead_character_count,
            keywords_pattern: ProximityKeywordsRegex {
                content_regex,
                path_regex,
            },
        });
    }
""", """    if let Some(keywords_pattern) = compile_pattern(&config.included_keywords, config.look_ahead_character_count, &[])? {
        included_keywords = Some(CompiledIncludedProximityKeywords {
            look_ahead_character_count: config.look_ahead_character_count,
            keywords_pattern,
        });
    }
""", K, """    if let Some((content_regex, path_regex)) = compile_keywords(
        config.excluded_keywords.clone(),
        config.look_ahead_character_count,
        EXCLUDED_KEYWORDS_REMOVED_CHARS,
    )? {
        excluded_keywords = Some(CompiledExcludedProximityKeywords {
            look_ahead_character_count: config.look_ahead_character_count,
            keywords_pattern: ProximityKeywordsRegex {
                content_regex,
                path_regex,
            },
""", """    if let Some(keywords_pattern) = compile_pattern(&config.excluded_keywords, config.look_ahead_character_count, EXCLUDED_KEYWORDS_REMOVED_CHARS)? {
        excluded_keywords = Some(CompiledExcludedProximityKeywords {
            look_ahead_character_count: config.look_ahead_character_count,
            keywords_pattern,
""", K, "pub fn contains_keyword_in_path(", """fn compile_pattern(
    keywords: &[String],
    look_ahead_character_count: usize,
    remove_chars: &[char],
) -> Result<Option<ProximityKeywordsRegex>, ProximityKeywordsValidationError> {
    Ok(compile_keywords(keywords.to_vec(), look_ahead_character_count, remove_chars)?
        .map(|(content_regex, path_regex)| ProximityKeywordsRegex { content_regex, path_regex }))
}

pub fn contains_keyword_in_path("""),
("r5-look-contains", "ok", K, """    if config.look_ahead_character_count == 0
        || config.look_ahead_character_count > MAX_LOOK_AHEAD_CHARACTER_COUNT
    {
        return""", """    if !(1..=MAX_LOOK_AHEAD_CHARACTER_COUNT).contains(&config.look_ahead_character_count) {
        return"""),
("r5-key-concat", "ok", K, 'format!("keywords:{pattern}")', '["keywords:", pattern].concat()'),
("r5-key-add", "ok", K, 'format!("keywords:{pattern}")', '"keywords:".to_string() + pattern'),
("r5-removal-for", "ok", S, """        self.rule_changes.retain(|x| *x != rule_change);
        for child_tree in self.children.values_mut() {
            child_tree.recursively_remove(rule_change);
        }""", """        self.children
            .values_mut()
            .for_each(|child| child.recursively_remove(rule_change));
        self.rule_changes.retain(|x| x != &rule_change);"""),
]

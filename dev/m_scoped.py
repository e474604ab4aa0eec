S = "sds/src/scoped_ruleset/mod.rs"
M = [
 ("new-swap-order-ok", "ok", S, """                    for path in exclude {
                        tree.insert_rule_removal(path, rule_index);
                    }

                    for path in include {
                        tree.insert_rule_add(path, rule_index);
                    }
""", """                    for path in include.iter() {
                        tree.insert_rule_add(path, rule_index);
                    }
                    exclude.iter().for_each(|p| tree.insert_rule_removal(p, rule_index));
"""),
 ("new-helper-ok", "ok", S, """        for (rule_index, scope) in rules_scopes.iter().enumerate() {
            match scope {""", """        let mut rule_index = 0;
        while rule_index < rules_scopes.len() {
            let scope = &rules_scopes[rule_index];
            match scope {""", S, """                        tree.insert_rule_removal(path, rule_index);
                    }
                }
            }
        }""", """                        tree.insert_rule_removal(path, rule_index);
                    }
                }
            }
            rule_index += 1;
        }"""),
 ("new-root-skip", "C10", S, """                    tree.insert_rule_add(&Path::root(), rule_index);
                    for path""", """                    if paths.len() < 64 { tree.insert_rule_add(&Path::root(), rule_index); }
                    for path"""),
 ("new-take", "C10", S, "for path in exclude {", "for path in exclude.iter().take(32) {"),
 ("new-skip-empty", "C10", S, "                    for path in include {\n", "                    for path in include {\n                        if path.segments.is_empty() { continue; }\n"),
 ("ins-eq", "C10", S, "self.rule_changes.retain(|x| *x != rule_change);", "self.rule_changes.retain(|x| match (x, &rule_change) { (RuleChange::Add(a), RuleChange::Remove(b)) => a != b, _ => *x != rule_change });"),
 ("ins-retain-all", "C10", S, "self.rule_changes.retain(|x| *x != rule_change);", "self.rule_changes.clear();"),
 ("ins-contains-any", "C10", S, "if self.rule_changes.contains(&rule_change) {", "if self.rule_changes.contains(&rule_change) || self.rule_changes.len() > 4096 {"),
 ("ins-contains-loop-ok", "ok", S, "if self.rule_changes.contains(&rule_change) {", "if self.rule_changes.iter().any(|c| *c == rule_change) {"),
 ("ins-match-ok", "ok", S, """        if let Some((first, remaining)) = path.split_first() {
            let child_tree = self
                .children
                .entry(first.clone())
                .or_insert_with(RuleTree::new);
            child_tree.insert_rule_inner(remaining, rule_change);
        } else {
            // remove any recursive children, since they will be duplicated
            self.recursively_remove(rule_change);
            self.rule_changes.push(rule_change);
        }""", """        if path.is_empty() {
            self.recursively_remove(rule_change);
            self.rule_changes.push(rule_change);
            return;
        }
        let child_tree = self.children.entry(path[0].clone()).or_insert_with(RuleTree::new);
        child_tree.insert_rule_inner(&path[1..], rule_change);"""),
 ("push-wild-field", "C12", S, "if !self.tree_nodes[tree_index].index_wildcard_match || !segment.is_index() {", "if !self.tree_nodes[tree_index].index_wildcard_match {"),
 ("push-wild-first-only", "C12", S, "if self.add_implicit_index_wildcards && segment.is_index() {", "if self.add_implicit_index_wildcards && segment.is_index() && !self.tree_nodes[tree_index].index_wildcard_match {"),
 ("push-range", "C12", S, "let active_trees_range = tree_nodes_len - num_active_trees..tree_nodes_len;", "let active_trees_range = tree_nodes_len.saturating_sub(num_active_trees.min(8))..tree_nodes_len;"),
 ("push-iter-ok", "ok", S, "        for tree_index in active_trees_range {\n            if !self.tree_nodes[tree_index].index_wildcard_match || !segment.is_index() {",
   "        let is_index = segment.is_index();\n        for tree_index in active_trees_range {\n            let skip = self.tree_nodes[tree_index].index_wildcard_match && is_index;\n            if !skip {"),
 ("pop-trunc-ok", "ok", S, """        for _ in 0..node_counter.active_tree_count {
            // The rules from the last node are no longer active, so remove them.
            let _popped = self.tree_nodes.pop();
        }""", """        let keep = self.tree_nodes.len() - node_counter.active_tree_count;
        self.tree_nodes.truncate(keep);"""),
 ("pop-one", "C12", S, "for _ in 0..node_counter.active_tree_count {", "for _ in 0..node_counter.active_tree_count.min(16) {"),
 ("push-count", "C12", S, "active_tree_count: self.tree_nodes.len() - tree_nodes_len,", "active_tree_count: (self.tree_nodes.len() - tree_nodes_len).min(255),"),
 ("push-counter-ok", "ok", S, "        for tree_index in active_trees_range {", "        let mut added = 0;\n        for tree_index in active_trees_range {",
   S, "                        index_wildcard_match: false,\n                    });\n                }\n            }\n\n            if self", "                        index_wildcard_match: false,\n                    });\n                    added += 1;\n                }\n            }\n\n            if self",
   S, "                    index_wildcard_match: true,\n                });", "                    index_wildcard_match: true,\n                });\n                added += 1;",
   S, "active_tree_count: self.tree_nodes.len() - tree_nodes_len,", "active_tree_count: added,"),
 ("visit-noreset", "C11", S, """        if let Some(bool_set) = &mut self.bool_set {
            bool_set.reset();
        }""", """        if will_mutate {
            if let Some(bool_set) = &mut self.bool_set {
                bool_set.reset();
            }
        }"""),
 ("excl-last-only", "C11", S, "for include_node in self.tree_nodes {\n            for change", "for include_node in self.tree_nodes.iter().rev().take(4) {\n            for change"),
 ("excl-any-ok", "ok", S, """        for include_node in self.tree_nodes {
            for change in &include_node.rule_tree.rule_changes {
                match change {
                    RuleChange::Add(_) => { /* ignore */ }
                    RuleChange::Remove(i) => {
                        if *i == rule_index {
                            return true;
                        }
                    }
                }
            }
        }
        false""", """        self.tree_nodes.iter().any(|n| n.rule_tree.rule_changes.contains(&RuleChange::Remove(rule_index)))"""),
 ("excl-any2-ok", "ok", S, """                match change {
                    RuleChange::Add(_) => { /* ignore */ }
                    RuleChange::Remove(i) => {
                        if *i == rule_index {
                            return true;
                        }
                    }
                }
            }
        }
        false""", """                if matches!(change, RuleChange::Remove(i) if *i == rule_index) { return true; }
            }
        }
        false"""),
 ("excl-flat-ok", "ok", S, """        for include_node in self.tree_nodes {
            for change in &include_node.rule_tree.rule_changes {
                match change {
                    RuleChange::Add(_) => { /* ignore */ }
                    RuleChange::Remove(i) => {
                        if *i == rule_index {
                            return true;
                        }
                    }
                }
            }
        }
        false""", """        self.tree_nodes.iter().flat_map(|n| n.rule_tree.rule_changes.iter()).any(|c| *c == RuleChange::Remove(rule_index))"""),
 ("excl-wild", "C11", S, "            for change in &include_node.rule_tree.rule_changes {\n                match change {\n                    RuleChange::Add(_) => { /* ignore", "            if include_node.index_wildcard_match && include_node.rule_tree.children.is_empty() { continue; }\n            for change in &include_node.rule_tree.rule_changes {\n                match change {\n                    RuleChange::Add(_) => { /* ignore"),
 ("visit-dedupe-neg", "C11", S, "if !used_rule_set.get_and_set(*rule_index) {", "if !used_rule_set.get_and_set(rule_index % 64) {"),
 ("visit-ok", "ok", S, """                        if let Some(used_rule_set) = &mut self.used_rule_set {
                            if !used_rule_set.get_and_set(*rule_index) {
                                (visit)(*rule_index);
                            }
                        } else {
                            (visit)(*rule_index);
                        }""", """                        let seen = match &mut self.used_rule_set { Some(s) => s.get_and_set(*rule_index), None => false };
                        if seen { continue; }
                        visit(*rule_index);"""),
 ("visit-filter-ok", "ok", S, """        for include_node in self.tree_nodes {
            if include_node.index_wildcard_match {
                // This is guaranteed to be a duplicated node. Skip it
                continue;
            }""", """        for include_node in self.tree_nodes.iter().filter(|n| !n.index_wildcard_match) {"""),
 ("visit-break", "C11", S, "                // This is guaranteed to be a duplicated node. Skip it\n                continue;", "                break;"),
 ("start-set", "C12", S, "Some(BoolSet::new(self.num_rules))", "Some(BoolSet::new(self.num_rules.max(1)))"),
]

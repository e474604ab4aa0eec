S = "sds/src/scoped_ruleset/mod.rs"
M = [
("pr-nocall","C10",S,"            self.recursively_remove(rule_change);\n            self.rule_changes.push","            self.rule_changes.push"),
("pr-norec","C10",S,"            child_tree.recursively_remove(rule_change);","            child_tree.rule_changes.retain(|x| *x != rule_change);"),
("pr-noretain","C10",S,"        self.rule_changes.retain(|x| *x != rule_change);\n",""),
("pr-first","C10",S,"for child_tree in self.children.values_mut() {","for child_tree in self.children.values_mut().take(1) {"),
("pr-cond","C10",S,"            self.recursively_remove(rule_change);\n            self.rule_changes.push","            if self.rule_changes.is_empty() {\n                self.recursively_remove(rule_change);\n            }\n            self.rule_changes.push"),
("pr-children","ok",S,"            self.recursively_remove(rule_change);\n            self.rule_changes.push","            for child in self.children.values_mut() {\n                child.recursively_remove(rule_change);\n            }\n            self.rule_changes.push"),
("pr-isempty","ok",S,"            self.recursively_remove(rule_change);\n            self.rule_changes.push","            if !self.children.is_empty() {\n                self.recursively_remove(rule_change);\n            }\n            self.rule_changes.push"),
("pr-order","ok",S,"            self.recursively_remove(rule_change);\n            self.rule_changes.push(rule_change);","            for child in self.children.values_mut() {\n                child.recursively_remove(rule_change);\n            }\n            self.rule_changes.push(rule_change);"),
("pr-pos","ok",S,"        self.rule_changes.retain(|x| *x != rule_change);\n","        if self.rule_changes.contains(&rule_change) {\n            self.rule_changes.retain(|x| *x != rule_change);\n        }\n"),
]

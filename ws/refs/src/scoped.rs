//! Storing a rule change, one segment at a time.
use crate::path::PathSegment;
use ahash::AHashMap;

#[derive(Clone, Copy, PartialEq)]
pub enum RuleChange {
    Add(usize),
    Remove(usize),
}
pub struct RuleTree {
    rule_changes: Vec<RuleChange>,
    children: AHashMap<PathSegment<'static>, RuleTree>,
}
impl RuleTree {
    pub fn new() -> Self {
        RuleTree { rule_changes: vec![], children: AHashMap::new() }
    }
    pub fn recursively_remove(&mut self, change: RuleChange) {
        unimplemented!()
    }
}

pub fn insert(tree: &mut RuleTree, path: &[PathSegment<'static>], change: RuleChange) {
    let mut at = tree;
    for segment in path {
        if at.rule_changes.contains(&change) {
            return;
        }
        at = at.children.entry(segment.clone()).or_insert_with(RuleTree::new);
    }
    if !at.rule_changes.contains(&change) {
        at.recursively_remove(change);
        at.rule_changes.push(change);
    }
}

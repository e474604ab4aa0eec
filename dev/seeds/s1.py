S = []
R = "sds/src/scoped_ruleset/mod.rs"
COMMON = '''use crate::scoped_ruleset::{ContentVisitor, ExclusionCheck, RuleIndexVisitor, ScopedRuleSet};
use crate::{Event, Path, Scope, SimpleEvent};

struct Rec<'a>(&'a mut Vec<(String, Vec<(usize, bool)>)>);

impl<'a, 'p> ContentVisitor<'p> for Rec<'a> {
    fn visit_content<'v>(
        &'v mut self,
        path: &Path<'p>,
        content: &str,
        mut rules: RuleIndexVisitor,
        check: ExclusionCheck<'v>,
        _t: &[usize],
    ) -> bool {
        let mut out = vec![];
        rules.visit_rule_indices(|i| out.push((i, check.is_excluded(i))));
        out.sort();
        self.0.push((format!("{}={}", path, content), out));
        true
    }
    fn find_true_positive_rules_from_current_path(&self, _p: &str, _c: &mut Vec<usize>) -> usize {
        0
    }
}

#[allow(dead_code)]
fn walk(rs: &ScopedRuleSet, event: &mut impl Event) -> Vec<(String, Vec<(usize, bool)>)> {
    let mut out = vec![];
    rs.visit_string_rule_combinations(event, Rec(&mut out));
    out.sort();
    out
}

#[allow(dead_code)]
fn s(x: &str) -> SimpleEvent {
    SimpleEvent::String(x.to_string())
}

#[allow(dead_code)]
fn map(v: Vec<(&str, SimpleEvent)>) -> SimpleEvent {
    SimpleEvent::Map(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

#[allow(dead_code)]
fn p(v: &[&'static str]) -> Path<'static> {
    Path::from(v.iter().map(|x| (*x).into()).collect::<Vec<_>>())
}
'''
S.append(dict(id="c10-merge-children", prop="C10",
  needs="two include paths of one rule and an exclusion of the same rule registered below the second one; the shallower include is inserted last",
  breaks="registering an include on an ancestor path drops the rule's exclusions below it, so excluded fields are scanned as included",
  edits=[(R, "        self.rule_changes.retain(|x| *x != rule_change);\n", """        // a change for this rule registered on an ancestor supersedes the ones below it
        let rule = match rule_change {
            RuleChange::Add(rule) | RuleChange::Remove(rule) => rule,
        };
        self.rule_changes.retain(|x| match x {
            RuleChange::Add(other) => RuleChange::Add(*other) != rule_change,
            RuleChange::Remove(other) => *other != rule || self.children.len() < 2,
        });
""")],
  demo=COMMON + '''
#[test]
fn exclusion_below_an_include_survives() {
    let rs = ScopedRuleSet::new(&[
        Scope::include_and_exclude(vec![p(&["a"])], vec![p(&["a", "b"]), p(&["a", "b", "c", "d"]), p(&["a", "b", "e", "f"])]),
        Scope::include_and_exclude(vec![p(&["x"])], vec![p(&["x", "y", "k", "l"]), p(&["x", "y", "m", "n"]), p(&["x", "y"])]),
        Scope::include_and_exclude(vec![p(&["a"])], vec![p(&["a"])]),
    ]);
    let mut e = map(vec![("a", map(vec![("b", s("1")), ("q", s("2"))])), ("x", map(vec![("y", s("3")), ("z", s("4"))]))]);
    assert_eq!(
        walk(&rs, &mut e),
        vec![
            ("a.b=1".to_string(), vec![(0, true), (2, true)]),
            ("a.q=2".to_string(), vec![(0, false), (2, true)]),
            ("x.y=3".to_string(), vec![(1, true)]),
            ("x.z=4".to_string(), vec![(1, false)]),
        ]
    );
}
'''))
S.append(dict(id="c11-reset-first-hit", prop="C11",
  needs="implicit index wildcards, a rule offered through two positions for one string, and a second string of the same event that is offered the same rule",
  breaks="the per-string de-duplication set is only cleared when the string was reached below a list, so a rule offered for one string is withheld from the next one",
  edits=[(R, "        if let Some(bool_set) = &mut self.bool_set {\n            bool_set.reset();", "        if let Some(bool_set) = self.bool_set.as_mut().filter(|_| self.tree_nodes.len() > 1) {\n            bool_set.reset();")],
  demo=COMMON + '''
#[test]
fn every_string_is_offered_the_rule() {
    let rs = ScopedRuleSet::new(&[Scope::exclude(vec![p(&["z", "w"])])]).with_implicit_index_wildcards(true);
    let mut e = map(vec![("a", s("1")), ("b", s("2")), ("c", s("3"))]);
    assert_eq!(
        walk(&rs, &mut e),
        vec![
            ("a=1".to_string(), vec![(0, false)]),
            ("b=2".to_string(), vec![(0, false)]),
            ("c=3".to_string(), vec![(0, false)]),
        ]
    );
}
'''))
S.append(dict(id="c12-active-count", prop="C12",
  needs="implicit index wildcards and a list element that leaves more than one position active, followed by a sibling",
  breaks="the number of active positions recorded for an index segment is capped at the parent's, so leaving the segment keeps a stale position that applies to the siblings",
  edits=[(R, "            active_tree_count: self.tree_nodes.len() - tree_nodes_len,", "            active_tree_count: (self.tree_nodes.len() - tree_nodes_len).min(num_active_trees + 1),")],
  demo=COMMON + '''
use crate::PathSegment;
#[test]
fn positions_are_restored() {
    // a[0] matches explicitly and as a wildcard; twice in a row several positions are active
    let i = |n: usize| PathSegment::Index(n);
    let f = |n: &'static str| PathSegment::from(n);
    let rs = ScopedRuleSet::new(&[
        Scope::include(vec![Path::from(vec![f("a"), i(0), i(0), f("k"), i(0)])]),
        Scope::include(vec![Path::from(vec![f("a"), i(0), f("k"), i(0)])]),
        Scope::include(vec![Path::from(vec![f("a"), f("k"), i(0)])]),
        Scope::include(vec![Path::from(vec![f("a"), f("k")])]),
    ])
    .with_implicit_index_wildcards(true);
    let inner = SimpleEvent::List(vec![map(vec![("k", SimpleEvent::List(vec![s("1"), s("2")]))])]);
    let mut e = map(vec![("a", SimpleEvent::List(vec![inner])), ("k", s("3"))]);
    let got = walk(&rs, &mut e);
    assert_eq!(got[0], ("a[0][0].k[0]=1".to_string(), vec![(0, false), (1, false), (2, false), (3, false)]));
    assert_eq!(got[1], ("a[0][0].k[1]=2".to_string(), vec![(3, false)]));
    assert_eq!(got[2], ("k=3".to_string(), vec![]));
}
'''))
S.append(dict(id="c13-list-cap", prop="C13",
  needs="a map in which a key other than the priority key sorts after it and holds an empty key name",
  breaks="children stored under an empty key are not visited",
  edits=[("sds/src/simple_event.rs", "                for (key, child) in key_to_post_process {\n", "                for (key, child) in key_to_post_process {\n                    let Some(_) = key.chars().next() else {\n                        continue;\n                    };\n")],
  demo=COMMON + '''
#[test]
fn empty_key_is_visited() {
    let rs = ScopedRuleSet::new(&[Scope::all()]);
    let mut e = map(vec![("", s("1")), ("b", s("2"))]);
    assert_eq!(walk(&rs, &mut e).len(), 2);
}
'''))
S.append(dict(id="c14-index-rewrite", prop="C14",
  needs="a JSON event with a nested list in a list, rewritten at an index that differs from the outer one",
  breaks="rewriting a JSON string inside an array with more than 64 elements goes to the wrong element",
  edits=[("sds/src/event_json.rs", "value = value.as_array_mut().unwrap().get_mut(*i).unwrap();", "let array = value.as_array_mut().unwrap();\n                    let last = array.len() - 1;\n                    value = array.get_mut((*i).min(last.min(u8::MAX as usize))).unwrap();")],
  demo='''use crate::{Event, Path, PathSegment};
#[test]
fn rewrites_the_addressed_element() {
    let mut v = serde_json::Value::Array((0..400).map(|i| serde_json::Value::String(i.to_string())).collect());
    let path = Path::from(vec![PathSegment::Index(300)]);
    v.visit_string_mut(&path, |s| {
        s.push('x');
        true
    });
    assert_eq!(v[300], "300x");
    assert_eq!(v[255], "255");
}
'''))

S = []
SC = "sds/src/scanner/scope.rs"
RC = "sds/src/scanner/regex_rule/config.rs"
SR = "sds/src/scoped_ruleset/mod.rs"
S.append(dict(id="c37-exclude-unwritten", prop="C37",
  needs="a scope with both included and excluded paths, written to JSON and read back",
  breaks="the excluded paths are not written, and a scope without them reads as excluding nothing, so fields that were left alone are scanned",
  edits=[(SC, "        include: Vec<Path<'static>>,\n        exclude: Vec<Path<'static>>,\n    },", "        include: Vec<Path<'static>>,\n        #[serde(default, skip_serializing)]\n        exclude: Vec<Path<'static>>,\n    },")],
  demo='''use crate::{Path, PathSegment, Scope};
fn path(s: &'static str) -> Path<'static> {
    Path::from(vec![PathSegment::from(s)])
}
#[test]
fn scopes_survive_json() {
    for scope in [
        Scope::all(),
        Scope::exclude(vec![path("a")]),
        Scope::include(vec![path("a")]),
        Scope::include_and_exclude(vec![path("a")], vec![path("b")]),
    ] {
        let text = serde_json::to_string(&scope).unwrap();
        assert_eq!(serde_json::from_str::<Scope>(&text).unwrap(), scope, "{}", text);
    }
}
'''))
S.append(dict(id="c37-window-omitted", prop="C37",
  needs="a configuration with the usual look-ahead of 30 characters, written to JSON and read back",
  breaks="the usual look-ahead is left out when writing, and an absent look-ahead reads as 0 instead of 30",
  edits=[(RC, "pub struct ProximityKeywordsConfig {\n    pub look_ahead_character_count: usize,\n", "pub struct ProximityKeywordsConfig {\n    #[serde(default, skip_serializing_if = \"ProximityKeywordsConfig::is_usual_window\")]\n    pub look_ahead_character_count: usize,\n"),
         (RC, "    pub excluded_keywords: Vec<String>,\n}\n", "    pub excluded_keywords: Vec<String>,\n}\n\nimpl ProximityKeywordsConfig {\n    fn is_usual_window(window: &usize) -> bool {\n        *window == 30\n    }\n}\n")],
  demo='''use crate::ProximityKeywordsConfig;
#[test]
fn windows_survive_json() {
    for n in 0..64 {
        let c = ProximityKeywordsConfig {
            look_ahead_character_count: n,
            included_keywords: vec!["a".to_string()],
            excluded_keywords: vec![],
        };
        let text = serde_json::to_string(&c).unwrap();
        assert_eq!(serde_json::from_str::<ProximityKeywordsConfig>(&text).unwrap(), c, "{}", text);
    }
}
'''))
S.append(dict(id="c10-prune-one-level", prop="C10",
  needs="an included path registered two or more levels above others of the same rule, after them",
  breaks="only the registrations one level below the new one are merged into it, so deeper ones stay and the rule is run more than once on a string",
  edits=[(SR, "            child_tree.recursively_remove(rule_change);", "            child_tree.rule_changes.retain(|x| *x != rule_change);")],
  demo='use crate::scoped_ruleset::{ContentVisitor, ExclusionCheck, RuleIndexVisitor, ScopedRuleSet};\nuse crate::{Event, Path, Scope, SimpleEvent};\n\nstruct Rec<\'a>(&\'a mut Vec<(String, Vec<(usize, bool)>)>);\n\nimpl<\'a, \'p> ContentVisitor<\'p> for Rec<\'a> {\n    fn visit_content<\'v>(\n        &\'v mut self,\n        path: &Path<\'p>,\n        content: &str,\n        mut rules: RuleIndexVisitor,\n        check: ExclusionCheck<\'v>,\n        _t: &[usize],\n    ) -> bool {\n        let mut out = vec![];\n        rules.visit_rule_indices(|i| out.push((i, check.is_excluded(i))));\n        out.sort();\n        self.0.push((format!("{}={}", path, content), out));\n        true\n    }\n    fn find_true_positive_rules_from_current_path(&self, _p: &str, _c: &mut Vec<usize>) -> usize {\n        0\n    }\n}\n\n#[allow(dead_code)]\nfn walk(rs: &ScopedRuleSet, event: &mut impl Event) -> Vec<(String, Vec<(usize, bool)>)> {\n    let mut out = vec![];\n    rs.visit_string_rule_combinations(event, Rec(&mut out));\n    out.sort();\n    out\n}\n\n#[allow(dead_code)]\nfn s(x: &str) -> SimpleEvent {\n    SimpleEvent::String(x.to_string())\n}\n\n#[allow(dead_code)]\nfn map(v: Vec<(&str, SimpleEvent)>) -> SimpleEvent {\n    SimpleEvent::Map(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())\n}\n\n#[allow(dead_code)]\nfn p(v: &[&\'static str]) -> Path<\'static> {\n    Path::from(v.iter().map(|x| (*x).into()).collect::<Vec<_>>())\n}\n\n#[test]\nfn a_rule_is_visited_once_per_string() {\n    let rs = ScopedRuleSet::new(&[Scope::include(vec![p(&["a", "b", "c"]), p(&["a", "d", "e", "f"]), p(&["a"])])]);\n    let mut e = map(vec![("a", map(vec![\n        ("b", map(vec![("c", s("1"))])),\n        ("d", map(vec![("e", map(vec![("f", s("2"))]))])),\n    ]))]);\n    assert_eq!(\n        walk(&rs, &mut e),\n        vec![("a.b.c=1".to_string(), vec![(0, false)]), ("a.d.e.f=2".to_string(), vec![(0, false)])]\n    );\n}\n'))

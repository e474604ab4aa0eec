SE = "sds/src/simple_event.rs"
EJ = "sds/src/event_json.rs"
M = [
 ("se-nopop", "C13", SE, "                        child.visit_event(visitor);\n                        visitor.pop_segment();\n                    } else", "                        child.visit_event(visitor);\n                        if key.len() < 99 { visitor.pop_segment(); }\n                    } else"),
 ("se-skip", "C13", SE, "                    } else {\n                        key_to_post", "                    } else if !key.is_empty() {\n                        key_to_post"),
 ("se-rev-idx", "C13", SE, "visitor.push_segment(PathSegment::Index(i));", "visitor.push_segment(PathSegment::Index(i % 1000));"),
 ("se-skip1", "C13", SE, "for (key, child) in key_to_post_process {", "for (key, child) in key_to_post_process.into_iter().take(100) {"),
 ("se-helper-ok", "ok", SE, """                    if key == FIRST_VISIT_KEY {
                        visitor.push_segment(key.as_str().into());
                        child.visit_event(visitor);
                        visitor.pop_segment();
                    } else {""", """                    if key == FIRST_VISIT_KEY {
                        visit_child(key.as_str().into(), child, visitor);
                    } else {""", SE, """                for (key, child) in key_to_post_process {
                    visitor.push_segment(key.as_str().into());
                    child.visit_event(visitor);
                    visitor.pop_segment();
                }""", """                for (key, child) in key_to_post_process {
                    visit_child(PathSegment::Field(std::borrow::Cow::Borrowed(key)), child, visitor);
                }""", SE, "impl Event for SimpleEvent {", """fn visit_child<'path>(s: PathSegment<'path>, c: &'path mut SimpleEvent, v: &mut impl EventVisitor<'path>) {
    v.push_segment(s);
    c.visit_event(v);
    v.pop_segment();
}
impl Event for SimpleEvent {"""),
 ("se-partition-ok", "ok", SE, """                let mut key_to_post_process: Vec<(&String, &mut SimpleEvent)> = vec![];
                for (key, child) in map.iter_mut() {
                    if key == FIRST_VISIT_KEY {
                        visitor.push_segment(key.as_str().into());
                        child.visit_event(visitor);
                        visitor.pop_segment();
                    } else {
                        key_to_post_process.push((key, child));
                    }
                }
                for (key, child) in key_to_post_process {""", """                let (first, rest): (Vec<_>, Vec<_>) = map.iter_mut().partition(|(k, _)| k.as_str() == FIRST_VISIT_KEY);
                for (key, child) in first.into_iter().chain(rest) {"""),
 ("se-while-ok", "ok", SE, """                for (i, child) in list.iter_mut().enumerate() {
                    visitor.push_segment(PathSegment::Index(i));
                    child.visit_event(visitor);
                    visitor.pop_segment();
                }""", """                let mut i = 0;
                for child in list.iter_mut() {
                    visitor.push_segment(PathSegment::Index(i));
                    child.visit_event(visitor);
                    visitor.pop_segment();
                    i += 1;
                }"""),
 ("se-zip-ok", "ok", SE, "for (i, child) in list.iter_mut().enumerate() {", "for (i, child) in (0..).zip(list.iter_mut()) {"),
 ("se-mut-last", "C14", SE, "value = value.as_list_mut().unwrap().get_mut(*i).unwrap();", "let l = value.as_list_mut().unwrap(); let n = l.len(); value = l.get_mut((*i).min(n - 1)).unwrap();"),
 ("se-mut-first", "C14", SE, "        for segment in &path.segments {\n", "        for segment in path.segments.iter().take(32) {\n"),
 ("se-fold-ok", "ok", SE, """        let mut value = self;

        for segment in &path.segments {
            match segment {
                PathSegment::Field(key) => {
                    value = value.as_map_mut().unwrap().get_mut(key.as_ref()).unwrap();
                }
                PathSegment::Index(i) => {
                    value = value.as_list_mut().unwrap().get_mut(*i).unwrap();
                }
            }
        }""", """        let value = path.segments.iter().fold(self, |value, segment| match segment {
            PathSegment::Field(key) => value.as_map_mut().unwrap().get_mut(key.as_ref()).unwrap(),
            PathSegment::Index(i) => &mut value.as_list_mut().unwrap()[*i],
        });"""),
 ("ej-null", "C13", EJ, "            serde_json::Value::Null => {}", "            serde_json::Value::Null => { let _r = visitor.visit_string(\"null\"); }"),
 ("ej-empty", "C13", EJ, "                let _result = visitor.visit_string(s);\n", "                if s.len() > 1 { let _result = visitor.visit_string(s); }\n"),
 ("ej-double-ok", "ok", EJ, """                    value.visit_event(visitor);
                    visitor.pop_segment();
                }
            }
        }""", """                    Event::visit_event(value, visitor);
                    visitor.pop_segment();
                }
            }
        }"""),
 ("ej-nested", "C13", EJ, """                for (i, value) in values.iter_mut().enumerate() {
                    visitor.push_segment(PathSegment::Index(i));
                    value.visit_event(visitor);
                    visitor.pop_segment();
                }""", """                visitor.push_segment(PathSegment::Index(0));
                for value in values.iter_mut() {
                    value.visit_event(visitor);
                }
                visitor.pop_segment();"""),
 ("ej-mut-match-ok", "ok", EJ, "value = value.as_array_mut().unwrap().get_mut(*i).unwrap();", "value = match value { serde_json::Value::Array(a) => &mut a[*i], _ => panic!(\"not an array\") };"),
 ("hm-slice-ok", "ok", EJ, """        let mut remaining_segments = path.segments.clone();
        remaining_segments.remove(0);
""", """        let remaining_segments = path.segments[1..].to_vec();
"""),
]

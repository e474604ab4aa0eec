K = "sds/src/proximity_keywords/mod.rs"
OLD='''    Ok(Some((
        get_memoized_regex(&keyword_regex_key(&content_pattern), |_| {
            regex_builder.build(&content_pattern)
        })
        .unwrap(),
        get_memoized_regex(&keyword_regex_key(&path_pattern), |_| {
            regex_builder.build(&path_pattern)
        })
        .unwrap(),
    )))
}
'''
M=[("c17-helper","ok",K,OLD,'''    Ok(Some((
        compile_shared(&regex_builder, &content_pattern),
        compile_shared(&regex_builder, &path_pattern),
    )))
}

fn compile_shared(builder: &regex_automata::meta::Builder, pattern: &str) -> SharedRegex {
    get_memoized_regex(&keyword_regex_key(pattern), |_| builder.build(pattern)).unwrap()
}
'''),
("c17-closure-bad","C17",K,OLD,'''    let content = content_pattern.clone();
    let compile = |pattern: &str| get_memoized_regex(&keyword_regex_key(pattern), |_| regex_builder.build(&content)).unwrap();
    let a = compile(&content_pattern);
    let b = compile(&path_pattern);
    Ok(Some((a, b)))
}
'''),
("c17-helper-bad","C17",K,OLD,'''    Ok(Some((
        compile_shared(&regex_builder, &content_pattern, true),
        compile_shared(&regex_builder, &path_pattern, false),
    )))
}

fn compile_shared(builder: &regex_automata::meta::Builder, pattern: &str, whole: bool) -> SharedRegex {
    get_memoized_regex(&keyword_regex_key(pattern), |_| if whole { builder.build(pattern) } else { builder.build("a") }).unwrap()
}
'''),
]

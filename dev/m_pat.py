A, V = "sds/src/normalization/rust_regex_adapter.rs", "sds/src/validation.rs"
LOOP = """    for flag in flags_in_both {
        add_flags.retain(|x| *x != flag);
    }
"""
BOTH = """    let mut flags_in_both = vec![];

    for flag in &remove_flags {
        if add_flags.contains(flag) {
            flags_in_both.push(*flag);
        }
    }
"""
LIM = """                        if exact > QUANTIFIER_LIMIT {
                            return Err(ParseError::ExceededQuantifierLimit);
                        }
                        RegexRepetitionKind::Range(RepetitionRange::Exactly(exact))"""
MM = """                        if min > QUANTIFIER_LIMIT || max > QUANTIFIER_LIMIT {"""
SP = """                RegexClassSetItem::Literal(convert_literal(
                    Literal {
                        c: ' ',
                        escaped: true,
                    },
                    LiteralKind::BracketedCharacterClass,
                )),
"""
TAB = SP.replace("' '", "'\\t'")
M = [
 ("fl-keepadd", "C04", A, LOOP, LOOP.replace("add_flags.retain(|x| *x != flag)", "remove_flags.retain(|x| *x != flag)")),
 ("fl-nodedup", "C04", A, "    remove_flags.dedup();\n", ""),
 ("fl-nosort", "C04", A, "    remove_flags.sort();\n    remove_flags.dedup();\n", "    remove_flags.dedup();\n"),
 ("fl-unwanted", "C04", A, "SdsFlag::DotMatchesNewLine => RegexFlag::DotMatchesNewLine", "SdsFlag::DotMatchesNewLine => RegexFlag::CRLF"),
 ("fl-ret-ok", "ok", A, BOTH + """
    // If a flag is both added and removed, they are processed in order, so only the removal
    // is kept.
""" + LOOP, "    add_flags.retain(|x| !remove_flags.contains(x));\n"),
 ("fl-iter-ok", "ok", A, BOTH, "    let flags_in_both: Vec<SdsFlag> = remove_flags.iter().copied().filter(|f| add_flags.contains(f)).collect();\n"),
 ("fl-ext-ok", "ok", A, """    for flag in &add_flags {
        items.push(RegexFlagsItem {
            span: span(),
            kind: RegexFlagsItemKind::Flag(convert_flag(flag)),
        });
    }
""", """    items.extend(add_flags.iter().map(|flag| RegexFlagsItem {
            span: span(),
            kind: RegexFlagsItemKind::Flag(convert_flag(flag)),
        }));
"""),
 ("q-ge", "C04", A, LIM, LIM.replace("exact > ", "exact >= ")),
 ("q-minmax", "C04", A, MM, "                        if min > QUANTIFIER_LIMIT {"),
 ("q-minmax2", "C04", A, MM, "                        if max - min > QUANTIFIER_LIMIT {"),
 ("q-max-ok", "ok", A, MM, "                        if min.max(max) > QUANTIFIER_LIMIT {"),
 ("q-any-ok", "ok", A, MM, "                        if [min, max].iter().any(|x| *x > QUANTIFIER_LIMIT) {"),
 ("q-helper-ok", "ok", A, LIM, """                        check_limit(exact)?;
                        RegexRepetitionKind::Range(RepetitionRange::Exactly(exact))""",
  A, "fn convert_flag(", """fn check_limit(n: u32) -> Result<(), ParseError> {
    if n <= QUANTIFIER_LIMIT {
        Ok(())
    } else {
        Err(ParseError::ExceededQuantifierLimit)
    }
}

fn convert_flag("""),
 ("lazy", "C04", A, "greedy: !repetition.quantifier.lazy", "greedy: !repetition.quantifier.lazy || matches!(repetition.quantifier.kind, SdsQuantifierKind::ZeroOrOne)"),
 ("atleast", "C04", A, "RegexRepetitionKind::Range(RepetitionRange::AtLeast(min))", "if min == 0 { RegexRepetitionKind::ZeroOrMore } else { RegexRepetitionKind::OneOrMore }"),
 ("wb-unicode", "C04", A, "kind: RegexFlagsItemKind::Negation,\n                            },\n                            RegexFlagsItem {\n                                span: span(),\n                                kind: RegexFlagsItemKind::Flag(RegexFlag::Unicode),\n                            },\n                        ],\n                    }),\n                    ast: Box::new(RegexAst::Assertion(RegexAssertion {\n                        span: span(),\n                        kind: RegexAssertionKind::NotWordBoundary", "kind: RegexFlagsItemKind::Negation,\n                            },\n                            RegexFlagsItem {\n                                span: span(),\n                                kind: RegexFlagsItemKind::Flag(RegexFlag::CRLF),\n                            },\n                        ],\n                    }),\n                    ast: Box::new(RegexAst::Assertion(RegexAssertion {\n                        span: span(),\n                        kind: RegexAssertionKind::NotWordBoundary"),
 ("endline", "C04", A, "kind: RegexLiteralKind::HexBrace(RegexHexLiteralKind::X),\n                                c: '\\n',", "kind: RegexLiteralKind::Verbatim,\n                                c: '\\n',"),
 ("endline-ok", "ok", A, "                            ast: Box::new(RegexAst::Literal(RegexLiteral {\n                                span: span(),\n                                kind: RegexLiteralKind::HexBrace(RegexHexLiteralKind::X),\n                                c: '\\n',\n                            })),", "                            ast: Box::new(RegexAst::Literal(convert_literal(Literal { c: '\\n', escaped: true }, LiteralKind::Normal))),"),
 ("bigz", "C04", A, "            // the `x` flag should not ignore this, so it's escaped\n                            escaped: true,", "            escaped: false,"),
 ("bigz2", "C04", A, "SdsAst::Assertion(SdsAssertionType::EndText),\n", "SdsAst::Assertion(SdsAssertionType::EndLine),\n"),
 ("vws", "C04", A, "convert_literal(\n                    // form feed\n                    Literal {\n                        c: '\\x0C'", "convert_literal(\n                    // form feed\n                    Literal {\n                        c: '\\x0D'"),
 ("order-ok", "ok", A, SP + TAB, TAB + SP),
 ("bracket-neg", "C04", A, "negated: bracket.negated,", "negated: bracket.negated && !bracket.items.is_empty(),"),
 ("br-hws", "C04", A, "BracketCharacterClassItem::NotHorizontalWhitespace => {\n                output.push(RegexClassSetItem::Bracketed(Box::new(\n                    horizontal_whitespace(true),", "BracketCharacterClassItem::NotHorizontalWhitespace => {\n                output.push(RegexClassSetItem::Bracketed(Box::new(\n                    horizontal_whitespace(false),"),
 ("br-ascii", "C04", A, "negated: ascii_class.negated,", "negated: ascii_class.negated && !matches!(ascii_class.kind, AsciiClassKind::Word),"),
 ("ascii-print", "C04", A, "AsciiClassKind::Print => RegexClassAsciiKind::Print", "AsciiClassKind::Print => RegexClassAsciiKind::Graph"),
 ("br-skip", "C04", A, "    for item in items {\n        match item {", "    for item in items.iter().take(64) {\n        match item {"),
 ("br-map-ok", "ok", A, """    let mut output: Vec<RegexClassSetItem> = vec![];

    for item in items {
        match item {""", """    let mut output: Vec<RegexClassSetItem> = Vec::with_capacity(items.len());

    for item in items.iter() {
        match item {"""),
 ("lit-meta", "C04", A, "if regex_syntax::is_meta_character(literal.c) {", "if regex_syntax::is_meta_character(literal.c) && !literal.escaped {"),
 ("lit-ws", "C04", A, "literal.c.is_whitespace() {", "literal.c.is_ascii_whitespace() {"),
 ("lit-tab", "C04", A, "&['\\x0D', '\\x0A', '\\x09', '\\x0C', '\\x0B', '\\x20']", "&['\\x0D', '\\x0A', '\\x09', '\\x0C', '\\x20']"),
 ("lit-32", "C04", A, "(literal.c as u32) < 32", "(literal.c as u32) < 31"),
 ("lit-if-ok", "ok", A, """        if literal.escaped {
            RegexLiteralKind::HexBrace(RegexHexLiteralKind::X)
        } else {
            RegexLiteralKind::Verbatim
        }
    } else {""", """        match literal.escaped {
            false => RegexLiteralKind::Verbatim,
            true => RegexLiteralKind::HexBrace(RegexHexLiteralKind::X),
        }
    } else {"""),
 ("perl-nond", "C04", A, "SdsPerlCharacterClass::NonSpace => perl_class_space(true)", "SdsPerlCharacterClass::NonSpace => perl_class_space(false)"),
 ("word-Z", "C04", A, "c: '_',", "c: '-',"),
 ("ncg-flags", "C04", A, "RegexGroupKind::NonCapturing(convert_flags(&non_capturing.flags))", "RegexGroupKind::NonCapturing(convert_flags(&SdsFlags { add: non_capturing.flags.add.clone(), remove: vec![] }))"),
 ("alt-err", "C04", A, "RegexAst::Alternation(RegexAlternation {\n            span: span(),\n            asts: list.iter().map(convert_ast).collect::<Result<_, _>>()?,", "RegexAst::Alternation(RegexAlternation {\n            span: span(),\n            asts: list.iter().filter_map(|x| convert_ast(x).ok()).collect(),"),
 ("alt-rev", "C04", A, "RegexAst::Alternation(RegexAlternation {\n            span: span(),\n            asts: list.iter().map(convert_ast).collect::<Result<_, _>>()?,", "RegexAst::Alternation(RegexAlternation {\n            span: span(),\n            asts: list.iter().rev().map(convert_ast).collect::<Result<_, _>>()?,"),
 ("alt-loop-ok", "ok", A, "SdsAst::Alternation(list) => RegexAst::Alternation(RegexAlternation {\n            span: span(),\n            asts: list.iter().map(convert_ast).collect::<Result<_, _>>()?,\n        }),", "SdsAst::Alternation(list) => { let mut asts = Vec::with_capacity(list.len()); for x in list { asts.push(convert_ast(x)?); } RegexAst::Alternation(RegexAlternation {\n            span: span(),\n            asts,\n        }) }"),
 ("conv-ok", "ok", A, "    let regex_ast = convert_ast(&sds_ast)?;\n    Ok(regex_ast.to_string())", "    convert_ast(&sds_ast).map(|ast| ast.to_string())"),
 ("conv-trim", "C04", A, "parse_regex_pattern(pattern)?;", "parse_regex_pattern(pattern.trim())?;"),

 ("v-limit", "C03", V, "build_regex(&converted_pattern, REGEX_COMPLEXITY_LIMIT)", "build_regex(&converted_pattern, 10 * REGEX_COMPLEXITY_LIMIT)"),
 ("v-nolimit", "C03", V, ".nfa_size_limit(Some(complexity_limit))", ".onepass_size_limit(Some(complexity_limit))"),
 ("v-unicode", "C03", V, ".unicode(true)", ".unicode(false)"),
 ("v-utf8", "C03", V, ".unicode(true)", ".unicode(true)\n                .utf8(false)"),
 ("v-all", "C03", V, ".nfa_size_limit(Some(complexity_limit))", ".nfa_size_limit(Some(complexity_limit))\n                .match_kind(regex_automata::MatchKind::All)"),
 ("v-cache-ok", "ok", V, ".hybrid_cache_capacity(2 * (1 << 20))", ".hybrid_cache_capacity(4 * (1 << 20))"),
 ("v-default-ok", "ok", V, """            regex_automata::util::syntax::Config::default()
                .dot_matches_new_line(false)
                .unicode(true),""", "            regex_automata::util::syntax::Config::new().unicode(true).dot_matches_new_line(false),"),
 ("v-stmt-ok", "ok", V, """    meta::Builder::new()
        .configure(
            meta::Config::new()
                .nfa_size_limit(Some(complexity_limit))
                // This is purely a performance setting. This is the default, but it might be worth testing this in benchmarks for a better number
                .hybrid_cache_capacity(2 * (1 << 20)),
        )
        .syntax(
            regex_automata::util::syntax::Config::default()
                .dot_matches_new_line(false)
                .unicode(true),
        )
        .build(converted_pattern)
""", """    let config = meta::Config::new()
                .nfa_size_limit(Some(complexity_limit))
                .hybrid_cache_capacity(2 * (1 << 20));
    let mut builder = meta::Builder::new();
    builder.syntax(
            regex_automata::util::syntax::Config::default()
                .dot_matches_new_line(false)
                .unicode(true),
        );
    builder.configure(config);
    builder.build(converted_pattern)
"""),
 ("v-err", "C03", V, "if regex_err.size_limit().is_some() {", "if regex_err.pattern().is_none() {"),
 ("v-err2", "C03", V, "ParseError::ExceededDepthLimit => Self::ExceededDepthLimit", "ParseError::ExceededDepthLimit => Self::TooComplex"),
 ("v-empty", "C03", V, "if regex.is_match(\"\") || can_match", "if regex.is_match(\"\") && can_match"),
 ("v-empty2", "C03", V, "minimum_len() == Some(0)", "maximum_len() == Some(0)"),
 ("v-empty3", "C03", V, "can_match_empty_string(&converted_pattern)", "can_match_empty_string(input)"),
 ("v-empty4", "C03", V, ".map_or(true, |hir|", ".map_or(false, |hir|"),
 ("v-short", "C03", V, "    validate_and_create_regex(input).map(|_| ())", "    convert_to_rust_regex(input)?;\n    build_regex(input, REGEX_COMPLEXITY_LIMIT).map(|_| ())"),
 ("v-est", "C03", V, "low = mid + 1;", "low = mid;"),
 ("v-est2", "C03", V, "while low < high {", "while low + 1 < high {"),
 ("v-est3", "C03", V, "            _ => Err(err),\n", "            _ => Ok(false),\n"),
 ("v-match-ok", "ok", V, """    let regex = build_regex(&converted_pattern, REGEX_COMPLEXITY_LIMIT)?;
    if regex.is_match("") || can_match_empty_string(&converted_pattern) {
        return Err(RegexValidationError::MatchesEmptyString);
    }
    Ok(regex)""", """    match build_regex(&converted_pattern, REGEX_COMPLEXITY_LIMIT) {
        Ok(regex) if !regex.is_match("") && !can_match_empty_string(&converted_pattern) => Ok(regex),
        Ok(_) => Err(RegexValidationError::MatchesEmptyString),
        Err(e) => Err(e),
    }"""),
 ("v-est-ok", "ok", V, """    match build_regex(converted_pattern, complexity_limit) {
        Ok(_) => Ok(true),
        Err(err) => match err {
            RegexValidationError::TooComplex => Ok(false),
            _ => Err(err),
        },
    }""", """    let result = build_regex(converted_pattern, complexity_limit);
    if let Err(RegexValidationError::TooComplex) = result {
        return Ok(false);
    }
    result.map(|_| true)"""),
 ("v-est-loop-ok", "ok", V, "while low < high {\n", "loop {\n        if low >= high {\n            break;\n        }\n"),
 ("v-est-mid-ok", "ok", V, "low + (high - low) / 2", "(low + high) / 2"),
]

P, I, E_, U = ["sds/src/parser/" + x for x in ("regex_parser.rs", "input.rs", "error.rs", "unicode_property_names.rs")]
FLAGS = """    let (input, add) = many0(flag)(input)?;
    let (input, remove) = opt(tuple((tag("-"), many0(flag))))(input)?;

    Ok((
        input,
        Flags {
            add,
            remove: remove.map(|x| x.1).unwrap_or(vec![]),
        },
    ))"""
GROUP = """    match result {
        Ok((mut input, group)) => {
            input.depth -= 1;
            Ok((input, group))
        }
        Err(err) => Err(err),
    }"""
EXACT = """    let (input, _) = tag("{")(input)?;
    let (input, exact_count) = integer(input)?;
    let (input, _) = tag("}")(input)?;
    Ok((input, QuantifierKind::RangeExact(exact_count)))"""
MINMAX = """    let (input, _) = tag("{")(input)?;
    let (input, min_count) = integer(input)?;
    let (input, _) = tag(",")(input)?;
    let (input, max_count) = integer(input)?;
    let (input, _) = tag("}")(input)?;
    Ok((input, QuantifierKind::RangeMinMax(min_count, max_count)))"""
CAP = """    let (input, _) = tag("(")(input)?;
    let (input, inner) = expression(input)?;
    let (input, _) = tag(")")(input)?;
    Ok((input, CaptureGroup { inner }))"""
ALT = """    if children.len() == 1 {
        Ok((input, children.first().unwrap().clone()))
    } else {
        Ok((input, Ast::Alternation(children)))
    }"""
QUOTE = """    let ast = match literals.len() {
        0 => Ast::Empty,
        1 => literals.first().unwrap().clone(),
        _ => Ast::Concat(literals),
    };"""
RANGE = """    let (input, start) = literal(LiteralKind::BracketedCharacterClass)(input)?;
    let (input, _) = tag("-")(input)?;
    let (input, end) = literal(LiteralKind::BracketedCharacterClass)(input)?;
    Ok((input, BracketCharacterClassItem::Range(start.c, end.c)))"""
CTRL = """    let control_char = char::from_u32((c.to_ascii_lowercase() as u32) - ('a' as u32) + 1).unwrap();"""
UPC = """    alt((
        map(
            delimited(tag("\\\\p{"), unicode_property_name, tag("}")),
            |name: &str| UnicodePropertyClass {
                negate: false,
                name: name.to_string(),
            },
        ),
        map(
            delimited(tag("\\\\P{"), unicode_property_name, tag("}")),
            |name| UnicodePropertyClass {
                negate: true,
                name: name.to_string(),
            },
        ),
    ))(input)"""
LIT = """        let (input, backslash) = opt(tag("\\\\"))(input)?;
        if backslash.is_some() {
            alt((
                escaped_literal,
                map(none_of(ESCAPED_LITERAL_DENY_LIST), |c| Literal {
                    c,
                    escaped: true,
                }),
            ))(input)
        } else {
            let (input, c) = match kind {
                LiteralKind::BracketedCharacterClass => {
                    none_of(BRACKETED_CHARACTER_CLASS_DENY_LIST)(input)?
                }
                LiteralKind::Normal => none_of(LITERAL_DENY_LIST)(input)?,
            };
            Ok((input, Literal { c, escaped: false }))
        }"""
M = [
 ("ps-limit", "C02", P, "RECURSION_LIMIT: usize = 50", "RECURSION_LIMIT: usize = 51"),
 ("ps-ge", "C02", P, "input.depth > RECURSION_LIMIT", "input.depth >= RECURSION_LIMIT"),
 ("ps-nodec", "C02", P, "            input.depth -= 1;\n", ""),
 ("ps-noinc", "C02", P, "    input.depth += 1;\n", ""),
 ("ps-failure", "C02", P, "return Err(nom::Err::Failure(ParseError::ExceededDepthLimit))", "return Err(nom::Err::Error(ParseError::ExceededDepthLimit))"),
 ("ps-deny", "C02", P, 'LITERAL_DENY_LIST: &str = "|[().+?*^$"', 'LITERAL_DENY_LIST: &str = "|[().+?*^${"'),
 ("ps-deny2", "C02", P, "0123456789cgklopuxzABCEGKLNPQRUXZ", "0123456789cgklopuxyzABCEGKLNPQRUXZ"),
 ("ps-deny3", "C02", P, "0123456789cgklopuxzABCEGKLNPQRUXZ", "0123456789cgklopuxzABCEGKNPQRUXZ"),
 ("ps-eof", "C02", P, "    let (input, _) = eof(input)?;\n", ""),
 ("ps-order", "C02", P, "        map(flags_expression, Ast::Flags),\n        map(group, |group| Ast::Group(Rc::new(group))),", "        map(group, |group| Ast::Group(Rc::new(group))),\n        map(flags_expression, Ast::Flags),"),
 ("ps-lazy", "C02", P, "lazy: lazy.is_some()", "lazy: lazy.is_none()"),
 ("ps-minmax", "C02", P, "QuantifierKind::RangeMinMax(min_count, max_count)))", "QuantifierKind::RangeMinMax(max_count, min_count)))"),
 ("ps-z", "C02", P, 'tag("\\\\z"), |_| AssertionType::EndText)', 'tag("\\\\z"), |_| AssertionType::EndTextOptionalNewline)'),
 ("ps-neg", "C02", P, "negate: true", "negate: false"),
 ("ps-remove", "C02", P, "remove: remove.map(|x| x.1).unwrap_or(vec![])", "remove: remove.map(|x| x.1).unwrap_or(add.clone())", P, "            add,\n", "            add: add.clone(),\n"),
 ("ps-bracket-first", "C02", P, "items.insert(0, BracketCharacterClassItem::Literal(']'))", "items.push(BracketCharacterClassItem::Literal(']'))"),
 ("ps-empty-class", "C02", P, "    if items.is_empty() {\n        // An empty", "    if items.is_empty() && negated.is_none() {\n        // An empty"),
 ("ps-x-failure", "C02", P, ".map_err(|_| nom::Err::Failure(ParseError::InvalidSyntax))?\n    } else", ".map_err(|_| nom::Err::Error(ParseError::InvalidSyntax))?\n    } else"),
 ("ps-x-3", "C02", P, "many_m_n(0, 2, hex_digit)", "many_m_n(0, 3, hex_digit)"),
 ("ps-x-1", "C02", P, "many_m_n(0, 2, hex_digit)", "many_m_n(1, 2, hex_digit)"),
 ("ps-v", "C02", P, "'\\x0B'", "'\\x0C'"),
 ("ps-ctrl", "C02", P, "- ('a' as u32) + 1", "- ('a' as u32)"),
 ("ps-name", "C02", P, "many0(one_of(ASCII_ALPHANUMERIC_WITH_UNDERSCORE))", "many0(one_of(ASCII_LETTERS_WITH_UNDERSCORE))"),
 ("ps-range-order", "C02", P, "        map(bracket_character_class_item_range, |item| vec![item]),\n        map(bracket_character_class_item_literal, |item| vec![item]),", "        map(bracket_character_class_item_literal, |item| vec![item]),\n        map(bracket_character_class_item_range, |item| vec![item]),"),
 ("ps-ascii-neg", "C02", P, "negated: negated.is_some(),\n            kind", "negated: negated.is_none(),\n            kind"),
 ("ps-punct", "C02", P, 'tag("punct"), |_| AsciiClassKind::Punct', 'tag("punct"), |_| AsciiClassKind::Print'),
 ("ps-qescaped", "C02", P, "Ast::Literal(Literal { c, escaped: true }))\n        .collect", "Ast::Literal(Literal { c, escaped: false }))\n        .collect"),
 ("ps-incomplete", "C02", P, "nom::Err::Failure(x) => x,", "nom::Err::Failure(_) => ParseError::InvalidSyntax,"),
 ("ps-prop", "C02", U, '"Cf", // Format', '"Cg", // Format'),
 ("ps-unopt", "C02", P, "ast.unwrap_or(Ast::Empty)", "ast.unwrap_or(Ast::Concat(vec![]))"),
 ("ps-in-depth", "C02", I, """        Self {
            value: self.value.slice(range),
            depth: self.depth,
        }""", """        Self {
            value: self.value.slice(range),
            depth: 0,
        }"""),
 ("ps-in-split", "C02", I, """            Self {
                value: b,
                depth: self.depth,
            },""", """            Self {
                value: b,
                depth: self.depth + 1,
            },"""),
 ("ps-err-append", "C02", E_, "        other\n", "        let _ = other;\n        ParseError::InvalidSyntax\n"),
 ("ps-int", "C02", P, "u32::from_str(digits.value).map_err(|_| nom::Err::Error(ParseError::InvalidSyntax))?", "u32::from_str(digits.value).unwrap_or(u32::MAX)"),
 # behaviour kept
 ("ps-flags-preceded-ok", "ok", P, FLAGS, """    let (input, add) = many0(flag)(input)?;
    let (input, remove) = opt(nom::sequence::preceded(tag("-"), many0(flag)))(input)?;
    Ok((input, Flags { add, remove: remove.unwrap_or_default() }))"""),
 ("ps-group-map-ok", "ok", P, GROUP, """    result.map(|(mut rest, group)| {
        rest.depth -= 1;
        (rest, group)
    })"""),
 ("ps-group-q-ok", "ok", P, GROUP, """    let (mut rest, group) = result?;
    rest.depth -= 1;
    Ok((rest, group))"""),
 ("ps-group-check-ok", "ok", P, "    input.depth += 1;\n    if input.depth > RECURSION_LIMIT {\n        return Err(nom::Err::Failure(ParseError::ExceededDepthLimit));\n    }\n", "    if input.depth >= RECURSION_LIMIT {\n        return Err(nom::Err::Failure(ParseError::ExceededDepthLimit));\n    }\n    input.depth += 1;\n"),
 ("ps-exact-delim-ok", "ok", P, EXACT, """    let (input, exact_count) = delimited(tag("{"), integer, tag("}"))(input)?;
    Ok((input, QuantifierKind::RangeExact(exact_count)))"""),
 ("ps-exact-map-ok", "ok", P, EXACT, """    map(delimited(tag("{"), integer, tag("}")), QuantifierKind::RangeExact)(input)"""),
 ("ps-minmax-tuple-ok", "ok", P, MINMAX, """    let (input, (_, min, _, max, _)) = tuple((tag("{"), integer, tag(","), integer, tag("}")))(input)?;
    Ok((input, QuantifierKind::RangeMinMax(min, max)))"""),
 ("ps-minmax-seppair-ok", "ok", P, MINMAX, """    let (input, (min, max)) = delimited(tag("{"), nom::sequence::separated_pair(integer, tag(","), integer), tag("}"))(input)?;
    Ok((input, QuantifierKind::RangeMinMax(min, max)))"""),
 ("ps-cap-delim-ok", "ok", P, CAP, """    let (input, inner) = delimited(tag("("), expression, tag(")"))(input)?;
    Ok((input, CaptureGroup { inner }))"""),
 ("ps-alt-match-ok", "ok", P, ALT, """    match children.len() {
        1 => Ok((input, children[0].clone())),
        _ => Ok((input, Ast::Alternation(children))),
    }"""),
 ("ps-alt-into-ok", "ok", P, ALT, """    let ast = match children.as_slice() {
        [only] => only.clone(),
        _ => Ast::Alternation(children),
    };
    Ok((input, ast))"""),
 ("ps-alt-helper-ok", "ok", P, ALT + "\n}", """    Ok((input, single_or(children, Ast::Alternation)))
}

fn single_or(mut children: Vec<Ast>, wrap: fn(Vec<Ast>) -> Ast) -> Ast {
    if children.len() == 1 {
        children.remove(0)
    } else {
        wrap(children)
    }
}""", P, """    let (input, children) = many1(atomic)(input)?;
    if children.len() == 1 {
        Ok((input, children.first().unwrap().clone()))
    } else {
        Ok((input, Ast::Concat(children)))
    }""", """    let (input, children) = many1(atomic)(input)?;
    Ok((input, single_or(children, Ast::Concat)))"""),
 ("ps-quote-if-ok", "ok", P, QUOTE, """    let ast = if literals.is_empty() {
        Ast::Empty
    } else if literals.len() == 1 {
        literals[0].clone()
    } else {
        Ast::Concat(literals)
    };"""),
 ("ps-range-helper-ok", "ok", P, RANGE + "\n}", """    let (input, start) = bracket_literal(input)?;
    let (input, _) = tag("-")(input)?;
    let (input, end) = bracket_literal(input)?;
    Ok((input, BracketCharacterClassItem::Range(start.c, end.c)))
}

fn bracket_literal(input: Input) -> ParseResult<Literal> {
    literal(LiteralKind::BracketedCharacterClass)(input)
}"""),
 ("ps-ctrl-const-ok", "ok", P, CTRL, """    let offset = c.to_ascii_lowercase() as u32 - 'a' as u32;
    let control_char = char::from_u32(offset + 1).unwrap();"""),
 ("ps-upc-helper-ok", "ok", P, UPC + "\n}", """    let (input, negate) = alt((
        map(tag("\\\\p{"), |_| false),
        map(tag("\\\\P{"), |_| true),
    ))(input)?;
    let (input, name) = unicode_property_name(input)?;
    let (input, _) = tag("}")(input)?;
    Ok((input, UnicodePropertyClass { negate, name: name.to_string() }))
}"""),
 ("ps-lit-early-ok", "ok", P, LIT, """        let (input, backslash) = opt(tag("\\\\"))(input)?;
        if backslash.is_some() {
            return alt((
                escaped_literal,
                map(none_of(ESCAPED_LITERAL_DENY_LIST), |c| Literal { c, escaped: true }),
            ))(input);
        }
        let denied = match kind {
            LiteralKind::BracketedCharacterClass => BRACKETED_CHARACTER_CLASS_DENY_LIST,
            LiteralKind::Normal => LITERAL_DENY_LIST,
        };
        let (input, c) = none_of(denied)(input)?;
        Ok((input, Literal { c, escaped: false }))"""),
 ("ps-assert-order-ok", "ok", P, """        map(tag("\\\\b"), |_| AssertionType::WordBoundary),
        map(tag("\\\\B"), |_| AssertionType::NotWordBoundary),""", """        map(tag("\\\\B"), |_| AssertionType::NotWordBoundary),
        nom::combinator::value(AssertionType::WordBoundary, tag("\\\\b")),"""),
 ("ps-atomic-order-ok", "ok", P, """        map(assertion, Ast::Assertion),
        map(character_class, Ast::CharacterClass),""", """        map(character_class, Ast::CharacterClass),
        map(assertion, Ast::Assertion),"""),
 ("ps-atomic-match-ok", "ok", P, """    if let Some(quantifier) = quantifier {
        Ok((
            input,
            Ast::Repetition(Repetition {
                quantifier,
                inner: Rc::new(inner),
            }),
        ))
    } else {
        Ok((input, inner))
    }""", """    let ast = match quantifier {
        None => inner,
        Some(quantifier) => Ast::Repetition(Repetition { quantifier, inner: Rc::new(inner) }),
    };
    Ok((input, ast))"""),
 ("ps-alpha-order-ok", "ok", P, '"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"', '"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"'),
 ("ps-hexdigit1-ok", "ok", P, """    one_of(HEX_DIGIT)(input)""", """    nom::character::complete::satisfy(|c| c.is_ascii_hexdigit())(input)"""),
 ("ps-expr-inline-ok", "ok", P, """    let (input, ast) = alternate_expression(input)?;
    Ok((input, ast))""", """    alternate_expression(input)"""),
 ("ps-parse-match-ok", "ok", P, """    let (_, ast) = regex_pattern(Input::from((input, 0))).map_err(|err| match err {
        nom::Err::Incomplete(_) => ParseError::InvalidSyntax,
        nom::Err::Error(x) => x,
        nom::Err::Failure(x) => x,
    })?;
    Ok(ast)""", """    match regex_pattern(Input { value: input, depth: 0 }) {
        Ok((_, ast)) => Ok(ast),
        Err(nom::Err::Incomplete(_)) => Err(ParseError::InvalidSyntax),
        Err(nom::Err::Error(e) | nom::Err::Failure(e)) => Err(e),
    }"""),
 ("ps-quant-braces-ok", "ok", P, EXACT, EXACT.replace('tag("{")', 'nom::character::complete::char(\'{\')').replace('tag("}")', "nom::character::complete::char('}')")),
 ("ps-name-pair-ok", "ok", P, """recognize(tuple((
        one_of(ASCII_LETTERS_WITH_UNDERSCORE),
        many0(one_of(ASCII_ALPHANUMERIC_WITH_UNDERSCORE)),
    )))(input)?""", """recognize(nom::sequence::pair(
        one_of(ASCII_LETTERS_WITH_UNDERSCORE),
        many0(one_of(ASCII_ALPHANUMERIC_WITH_UNDERSCORE)),
    ))(input)?"""),
 ("ps-prop-iter-ok", "ok", P, "UNICODE_PROPERTY_NAMES.contains(&name.value)", "UNICODE_PROPERTY_NAMES.iter().any(|known| *known == name.value)"),
 ("ps-bracket-order-ok", "ok", P, """    let mut items: Vec<_> = items.into_iter().flatten().collect();
    let (input, _) = tag("]")(input)?;
""", """    let (input, _) = tag("]")(input)?;
    let mut items: Vec<_> = items.into_iter().flatten().collect();
"""),
 ("ps-bracket-prefix-ok", "ok", P, """    let mut items: Vec<_> = items.into_iter().flatten().collect();
    let (input, _) = tag("]")(input)?;

    if closing_bracket.is_some() {
        items.insert(0, BracketCharacterClassItem::Literal(']'));
    }
""", """    let (input, _) = tag("]")(input)?;
    let mut members = Vec::new();
    if closing_bracket.is_some() {
        members.push(BracketCharacterClassItem::Literal(']'));
    }
    members.extend(items.into_iter().flatten());
    let items = members;
"""),
 ("ps-in-with-ok", "ok", I, """    fn take(&self, count: usize) -> Self {
        Self {
            value: self.value.take(count),
            depth: self.depth,
        }
    }""", """    fn take(&self, count: usize) -> Self {
        Self {
            value: &self.value[..count],
            ..*self
        }
    }"""),
]

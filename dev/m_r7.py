P = "sds/src/parser/regex_parser.rs"
A = "sds/src/normalization/rust_regex_adapter.rs"
def v(tag, name):
    return ('map(tag("%s"), |_| %s)' % (tag, name), 'nom::combinator::value(%s, tag("%s"))' % (name, tag))
def vs(*xs):
    r = []
    for x in xs:
        r += [P, *v(*x)]
    return r
M = [
("r7-all-consuming", "ok", P, """    let (input, ast) = expression(input)?;
    let (input, _) = eof(input)?;
    Ok((input, ast))""", """    nom::combinator::all_consuming(expression)(input)"""),
("r7-terminated", "ok", P, """    let (input, ast) = expression(input)?;
    let (input, _) = eof(input)?;
    Ok((input, ast))""", """    nom::sequence::terminated(expression, eof)(input)"""),
("r7-expr-tail", "ok", P, """    let (input, ast) = alternate_expression(input)?;
    Ok((input, ast))""", """    alternate_expression(input)"""),
("r7-flag-value", "ok", *vs(("i", "Flag::CaseInsensitive"), ("m", "Flag::MultiLine"), ("s", "Flag::DotMatchesNewLine"), ("x", "Flag::IgnoreWhitespace"))),
("r7-perl-value", "ok", *vs(*[("\\\\" + a, "PerlCharacterClass::" + b) for a, b in zip("dswDSW", ["Digit", "Space", "Word", "NonDigit", "NonSpace", "NonWord"])])),
("r7-min-tuple", "ok", P, """    let (input, _) = tag("{")(input)?;
    let (input, min_count) = integer(input)?;
    let (input, _) = tag(",")(input)?;
    let (input, _) = tag("}")(input)?;
    Ok((input, QuantifierKind::RangeMin(min_count)))""", """    let (input, min_count) = delimited(tag("{"), integer, tag(",}"))(input)?;
    Ok((input, QuantifierKind::RangeMin(min_count)))"""),
("r7-single-helper", "ok", P, """    if children.len() == 1 {
        Ok((input, children.first().unwrap().clone()))
    } else {
        Ok((input, Ast::Alternation(children)))
    }""", """    Ok((input, unwrap_single(children, Ast::Alternation)))""", P, """    if children.len() == 1 {
        Ok((input, children.first().unwrap().clone()))
    } else {
        Ok((input, Ast::Concat(children)))
    }
}""", """    Ok((input, unwrap_single(children, Ast::Concat)))
}

fn unwrap_single(mut children: Vec<Ast>, combine: impl FnOnce(Vec<Ast>) -> Ast) -> Ast {
    if children.len() == 1 {
        children.remove(0)
    } else {
        combine(children)
    }
}"""),
("r7-single-pop", "ok", P, """    if children.len() == 1 {
        Ok((input, children.first().unwrap().clone()))
    } else {
        Ok((input, Ast::Concat(children)))
    }""", """    let ast = match children.as_slice() {
        [only] => only.clone(),
        _ => Ast::Concat(children),
    };
    Ok((input, ast))"""),
("r7-atomic-map", "ok", P, """    if let Some(quantifier) = quantifier {
        Ok((
            input,
            Ast::Repetition(Repetition {
                quantifier,
                inner: Rc::new(inner),
            }),
        ))
    } else {
        Ok((input, inner))
    }""", """    let ast = match quantifier {
        None => inner,
        Some(quantifier) => {
            let inner = Rc::new(inner);
            Ast::Repetition(Repetition { quantifier, inner })
        }
    };
    Ok((input, ast))"""),
("r7-atomic-pair", "ok", P, """    let (input, inner) = alt((
        quote_expression,""", """    let (input, (inner, quantifier)) = nom::sequence::pair(alt((
        quote_expression,""", P, """        map(literal(LiteralKind::Normal), Ast::Literal),
    ))(input)?;

    let (input, quantifier) = opt(quantifier)(input)?;
""", """        map(literal(LiteralKind::Normal), Ast::Literal),
    )), opt(quantifier))(input)?;

"""),
("r7-quant-lazy", "ok", P, """    let (input, lazy) = opt(tag("?"))(input)?;
    Ok((
        input,
        Quantifier {
            lazy: lazy.is_some(),
            kind,
        },
    ))""", """    let (input, lazy) = map(opt(tag("?")), |question_mark| question_mark.is_some())(input)?;
    Ok((input, Quantifier { lazy, kind }))"""),
("r7-cc-direct", "ok", P, """        map(bracket_character_class, |class| {
            CharacterClass::Bracket(class)
        }),
        map(perl_character_class, CharacterClass::Perl),
        map(unicode_property_class, |class| {
            CharacterClass::UnicodeProperty(class)
        }),
    ))(input)""", """        map(bracket_character_class, CharacterClass::Bracket),
        map(perl_character_class, CharacterClass::Perl),
        map(unicode_property_class, CharacterClass::UnicodeProperty),
    ))(input)"""),
("r7-up-name-early", "ok", P, """    if UNICODE_PROPERTY_NAMES.contains(&name.value) {
        Ok((input, name.value))
    } else {
        Err(nom::Err::Error(ParseError::InvalidSyntax))
    }""", """    if !UNICODE_PROPERTY_NAMES.contains(&name.value) {
        return Err(nom::Err::Error(ParseError::InvalidSyntax));
    }
    Ok((input, name.value))"""),
("r7-flagsexpr-delim", "ok", P, """    let (input, _) = tag("(?")(input)?;
    let (input, flags) = flags(input)?;
    let (input, _) = tag(")")(input)?;
    Ok((input, flags))""", """    delimited(tag("(?"), flags, tag(")"))(input)"""),
("r7-group-early", "ok", P, """    match result {
        Ok((mut input, group)) => {
            input.depth -= 1;
            Ok((input, group))
        }
        Err(err) => Err(err),
    }""", """    let (mut remaining, group) = result?;
    remaining.depth -= 1;
    Ok((remaining, group))"""),
("r7-group-copy", "ok", P, """fn group(mut input: Input) -> ParseResult<Group> {
    input.depth += 1;
    if input.depth > RECURSION_LIMIT {
        return Err(nom::Err::Failure(ParseError::ExceededDepthLimit));
    }""", """fn group(mut input: Input) -> ParseResult<Group> {
    if input.depth >= RECURSION_LIMIT {
        return Err(nom::Err::Failure(ParseError::ExceededDepthLimit));
    }
    input.depth += 1;"""),
("r7-named-inner", "ok", P, """    let (input, (_, name, _, inner, _)) = alt((
        tuple((
            alt((tag("(?<"), tag("(?P<"))),
            capture_group_name,
            tag(">"),
            expression,
            tag(")"),
        )),
        tuple((
            tag("(?'"),
            capture_group_name,
            tag("'"),
            expression,
            tag(")"),
        )),
    ))(input)?;
""", """    let (input, name) = alt((
        delimited(alt((tag("(?<"), tag("(?P<"))), capture_group_name, tag(">")),
        delimited(tag("(?'"), capture_group_name, tag("'")),
    ))(input)?;
    let (input, inner) = expression(input)?;
    let (input, _) = tag(")")(input)?;
"""),
("r7-noncap-split", "ok", P, """    let (input, _) = tag("(?")(input)?;
    let (input, flags) = flags(input)?;
    let (input, _) = tag(":")(input)?;
    let (input, inner) = expression(input)?;
    let (input, _) = tag(")")(input)?;

    Ok((input, NonCapturingGroup { flags, inner }))""", """    let (input, flags) = delimited(tag("(?"), flags, tag(":"))(input)?;
    let (input, inner) = nom::sequence::terminated(expression, tag(")"))(input)?;
    Ok((input, NonCapturingGroup { inner, flags }))"""),
("r7-flags-default", "ok", P, """            remove: remove.map(|x| x.1).unwrap_or(vec![]),""", """            remove: remove.map(|(_, flags)| flags).unwrap_or_default(),"""),
("r7-flags-mapor", "ok", P, """            remove: remove.map(|x| x.1).unwrap_or(vec![]),""", """            remove: match remove {
                Some((_, removed)) => removed,
                None => Vec::new(),
            },"""),
("r7-bracket-build", "ok", P, """    let mut items: Vec<_> = items.into_iter().flatten().collect();
    let (input, _) = tag("]")(input)?;

    if closing_bracket.is_some() {
        items.insert(0, BracketCharacterClassItem::Literal(']'));
    }
""", """    let (input, _) = tag("]")(input)?;

    let leading = closing_bracket.map(|_| BracketCharacterClassItem::Literal(']'));
    let items: Vec<_> = leading
        .into_iter()
        .chain(items.into_iter().flatten())
        .collect();
"""),
("r7-quoted-delim", "ok", P, """    let (input, _) = tag("\\\\Q")(input)?;
    let (input, literals) = take_until("\\\\E")(input)?;
    let (input, _) = tag("\\\\E")(input)?;
    Ok((input, literals.value.chars().collect()))""", """    let (input, quoted) = delimited(tag("\\\\Q"), take_until("\\\\E"), tag("\\\\E"))(input)?;
    Ok((input, quoted.value.chars().collect()))"""),
("r7-range-seppair", "ok", P, """    let (input, start) = literal(LiteralKind::BracketedCharacterClass)(input)?;
    let (input, _) = tag("-")(input)?;
    let (input, end) = literal(LiteralKind::BracketedCharacterClass)(input)?;
    Ok((input, BracketCharacterClassItem::Range(start.c, end.c)))""", """    map(
        tuple((
            literal(LiteralKind::BracketedCharacterClass),
            tag("-"),
            literal(LiteralKind::BracketedCharacterClass),
        )),
        |(start, _, end)| BracketCharacterClassItem::Range(start.c, end.c),
    )(input)"""),
("r7-hex-split", "ok", P, """    let hex_value = if has_brace {
        u32::from_str_radix(hex_string.value, 16)
            .map_err(|_| nom::Err::Failure(ParseError::InvalidSyntax))?
    } else {
        // this will only be invalid if it's empty (which means 0)
        u32::from_str_radix(hex_string.value, 16).unwrap_or(0)
    };
    let c = char::from_u32(hex_value).ok_or(nom::Err::Failure(ParseError::InvalidSyntax))?;
    Ok((input, c))""", """    let parsed = u32::from_str_radix(hex_string.value, 16);
    let hex_value = match parsed {
        Ok(value) => value,
        Err(_) if has_brace => return Err(nom::Err::Failure(ParseError::InvalidSyntax)),
        Err(_) => 0,
    };
    match char::from_u32(hex_value) {
        Some(c) => Ok((input, c)),
        None => Err(nom::Err::Failure(ParseError::InvalidSyntax)),
    }"""),
("r7-lit-deny", "ok", P, """            let (input, c) = match kind {
                LiteralKind::BracketedCharacterClass => {
                    none_of(BRACKETED_CHARACTER_CLASS_DENY_LIST)(input)?
                }
                LiteralKind::Normal => none_of(LITERAL_DENY_LIST)(input)?,
            };
            Ok((input, Literal { c, escaped: false }))""", """            let deny_list = match kind {
                LiteralKind::BracketedCharacterClass => BRACKETED_CHARACTER_CLASS_DENY_LIST,
                LiteralKind::Normal => LITERAL_DENY_LIST,
            };
            map(none_of(deny_list), |c| Literal { c, escaped: false })(input)"""),
("r7-lit-fn", "ok", P, """            alt((
                escaped_literal,
                map(none_of(ESCAPED_LITERAL_DENY_LIST), |c| Literal {
                    c,
                    escaped: true,
                }),
            ))(input)
        } else {""", """            escaped_char(input)
        } else {""", P, """fn escaped_literal(input: Input)""", """fn escaped_char(input: Input) -> ParseResult<Literal> {
    alt((
        escaped_literal,
        map(none_of(ESCAPED_LITERAL_DENY_LIST), |c| Literal {
            c,
            escaped: true,
        }),
    ))(input)
}

fn escaped_literal(input: Input)"""),
("r7-int-match", "ok", P, """    let value =
        u32::from_str(digits.value).map_err(|_| nom::Err::Error(ParseError::InvalidSyntax))?;
    Ok((input, value))""", """    match digits.value.parse::<u32>() {
        Ok(value) => Ok((input, value)),
        Err(_) => Err(nom::Err::Error(ParseError::InvalidSyntax)),
    }"""),
("r7-int-take", "ok", P, """    let (input, digits) = digit1(input)?;
    let value""", """    let (input, digits) = nom::bytes::complete::take_while1(|c: char| c.is_ascii_digit())(input)?;
    let value"""),
("r7-name-map", "ok", P, """    let (input, value) = recognize(tuple((
        one_of(ASCII_LETTERS_WITH_UNDERSCORE),
        many0(one_of(ASCII_ALPHANUMERIC_WITH_UNDERSCORE)),
    )))(input)?;

    Ok((input, value.value))""", """    map(
        recognize(tuple((
            one_of(ASCII_LETTERS_WITH_UNDERSCORE),
            many0(one_of(ASCII_ALPHANUMERIC_WITH_UNDERSCORE)),
        ))),
        |name: Input| name.value,
    )(input)"""),
("r7-ctrl-u8", "ok", P, """    let control_char = char::from_u32((c.to_ascii_lowercase() as u32) - ('a' as u32) + 1).unwrap();
    Ok((input, control_char))""", """    let letter_index = c.to_ascii_uppercase() as u32 - 'A' as u32;
    let control_char = char::from_u32(letter_index + 1).unwrap();
    Ok((input, control_char))"""),
("r7-ascii-value", "ok", P, """map(tag("alnum"), |_| AsciiClassKind::Alnum)""", """nom::combinator::value(AsciiClassKind::Alnum, tag("alnum"))"""),
("r7-ascii-name", "ok", P, """    let (input, negated) = opt(tag("^"))(input)?;
    let (input, ascii_class_kind) = alt((""", """    let (input, negated) = opt(tag("^"))(input)?;
    let (input, ascii_class_kind) = ascii_class_kind(input)?;
    let (input, _) = tag(":]")(input)?;
    Ok((
        input,
        BracketCharacterClassItem::AsciiClass(AsciiClass {
            negated: negated.is_some(),
            kind: ascii_class_kind,
        }),
    ))
}

fn ascii_class_kind(input: Input) -> ParseResult<AsciiClassKind> {
    alt((""", P, """        map(tag("xdigit"), |_| AsciiClassKind::Xdigit),
    ))(input)?;
    let (input, _) = tag(":]")(input)?;
    Ok((
        input,
        BracketCharacterClassItem::AsciiClass(AsciiClass {
            negated: negated.is_some(),
            kind: ascii_class_kind,
        }),
    ))
}""", """        map(tag("xdigit"), |_| AsciiClassKind::Xdigit),
    ))(input)
}"""),
("r7-parse-q", "ok", P, """    let (_, ast) = regex_pattern(Input::from((input, 0))).map_err(|err| match err {
        nom::Err::Incomplete(_) => ParseError::InvalidSyntax,
        nom::Err::Error(x) => x,
        nom::Err::Failure(x) => x,
    })?;
    Ok(ast)""", """    regex_pattern(Input::from((input, 0)))
        .map(|(_, ast)| ast)
        .map_err(|err| match err {
            nom::Err::Error(error) | nom::Err::Failure(error) => error,
            nom::Err::Incomplete(_) => ParseError::InvalidSyntax,
        })"""),
("r7-quote-iter", "ok", P, """    let literals = literals
        .into_iter()
        .map(|c| Ast::Literal(Literal { c, escaped: true }))
        .collect::<Vec<_>>();
    let ast = match literals.len() {
        0 => Ast::Empty,
        1 => literals.first().unwrap().clone(),
        _ => Ast::Concat(literals),
    };""", """    let to_literal = |c: &char| Ast::Literal(Literal { c: *c, escaped: true });
    let ast = match literals.as_slice() {
        [] => Ast::Empty,
        [single] => to_literal(single),
        many => Ast::Concat(many.iter().map(to_literal).collect()),
    };"""),
]

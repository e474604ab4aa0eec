S = []
RP = "sds/src/parser/regex_parser.rs"
S.append(dict(id="c02-depth-siblings", prop="C02",
  needs="a pattern with more than fifty groups side by side",
  breaks="the nesting level is not given back when a group closes, so many groups in a row count as deep nesting and the pattern is refused",
  edits=[(RP, "        Ok((mut input, group)) => {\n            input.depth -= 1;\n            Ok((input, group))\n        }\n        Err(err) => Err(err),\n", "        Ok((input, group)) => Ok((input, group)),\n        Err(err) => Err(err),\n")],
  demo='''use crate::validate_regex;
#[test]
fn groups_side_by_side_are_not_nested() {
    assert_eq!(validate_regex(&"(a)".repeat(49)), Ok(()));
    assert_eq!(validate_regex(&"(a)".repeat(120)), Ok(()));
}
'''))
S.append(dict(id="c02-huge-count", prop="C02",
  needs="braces around a number that does not fit in 32 bits",
  breaks="such braces are read as a quantifier with the largest count instead of as literal text, so a valid pattern is refused",
  edits=[(RP, "u32::from_str(digits.value).map_err(|_| nom::Err::Error(ParseError::InvalidSyntax))?", "u32::from_str(digits.value).unwrap_or(u32::MAX)")],
  demo='''use crate::validation::validate_and_create_regex;
#[test]
fn braces_that_are_no_quantifier_are_text() {
    let re = validate_and_create_regex("a{99999999999}").unwrap();
    assert!(re.is_match("a{99999999999}"));
    assert!(validate_and_create_regex("a{2}").unwrap().is_match("aa"));
}
'''))

//! The pattern grammar: which texts are patterns, and the tree each one stands for.
use crate::adapter::*;
use crate::property_names::PROPERTY_NAMES;
use nom::branch::alt;
use nom::bytes::complete::{tag, take_until};
use nom::character::complete::{digit1, none_of, one_of};
use nom::combinator::{eof, map, opt, recognize, value};
use nom::error::ErrorKind;
use nom::multi::{many0, many1, many_m_n, separated_list1};
use nom::sequence::{delimited, preceded, terminated, tuple};
use nom::{
    Compare, CompareResult, FindSubstring, InputIter, InputLength, InputTake, Needed, Offset, Slice,
    UnspecializedInput,
};
use std::ops::{RangeFrom, RangeTo};
use std::rc::Rc;
use std::str::{CharIndices, Chars, FromStr};

const LIMIT: usize = 50;
const LETTERS: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
const NAME_START: &str = "_ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
const NAME_REST: &str = "_0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
const HEX: &str = "0123456789abcdefABCDEF";
const NEVER_ESCAPED: &str = "0123456789ABCEGKLNPQRUXZcgklopuxz";

#[derive(Copy, Clone, Debug)]
pub struct Input<'a> {
    pub value: &'a str,
    pub depth: usize,
}

impl<'a> Input<'a> {
    fn with(&self, value: &'a str) -> Self {
        Input { value, depth: self.depth }
    }
}

impl<'a> InputLength for Input<'a> {
    fn input_len(&self) -> usize {
        self.value.input_len()
    }
}

impl<'a> InputTake for Input<'a> {
    fn take(&self, count: usize) -> Self {
        self.with(self.value.take(count))
    }
    fn take_split(&self, count: usize) -> (Self, Self) {
        let (rest, taken) = self.value.take_split(count);
        (self.with(rest), self.with(taken))
    }
}

impl<'a> InputIter for Input<'a> {
    type Item = char;
    type Iter = CharIndices<'a>;
    type IterElem = Chars<'a>;
    fn iter_indices(&self) -> Self::Iter {
        self.value.iter_indices()
    }
    fn iter_elements(&self) -> Self::IterElem {
        self.value.iter_elements()
    }
    fn position<P: Fn(char) -> bool>(&self, predicate: P) -> Option<usize> {
        self.value.position(predicate)
    }
    fn slice_index(&self, count: usize) -> Result<usize, Needed> {
        self.value.slice_index(count)
    }
}

impl<'a> UnspecializedInput for Input<'a> {}

impl<'a> Compare<&'a str> for Input<'a> {
    fn compare(&self, t: &'a str) -> CompareResult {
        self.value.compare(t)
    }
    fn compare_no_case(&self, t: &'a str) -> CompareResult {
        self.value.compare_no_case(t)
    }
}

impl<'a> From<(&'a str, usize)> for Input<'a> {
    fn from(x: (&'a str, usize)) -> Self {
        Input { value: x.0, depth: x.1 }
    }
}

impl<'a> Slice<RangeFrom<usize>> for Input<'a> {
    fn slice(&self, range: RangeFrom<usize>) -> Self {
        self.with(self.value.slice(range))
    }
}

impl<'a> Slice<RangeTo<usize>> for Input<'a> {
    fn slice(&self, range: RangeTo<usize>) -> Self {
        self.with(self.value.slice(range))
    }
}

impl<'a> Offset for Input<'a> {
    fn offset(&self, second: &Self) -> usize {
        self.value.offset(second.value)
    }
}

impl<'a> FindSubstring<&'a str> for Input<'a> {
    fn find_substring(&self, substr: &'a str) -> Option<usize> {
        self.value.find_substring(substr)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum ParseError {
    InvalidSyntax,
    ExceededDepthLimit,
    ExceededQuantifierLimit,
}

impl<'a> nom::error::ParseError<Input<'a>> for ParseError {
    fn from_error_kind(_: Input<'a>, _: ErrorKind) -> Self {
        ParseError::InvalidSyntax
    }
    fn append(_: Input<'a>, _: ErrorKind, other: Self) -> Self {
        other
    }
}

type R<'a, T> = nom::IResult<Input<'a>, T, ParseError>;

fn syntax<T>() -> Result<T, nom::Err<ParseError>> {
    Err(nom::Err::Error(ParseError::InvalidSyntax))
}

/// Without this backtracking the whole text is rejected.
fn fatal<T>() -> Result<T, nom::Err<ParseError>> {
    Err(nom::Err::Failure(ParseError::InvalidSyntax))
}

pub fn parse_regex_pattern(input: &str) -> Result<Ast, ParseError> {
    match regex_pattern(Input { value: input, depth: 0 }) {
        Ok((_, ast)) => Ok(ast),
        Err(nom::Err::Incomplete(_)) => Err(ParseError::InvalidSyntax),
        Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => Err(e),
    }
}

pub fn regex_pattern(input: Input) -> R<Ast> {
    terminated(expression, eof)(input)
}

pub fn expression(input: Input) -> R<Ast> {
    alternate_expression(input)
}

/// Alternatives between bars, each possibly empty.
pub fn alternate_expression(input: Input) -> R<Ast> {
    let (rest, parts) = separated_list1(tag("|"), opt(concat_expression))(input)?;
    let parts: Vec<Ast> = parts.into_iter().map(|p| p.unwrap_or(Ast::Empty)).collect();
    let ast = if parts.len() == 1 { parts[0].clone() } else { Ast::Alternation(parts) };
    Ok((rest, ast))
}

pub fn concat_expression(input: Input) -> R<Ast> {
    let (rest, parts) = many1(atomic)(input)?;
    let ast = if parts.len() == 1 { parts[0].clone() } else { Ast::Concat(parts) };
    Ok((rest, ast))
}

pub fn atomic(input: Input) -> R<Ast> {
    let (rest, inner) = alt((
        quote_expression,
        map(flags_expression, Ast::Flags),
        map(group, |g| Ast::Group(Rc::new(g))),
        map(assertion, Ast::Assertion),
        map(character_class, Ast::CharacterClass),
        map(literal(LiteralKind::Normal), Ast::Literal),
    ))(input)?;
    let (rest, q) = opt(quantifier)(rest)?;
    Ok((
        rest,
        match q {
            None => inner,
            Some(quantifier) => Ast::Repetition(Repetition { quantifier, inner: Rc::new(inner) }),
        },
    ))
}

/// `\Q...\E`
pub fn quote_expression(input: Input) -> R<Ast> {
    let (rest, chars) = quoted_literals(input)?;
    let parts: Vec<Ast> = chars.into_iter().map(|c| Ast::Literal(Literal { c, escaped: true })).collect();
    let ast = if parts.len() == 0 {
        Ast::Empty
    } else if parts.len() == 1 {
        parts[0].clone()
    } else {
        Ast::Concat(parts)
    };
    Ok((rest, ast))
}

pub fn quoted_literals(input: Input) -> R<Vec<char>> {
    let (rest, inside) = delimited(tag("\\Q"), take_until("\\E"), tag("\\E"))(input)?;
    Ok((rest, inside.value.chars().collect()))
}

pub fn quantifier(input: Input) -> R<Quantifier> {
    let (rest, kind) = alt((
        value(QuantifierKind::ZeroOrMore, tag("*")),
        value(QuantifierKind::OneOrMore, tag("+")),
        value(QuantifierKind::ZeroOrOne, tag("?")),
        quantifier_range_exact,
        quantifier_range_min_max,
        quantifier_range_min,
    ))(input)?;
    let (rest, lazy) = opt(tag("?"))(rest)?;
    Ok((rest, Quantifier { lazy: lazy.is_some(), kind }))
}

pub fn quantifier_range_exact(input: Input) -> R<QuantifierKind> {
    map(delimited(tag("{"), integer, tag("}")), QuantifierKind::RangeExact)(input)
}

pub fn quantifier_range_min_max(input: Input) -> R<QuantifierKind> {
    map(tuple((tag("{"), integer, tag(","), integer, tag("}"))), |x| QuantifierKind::RangeMinMax(x.1, x.3))(input)
}

pub fn quantifier_range_min(input: Input) -> R<QuantifierKind> {
    map(delimited(tag("{"), integer, tag(",}")), QuantifierKind::RangeMin)(input)
}

pub fn integer(input: Input) -> R<u32> {
    let (rest, digits) = digit1(input)?;
    match u32::from_str(digits.value) {
        Ok(n) => Ok((rest, n)),
        Err(_) => syntax(),
    }
}

pub fn assertion(input: Input) -> R<AssertionType> {
    alt((
        value(AssertionType::StartLine, tag("^")),
        value(AssertionType::EndLine, tag("$")),
        value(AssertionType::WordBoundary, tag("\\b")),
        value(AssertionType::NotWordBoundary, tag("\\B")),
        value(AssertionType::StartText, tag("\\A")),
        value(AssertionType::EndText, tag("\\z")),
        value(AssertionType::EndTextOptionalNewline, tag("\\Z")),
    ))(input)
}

pub fn character_class(input: Input) -> R<CharacterClass> {
    alt((
        value(CharacterClass::Dot, tag(".")),
        value(CharacterClass::HorizontalWhitespace, tag("\\h")),
        value(CharacterClass::NotHorizontalWhitespace, tag("\\H")),
        value(CharacterClass::VerticalWhitespace, tag("\\v")),
        value(CharacterClass::NotVerticalWhitespace, tag("\\V")),
        map(bracket_character_class, CharacterClass::Bracket),
        map(perl_character_class, CharacterClass::Perl),
        map(unicode_property_class, CharacterClass::UnicodeProperty),
    ))(input)
}

pub fn perl_character_class(input: Input) -> R<PerlCharacterClass> {
    alt((
        value(PerlCharacterClass::Digit, tag("\\d")),
        value(PerlCharacterClass::NonDigit, tag("\\D")),
        value(PerlCharacterClass::Space, tag("\\s")),
        value(PerlCharacterClass::NonSpace, tag("\\S")),
        value(PerlCharacterClass::Word, tag("\\w")),
        value(PerlCharacterClass::NonWord, tag("\\W")),
    ))(input)
}

pub fn unicode_property_class(input: Input) -> R<UnicodePropertyClass> {
    let (rest, negate) = alt((value(false, tag("\\p{")), value(true, tag("\\P{"))))(input)?;
    let (rest, name) = unicode_property_name(rest)?;
    let (rest, _) = tag("}")(rest)?;
    Ok((rest, UnicodePropertyClass { negate, name: name.to_string() }))
}

pub fn unicode_property_name(input: Input) -> R<&str> {
    let (rest, name) = recognize(many0(one_of(NAME_START)))(input)?;
    if PROPERTY_NAMES.contains(&name.value) {
        Ok((rest, name.value))
    } else {
        syntax()
    }
}

/// `(?i-s)`
pub fn flags_expression(input: Input) -> R<Flags> {
    delimited(tag("(?"), flags, tag(")"))(input)
}

pub fn flags(input: Input) -> R<Flags> {
    let (rest, add) = many0(flag)(input)?;
    let (rest, remove) = opt(preceded(tag("-"), many0(flag)))(rest)?;
    Ok((rest, Flags { add, remove: remove.unwrap_or(vec![]) }))
}

pub fn flag(input: Input) -> R<Flag> {
    alt((
        value(Flag::CaseInsensitive, tag("i")),
        value(Flag::MultiLine, tag("m")),
        value(Flag::DotMatchesNewLine, tag("s")),
        value(Flag::IgnoreWhitespace, tag("x")),
    ))(input)
}

/// One level deeper inside than outside.
pub fn group(input: Input) -> R<Group> {
    if input.depth >= LIMIT {
        return Err(nom::Err::Failure(ParseError::ExceededDepthLimit));
    }
    let inside = Input { value: input.value, depth: input.depth + 1 };
    let (rest, g) = alt((
        map(non_capturing_group, Group::NonCapturing),
        map(capture_group, Group::Capturing),
        map(named_capture_group, Group::NamedCapturing),
    ))(inside)?;
    Ok((Input { value: rest.value, depth: rest.depth - 1 }, g))
}

pub fn capture_group(input: Input) -> R<CaptureGroup> {
    let (rest, inner) = delimited(tag("("), expression, tag(")"))(input)?;
    Ok((rest, CaptureGroup { inner }))
}

pub fn non_capturing_group(input: Input) -> R<NonCapturingGroup> {
    let (rest, (_, flags, _, inner, _)) = tuple((tag("(?"), flags, tag(":"), expression, tag(")")))(input)?;
    Ok((rest, NonCapturingGroup { flags, inner }))
}

pub fn named_capture_group(input: Input) -> R<NamedCapturingGroup> {
    let (rest, (_, name, _, inner, _)) = alt((
        tuple((alt((tag("(?<"), tag("(?P<"))), capture_group_name, tag(">"), expression, tag(")"))),
        tuple((tag("(?'"), capture_group_name, tag("'"), expression, tag(")"))),
    ))(input)?;
    Ok((rest, NamedCapturingGroup { name: name.to_string(), inner }))
}

pub fn capture_group_name(input: Input) -> R<&str> {
    let (rest, name) = recognize(tuple((one_of(NAME_START), many0(one_of(NAME_REST)))))(input)?;
    Ok((rest, name.value))
}

/// `[...]`: a closing bracket is a member only in the first place; there is at least one member
pub fn bracket_character_class(input: Input) -> R<BracketCharacterClass> {
    let (rest, _) = tag("[")(input)?;
    let (rest, negated) = opt(tag("^"))(rest)?;
    let (rest, first) = opt(tag("]"))(rest)?;
    let (rest, items) = many0(bracket_character_class_item)(rest)?;
    let (rest, _) = tag("]")(rest)?;
    let mut items: Vec<BracketCharacterClassItem> = items.into_iter().flatten().collect();
    if first.is_some() {
        items.insert(0, BracketCharacterClassItem::Literal(']'));
    }
    if items.is_empty() {
        return syntax();
    }
    Ok((rest, BracketCharacterClass { negated: negated.is_some(), items }))
}

pub fn bracket_character_class_item(input: Input) -> R<Vec<BracketCharacterClassItem>> {
    use BracketCharacterClassItem as Item;
    alt((
        map(perl_character_class, |c| vec![Item::PerlCharacterClass(c)]),
        map(tag("\\h"), |_| vec![Item::HorizontalWhitespace]),
        map(tag("\\H"), |_| vec![Item::NotHorizontalWhitespace]),
        map(tag("\\v"), |_| vec![Item::VerticalWhitespace]),
        map(tag("\\V"), |_| vec![Item::NotVerticalWhitespace]),
        bracket_character_class_quoted_literals,
        map(bracket_character_class_ascii_class, |i| vec![i]),
        map(bracket_character_class_item_range, |i| vec![i]),
        map(bracket_character_class_item_literal, |i| vec![i]),
    ))(input)
}

pub fn bracket_character_class_quoted_literals(input: Input) -> R<Vec<BracketCharacterClassItem>> {
    map(quoted_literals, |cs| cs.into_iter().map(BracketCharacterClassItem::Literal).collect())(input)
}

/// `[:^alpha:]`
pub fn bracket_character_class_ascii_class(input: Input) -> R<BracketCharacterClassItem> {
    let (rest, _) = tag("[:")(input)?;
    let (rest, negated) = opt(tag("^"))(rest)?;
    let (rest, kind) = alt((
        value(AsciiClassKind::Alnum, tag("alnum")),
        value(AsciiClassKind::Alpha, tag("alpha")),
        value(AsciiClassKind::Ascii, tag("ascii")),
        value(AsciiClassKind::Blank, tag("blank")),
        value(AsciiClassKind::Cntrl, tag("cntrl")),
        value(AsciiClassKind::Digit, tag("digit")),
        value(AsciiClassKind::Graph, tag("graph")),
        value(AsciiClassKind::Lower, tag("lower")),
        value(AsciiClassKind::Print, tag("print")),
        value(AsciiClassKind::Punct, tag("punct")),
        value(AsciiClassKind::Space, tag("space")),
        value(AsciiClassKind::Upper, tag("upper")),
        value(AsciiClassKind::Word, tag("word")),
        value(AsciiClassKind::Xdigit, tag("xdigit")),
    ))(rest)?;
    let (rest, _) = tag(":]")(rest)?;
    Ok((rest, BracketCharacterClassItem::AsciiClass(AsciiClass { negated: negated.is_some(), kind })))
}

pub fn bracket_character_class_item_literal(input: Input) -> R<BracketCharacterClassItem> {
    alt((
        map(literal(LiteralKind::BracketedCharacterClass), |l| BracketCharacterClassItem::Literal(l.c)),
        map(perl_character_class, BracketCharacterClassItem::PerlCharacterClass),
        map(unicode_property_class, BracketCharacterClassItem::UnicodeProperty),
    ))(input)
}

pub fn bracket_character_class_item_range(input: Input) -> R<BracketCharacterClassItem> {
    let (rest, from) = literal(LiteralKind::BracketedCharacterClass)(input)?;
    let (rest, _) = tag("-")(rest)?;
    let (rest, to) = literal(LiteralKind::BracketedCharacterClass)(rest)?;
    Ok((rest, BracketCharacterClassItem::Range(from.c, to.c)))
}

pub enum LiteralKind {
    BracketedCharacterClass,
    Normal,
}

pub fn literal(kind: LiteralKind) -> impl FnMut(Input) -> R<Literal> {
    move |input: Input| {
        let (rest, backslash) = opt(tag("\\"))(input)?;
        if backslash.is_some() {
            let (rest, l) = alt((escaped_literal, map(none_of(NEVER_ESCAPED), |c| Literal { c, escaped: true })))(rest)?;
            return Ok((rest, l));
        }
        let (rest, c) = match kind {
            LiteralKind::BracketedCharacterClass => none_of("]")(rest)?,
            LiteralKind::Normal => none_of("$()*+.?[^|")(rest)?,
        };
        Ok((rest, Literal { c, escaped: false }))
    }
}

pub fn escaped_literal(input: Input) -> R<Literal> {
    let (rest, c) = alt((
        escaped_control_sequence,
        value('\u{7}', tag("a")),
        value('\u{8}', tag("b")),
        value('\u{1B}', tag("e")),
        value('\u{C}', tag("f")),
        value('\u{A}', tag("n")),
        value('\u{D}', tag("r")),
        value('\u{9}', tag("t")),
        value('\u{B}', tag("v")),
        hex_escaped_literal,
    ))(input)?;
    Ok((rest, Literal { c, escaped: true }))
}

/// `\cA` is U+0001, and so on, in either case
pub fn escaped_control_sequence(input: Input) -> R<char> {
    let (rest, c) = preceded(tag("c"), one_of(LETTERS))(input)?;
    Ok((rest, char::from_u32((c.to_ascii_lowercase() as u32) - 97 + 1).unwrap()))
}

/// `\x{...}` must be a character; `\x` takes at most two digits, none meaning zero
pub fn hex_escaped_literal(input: Input) -> R<char> {
    let (rest, (braces, hex)) = alt((
        map(tuple((tag("x{"), recognize(take_until("}")), tag("}"))), |x| (true, x.1)),
        map(tuple((tag("x"), recognize(many_m_n(0, 2, hex_digit)))), |x| (false, x.1)),
    ))(input)?;
    let n = match u32::from_str_radix(hex.value, 16) {
        Ok(n) => n,
        Err(_) if !braces => 0,
        Err(_) => return fatal(),
    };
    match char::from_u32(n) {
        Some(c) => Ok((rest, c)),
        None => fatal(),
    }
}

pub fn hex_digit(input: Input) -> R<char> {
    one_of(HEX)(input)
}

SV = "sds/src/secondary_validation/"
SE, PA, MS = "sds/src/simple_event.rs", "sds/src/path.rs", "sds/src/match_validation/match_status.rs"
K = "sds/src/proximity_keywords/"
SR, ST = "sds/src/scoped_ruleset/mod.rs", "sds/src/stats.rs"
BS = "sds/src/scoped_ruleset/bool_set.rs"
LUHN = open("/repo/" + SV + "luhn_checksum.rs").read().split("    fn is_valid_match")[1].split("\n    }\n}")[0]
LUHN = "    fn is_valid_match" + LUHN
CN = open("/repo/" + SV + "chinese_id_checksum.rs").read()
CNS = "        let mut sum = 0;\n" + CN.split("        let mut sum = 0;\n")[1].split("\n        // Compute the checksum")[0]
CNC = "        let checksum = match" + CN.split("        let checksum = match")[1].split("\n        // Compare")[0]
CNL = "        regex_match\n            .chars()" + CN.split("        regex_match\n            .chars()")[1].split("\n    }\n}")[0]
NHS = open("/repo/" + SV + "nhs_check_digit.rs").read()
NHL = "        while let Some(digit)" + NHS.split("        while let Some(digit)")[1].split("\n        if nb_digit != 10")[0]
NHE = "        // Divide the total_sum" + NHS.split("        // Divide the total_sum")[1].split("\n    }\n}")[0]
NIR = open("/repo/" + SV + "nir_checksum.rs").read()
NIG = "    let mut total: i64 = 0;" + NIR.split("    let mut total: i64 = 0;")[1].split("\n}\n")[0]
NIV = "        let digit = get_next_digit_chars" + NIR.split("        let digit = get_next_digit_chars")[1].split("\n    }\n}")[0]
GH = open("/repo/" + SV + "github_token_checksum.rs").read()
GHB = "        let parts: Vec<&str>" + GH.split("        let parts: Vec<&str>")[1].split("\n    }\n}")[0]
IB = open("/repo/" + SV + "iban_checker.rs").read()
IBE = "        let iban = iban_candidate" + IB.split("        let iban = iban_candidate")[1].split("\n    }\n}")[0]
JW = open("/repo/" + SV + "jwt_expiration_checker.rs").read()
JWB = "        if let Some((_, payload))" + JW.split("        if let Some((_, payload))")[1].split("\n    }\n}")[0]
JWD = "    let raw_segments: Vec<&str>" + JW.split("    let raw_segments: Vec<&str>")[1].split("\n}\n")[0]
M = [
 ("r-luhn-idx", "ok", SV + "luhn_checksum.rs", LUHN, """    fn is_valid_match(&self, regex_match: &str) -> bool {
        let mut input_iter = regex_match.chars();
        let Some(checksum) = get_previous_digit(&mut input_iter) else {
            return false;
        };
        let mut sum: u32 = 0;
        let mut position = 0usize;
        while let Some(digit) = get_previous_digit(&mut input_iter) {
            sum += if position % 2 == 1 {
                digit
            } else {
                let doubled = digit * 2;
                if doubled > 9 { doubled - 9 } else { doubled }
            };
            position += 1;
        }
        (10 - (sum % 10)) % 10 == checksum"""),
 ("r-luhn-helper", "ok", SV + "luhn_checksum.rs", LUHN, """    fn is_valid_match(&self, regex_match: &str) -> bool {
        let mut input_iter = regex_match.chars();
        match get_previous_digit(&mut input_iter) {
            Some(checksum) => expected_check_digit(&mut input_iter) == checksum,
            None => false,
        }""", SV + "luhn_checksum.rs", "impl Validator for", """fn double_digit(digit: u32) -> u32 {
    match digit {
        0..=4 => digit * 2,
        _ => digit * 2 - 9,
    }
}

fn expected_check_digit(input_iter: &mut std::str::Chars<'_>) -> u32 {
    let mut sum: u32 = 0;
    let mut double = true;
    while let Some(digit) = get_previous_digit(input_iter) {
        sum += if double { double_digit(digit) } else { digit };
        double = !double;
    }
    (10 - (sum % 10)) % 10
}

impl Validator for"""),
 ("r-luhn-loop", "ok", SV + "luhn_checksum.rs", "            while let Some(digit) = get_previous_digit(&mut input_iter) {", "            loop {\n                let digit = match get_previous_digit(&mut input_iter) {\n                    Some(digit) => digit,\n                    None => break,\n                };"),
 ("r-luhn-table", "ok", SV + "luhn_checksum.rs", """                } else if digit > 4 {
                    sum += digit * 2 - 9;
                } else {
                    sum += digit * 2
                }""", """                } else {
                    sum += [0, 2, 4, 6, 8, 1, 3, 5, 7, 9][digit as usize];
                }"""),
 ("r-luhn-divmod", "ok", SV + "luhn_checksum.rs", """                } else if digit > 4 {
                    sum += digit * 2 - 9;
                } else {
                    sum += digit * 2
                }""", """                } else {
                    let doubled = digit * 2;
                    sum += doubled / 10 + doubled % 10;
                }"""),
 ("r-luhn-fromfn", "ok", SV + "luhn_checksum.rs", LUHN, """    fn is_valid_match(&self, regex_match: &str) -> bool {
        let mut digits = regex_match.chars().rev().filter_map(|c| c.to_digit(10));
        let checksum = match digits.next() {
            Some(d) => d,
            None => return false,
        };
        let sum: u32 = digits
            .enumerate()
            .map(|(i, d)| {
                if i % 2 == 0 {
                    if d > 4 { d * 2 - 9 } else { d * 2 }
                } else {
                    d
                }
            })
            .sum();
        (10 - (sum % 10)) % 10 == checksum""",
  SV + "luhn_checksum.rs", "use crate::secondary_validation::{get_previous_digit, Validator};", "use crate::secondary_validation::Validator;"),
 ("r-luhn-check-all", "ok", SV + "luhn_checksum.rs", "return (10 - (sum % 10)) % 10 == checksum;", "return (sum + checksum) % 10 == 0;"),
 ("r-luhn-check-bad", "C21", SV + "luhn_checksum.rs", "return (10 - (sum % 10)) % 10 == checksum;", "return (sum + checksum) % 10 == 0 || sum == 0;"),
 ("r-cn-fold", "ok", SV + "chinese_id_checksum.rs", CNS, """        let mut sum = 0;
        let mut chars = regex_match.chars();
        for coefficient in CHINESE_ID_COEFFICIENTS {
            match chars.next().and_then(|c| c.to_digit(10)) {
                Some(x) => sum += coefficient * x as i32,
                None => return false,
            }
        }
"""),
 ("r-cn-idx", "ok", SV + "chinese_id_checksum.rs", CNS, """        let mut sum = 0;
        let mut idx = 0;
        for c in regex_match.chars().take(CHINESE_ID_LENGTH - 1) {
            let Some(x) = c.to_digit(10) else {
                return false;
            };
            sum += CHINESE_ID_COEFFICIENTS[idx] * (x as i32);
            idx += 1;
        }
"""),
 ("r-cn-helper", "ok", SV + "chinese_id_checksum.rs", CNS, """        let sum = match weighted_sum(regex_match) {
            Some(sum) => sum,
            None => return false,
        };
""", SV + "chinese_id_checksum.rs", "impl Validator for", """fn weighted_sum(id: &str) -> Option<i32> {
    let mut sum = 0;
    for (idx, c) in id.chars().take(CHINESE_ID_LENGTH - 1).enumerate() {
        let x = c.to_digit(10)?;
        sum += CHINESE_ID_COEFFICIENTS[idx] * x as i32;
    }
    Some(sum)
}

impl Validator for"""),
 ("r-cn-tryfold", "ok", SV + "chinese_id_checksum.rs", CNS, """        let sum = regex_match
            .chars()
            .zip(CHINESE_ID_COEFFICIENTS)
            .try_fold(0, |acc, (c, coefficient)| {
                c.to_digit(10).map(|x| acc + coefficient * x as i32)
            });
        let Some(sum) = sum else {
            return false;
        };
"""),
 ("r-cn-table", "ok", SV + "chinese_id_checksum.rs", CNC, """        const CHECKSUMS: [char; 11] = ['1', '0', 'X', '9', '8', '7', '6', '5', '4', '3', '2'];
        let checksum = CHECKSUMS[(sum % 11) as usize];
"""),
 ("r-cn-fromdigit", "ok", SV + "chinese_id_checksum.rs", CNC, """        let remainder = sum % 11;
        let checksum = if remainder == 2 {
            'X'
        } else {
            char::from_digit(((12 - remainder) % 11) as u32, 10).unwrap()
        };
"""),
 ("r-cn-last", "ok", SV + "chinese_id_checksum.rs", CNL, """        let last = regex_match.chars().last().unwrap();
        last.to_ascii_uppercase() == checksum"""),
 ("r-cn-lastmap", "ok", SV + "chinese_id_checksum.rs", CNL, """        regex_match
            .chars()
            .next_back()
            .map(|c| c.to_ascii_uppercase())
            == Some(checksum)"""),
 ("r-cn-eqic", "ok", SV + "chinese_id_checksum.rs", CNL, """        regex_match.ends_with(checksum) || regex_match.ends_with(checksum.to_ascii_lowercase())"""),
 ("r-nhs-reorder", "ok", SV + "nhs_check_digit.rs", NHL, """        while let Some(digit) = get_previous_digit(&mut input_iter) {
            if nb_digit > 10 {
                return false;
            }
            if nb_digit >= 9 {
                check_digit = digit;
            } else {
                total_sum += digit * nhs_multiplier_from_number_idx(nb_digit);
            }
            nb_digit += 1;
        }
"""),
 ("r-nhs-match", "ok", SV + "nhs_check_digit.rs", NHE, """        match 11 - total_sum % 11 {
            10 => false,
            11 => check_digit == 0,
            identifier => identifier == check_digit,
        }"""),
 ("r-nhs-mult", "ok", SV + "nhs_check_digit.rs", "    11 - ((index + 1) as u32)", "    10 - index as u32"),
 ("r-nhs-table", "ok", SV + "nhs_check_digit.rs", "    11 - ((index + 1) as u32)", "    const WEIGHTS: [u32; 9] = [10, 9, 8, 7, 6, 5, 4, 3, 2];\n    WEIGHTS[index]"),
 ("r-nhs-bool", "ok", SV + "nhs_check_digit.rs", NHE, """        let remainder = total_sum % 11;
        let identifier = if remainder == 0 { 0 } else { 11 - remainder };
        identifier != 10 && identifier == check_digit"""),
 ("r-nhs-limit", "ok", SV + "nhs_check_digit.rs", "            if nb_digit > 10 {", "            if nb_digit >= 10 {"),
 ("r-nir-fold", "ok", SV + "nir_checksum.rs", NIG, """    (0..size).try_fold(0i64, |total, _| {
        get_next_digit(chars).map(|digit| total * 10 + digit as i64)
    })"""),
 ("r-nir-q", "ok", SV + "nir_checksum.rs", NIG, """    let mut total = 0i64;
    let mut remaining = size;
    while remaining > 0 {
        let digit = get_next_digit(chars)?;
        total = total * 10 + i64::from(digit);
        remaining -= 1;
    }
    Some(total)"""),
 ("r-nir-let", "ok", SV + "nir_checksum.rs", NIV, """        let (Some(digits), Some(checksum)) = (
            get_next_digit_chars(&mut input_iter, 13),
            get_next_digit_chars(&mut input_iter, 2),
        ) else {
            return false;
        };
        if get_next_digit(&mut input_iter).is_some() {
            return false;
        }
        97 - digits % 97 == checksum"""),
 ("r-nir-andthen", "ok", SV + "nir_checksum.rs", NIV, """        get_next_digit_chars(&mut input_iter, 13)
            .zip(get_next_digit_chars(&mut input_iter, 2))
            .is_some_and(|(digits, checksum)| {
                get_next_digit(&mut input_iter).is_none() && (97 - digits % 97) == checksum
            })"""),
 ("r-gh-rsplit", "ok", SV + "github_token_checksum.rs", GHB, """        let Some((_, last_part)) = regex_match.rsplit_once('_') else {
            return false;
        };
        if last_part.len() <= 6 || !last_part.chars().all(|c| c.is_ascii_alphanumeric()) {
            return false;
        }
        let (payload, checksum) = last_part.split_at(last_part.len() - 6);
        let computed = base62::encode(crc32fast::hash(payload.as_bytes()));
        format!("{:0>6}", computed) == checksum"""),
 ("r-gh-helper", "ok", SV + "github_token_checksum.rs", GHB, """        let mut parts = regex_match.rsplit('_');
        let last_part = parts.next().unwrap_or("");
        if parts.next().is_none() {
            return false;
        }
        is_base62(last_part) && last_part.len() > 6 && has_valid_checksum(last_part)""", SV + "github_token_checksum.rs", "impl Validator for", """fn is_base62(s: &str) -> bool {
    !s.chars().any(|c| !c.is_ascii_alphanumeric())
}

fn has_valid_checksum(s: &str) -> bool {
    let split = s.len() - 6;
    let crc = crc32fast::hash(s[..split].as_bytes());
    let expected = format!("{:0>6}", base62::encode(crc));
    expected.as_str() == &s[split..]
}

impl Validator for"""),
 ("r-iban-isok", "ok", SV + "iban_checker.rs", IBE, "        iban_candidate.parse::<Iban>().is_ok()"),
 ("r-iban-match", "ok", SV + "iban_checker.rs", IBE, "        matches!(Iban::from_str(&iban_candidate), Ok(_))", SV + "iban_checker.rs", "use iban::Iban;", "use iban::Iban;\nuse std::str::FromStr;"),
 ("r-iban-retain", "ok", SV + "iban_checker.rs", """        let iban_candidate: String = regex_match
            .chars()
            .filter(|c| c.is_alphanumeric())
            .collect();""", """        let mut iban_candidate = regex_match.to_string();
        iban_candidate.retain(|c| c.is_alphanumeric());"""),
 ("r-iban-replace", "ok", SV + "iban_checker.rs", """        let iban_candidate: String = regex_match
            .chars()
            .filter(|c| c.is_alphanumeric())
            .collect();""", """        let iban_candidate = regex_match.replace(|c: char| !c.is_alphanumeric(), "");"""),
 ("r-jwt-early", "ok", SV + "jwt_expiration_checker.rs", JWB, """        let Some((_, payload)) = decode_segments(regex_match) else {
            return false;
        };
        let Some(exp) = payload.get("exp") else {
            return true;
        };
        match exp.as_i64() {
            Some(exp) => Utc::now().timestamp() < exp,
            None => false,
        }"""),
 ("r-jwt-mapor", "ok", SV + "jwt_expiration_checker.rs", JWB, """        match decode_segments(regex_match) {
            None => false,
            Some((_, payload)) => payload.get("exp").map_or(true, |exp| {
                exp.as_i64().is_some_and(|exp| exp > Utc::now().timestamp())
            }),
        }"""),
 ("r-jwt-splititer", "ok", SV + "jwt_expiration_checker.rs", JWD, """    let mut segments = encoded_token.split('.');
    let header_segment = segments.next()?;
    let payload_segment = segments.next()?;
    segments.next()?;
    if segments.next().is_some() {
        return None;
    }
    Some((decode_segment(header_segment)?, decode_segment(payload_segment)?))"""),
 ("r-jwt-arr", "ok", SV + "jwt_expiration_checker.rs", JWD, """    let raw_segments: Vec<&str> = encoded_token.split(".").collect();
    match raw_segments[..] {
        [header, payload, _signature] => {
            let header_json = decode_segment(header)?;
            let payload_json = decode_segment(payload)?;
            Some((header_json, payload_json))
        }
        _ => None,
    }"""),
 ("r-jwt-seg", "ok", SV + "jwt_expiration_checker.rs", """    URL_SAFE_NO_PAD
        .decode(segment)
        .ok()
        .and_then(|decoded| serde_json::from_slice(&decoded).ok())""", """    let decoded = URL_SAFE_NO_PAD.decode(segment).ok()?;
    serde_json::from_slice(&decoded).ok()"""),
 ("r-prev-rev-find", "ok", SV + "mod.rs", """    while let Some(char) = chars.next_back() {
        if let Some(digit) = char.to_digit(10) {
            return Some(digit);
        }
    }
    None""", "    chars.rev().find_map(|c| c.to_digit(10))"),
 ("r-disp-dyn", "ok", SV + "mod.rs", """            SecondaryValidator::LuhnChecksum => LuhnChecksum.is_valid_match(regex_match),
            SecondaryValidator::ChineseIdChecksum => ChineseIdChecksum.is_valid_match(regex_match),
            SecondaryValidator::GithubTokenChecksum => {
                GithubTokenChecksum.is_valid_match(regex_match)
            }
            SecondaryValidator::NhsCheckDigit => NhsCheckDigit.is_valid_match(regex_match),
            SecondaryValidator::IbanChecker => IbanChecker.is_valid_match(regex_match),
            SecondaryValidator::NirChecksum => NirChecksum.is_valid_match(regex_match),
            SecondaryValidator::JwtExpirationChecker => {
                JwtExpirationChecker.is_valid_match(regex_match)
            }
        }""", """            SecondaryValidator::LuhnChecksum => &LuhnChecksum as &dyn Validator,
            SecondaryValidator::ChineseIdChecksum => &ChineseIdChecksum,
            SecondaryValidator::GithubTokenChecksum => &GithubTokenChecksum,
            SecondaryValidator::NhsCheckDigit => &NhsCheckDigit,
            SecondaryValidator::IbanChecker => &IbanChecker,
            SecondaryValidator::NirChecksum => &NirChecksum,
            SecondaryValidator::JwtExpirationChecker => &JwtExpirationChecker,
        }
        .is_valid_match(regex_match)"""),
]

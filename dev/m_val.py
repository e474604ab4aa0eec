D = "sds/src/secondary_validation/"
L, C, N, R, G, I, J, M0 = [D + x + ".rs" for x in ("luhn_checksum", "chinese_id_checksum", "nhs_check_digit", "nir_checksum", "github_token_checksum", "iban_checker", "jwt_expiration_checker", "mod")]
LB = """            let mut sum: u32 = 0;
            let mut is_odd = false;
            while let Some(digit) = get_previous_digit(&mut input_iter) {
                if is_odd {
                    sum += digit
                } else if digit > 4 {
                    sum += digit * 2 - 9;
                } else {
                    sum += digit * 2
                }
                is_odd = !is_odd;
            }
            return (10 - (sum % 10)) % 10 == checksum;"""
M = [
 ("luhn-4", "C21", L, "digit > 4", "digit > 5"),
 ("luhn-mod", "C21", L, "(10 - (sum % 10)) % 10 == checksum", "(10 - (sum % 10)) == checksum"),
 ("luhn-flip", "C21", L, "is_odd = !is_odd;", "is_odd = !is_odd || digit == 0;"),
 ("luhn-9", "C21", L, "digit * 2 - 9", "digit * 2 - 10"),
 ("digit-prev", "C21", M0, """    while let Some(char) = chars.next_back() {
        if let Some(digit) = char.to_digit(10) {""", """    while let Some(char) = chars.next_back() {
        if let Some(digit) = char.to_digit(10).filter(|d| *d != 9) {"""),
 ("digit-stop", "C21", M0, """    while let Some(char) = chars.next_back() {
        if let Some(digit) = char.to_digit(10) {
            return Some(digit);
        }
    }""", """    while let Some(char) = chars.next_back() {
        if let Some(digit) = char.to_digit(10) {
            return Some(digit);
        }
        if char == '/' { return None; }
    }"""),
 ("digit-next-hex", "C21", M0, """    for char in chars.by_ref() {
        if let Some(digit) = char.to_digit(10) {""", """    for char in chars.by_ref() {
        if let Some(digit) = char.to_digit(16) {"""),
 ("cn-coef", "C21", C, "&[7, 9, 10, 5, 8, 4, 2, 1, 6, 3, 7, 9, 10, 5, 8, 4, 2]", "&[7, 9, 10, 5, 8, 4, 2, 1, 6, 3, 7, 9, 10, 8, 5, 4, 2]"),
 ("cn-len", "C21", C, "take(CHINESE_ID_LENGTH - 1)", "take(CHINESE_ID_LENGTH - 2)"),
 ("cn-x", "C21", C, "2 => 'X',", "2 => 'Y',"),
 ("cn-upper", "C21", C, "            .to_ascii_uppercase()\n", "            .to_ascii_lowercase()\n"),
 ("cn-chars", "ok", C, "regex_match.len() != CHINESE_ID_LENGTH", "regex_match.chars().count() != CHINESE_ID_LENGTH"),
 ("nhs-9", "C21", N, "nb_digit < 9", "nb_digit < 8"),
 ("nhs-10", "ok", N, "if identifier == 10 {", "if identifier == 12 {"),
 ("nhs-len", "C21", N, "nb_digit != 10", "nb_digit < 10"),
 ("nhs-mul", "C21", N, "11 - ((index + 1) as u32)", "11 - ((index + 2) as u32)"),
 ("nir-13", "C21", R, "get_next_digit_chars(&mut input_iter, 13)", "get_next_digit_chars(&mut input_iter, 12)"),
 ("nir-trail", "C21", R, "checksum.is_none() || get_next_digit(&mut input_iter).is_some()", "checksum.is_none()"),
 ("nir-97", "C21", R, "% 97) == checksum", "% 97) % 97 == checksum"),
 ("nir-i32", "C21", R, "total = total * 10 + digit as i64;", "total = (total * 10) as i32 as i64 + digit as i64;"),
 ("gh-6", "C22", G, "last_part.len() <= 6", "last_part.len() < 6"),
 ("gh-pad", "C22", G, '"{:0>6}"', '"{:1>6}"'),
 ("gh-pad2", "C22", G, 'format!("{:0>6}", base62::encode(computed_checksum))', "base62::encode(computed_checksum)"),
 ("gh-first", "C22", G, "parts.last().unwrap()", "parts.get(1).unwrap()"),
 ("gh-alnum", "C22", G, "c.is_ascii_alphanumeric()", "c.is_alphanumeric()"),
 ("gh-split", "C22", G, "regex_match.split('_')", "regex_match.splitn(3, '_')"),
 ("iban-f", "C22", I, "c.is_alphanumeric()", "c.is_alphabetic()"),
 ("iban-neg", "C22", I, "if iban.is_err() {", "if iban.is_err() && iban_candidate.len() > 4 {"),
 ("jwt-ge", "C22", J, "exp > now", "exp >= now"),
 ("jwt-u64", "C22", J, "exp.as_i64()", "exp.as_f64().map(|x| x as i64)"),
 ("jwt-hdr", "C22", J, "    let header_json = decode_segment(header_segment)?;", "    let header_json = decode_segment(header_segment).unwrap_or_default();"),
 ("jwt-noexp", "C22", J, "                // if there is no expiration claim, we consider it as a valid match\n                true", "                // if there is no expiration claim, we consider it as a valid match\n                payload.get(\"iat\").is_none()"),
 ("jwt-count", "C22", J, "raw_segments.len() != SEGMENTS_COUNT", "raw_segments.len() < SEGMENTS_COUNT"),
 ("jwt-seg", "C22", J, "let payload_segment = raw_segments[1];", "let payload_segment = raw_segments[2];"),
 ("disp-swap", "C21", M0, "SecondaryValidator::NirChecksum => NirChecksum.is_valid_match(regex_match)", "SecondaryValidator::NirChecksum => NhsCheckDigit.is_valid_match(regex_match)"),
 # refactors
 ("luhn-iter-ok", "ok", L, "        let mut input_iter = regex_match.chars();\n\n        if let Some(checksum) = get_previous_digit(&mut input_iter) {\n" + LB, "        let mut digits = regex_match.chars().rev().filter_map(|c| c.to_digit(10));\n\n        if let Some(checksum) = digits.next() {\n" + LB.replace("while let Some(digit) = get_previous_digit(&mut input_iter) {", "for digit in digits {")),
 ("luhn-let-ok", "ok", L, LB, """            let mut sum: u32 = 0;
            let mut double = true;
            while let Some(digit) = get_previous_digit(&mut input_iter) {
                let value = if double { digit * 2 } else { digit };
                sum += if double && digit > 4 { value - 9 } else { value };
                double = !double;
            }
            let expected = (10 - sum % 10) % 10;
            return expected == checksum;"""),
 ("luhn-match-ok", "ok", L, "        if let Some(checksum) = get_previous_digit(&mut input_iter) {\n" + LB + "\n        }\n        false", "        let checksum = match get_previous_digit(&mut input_iter) {\n            Some(d) => d,\n            None => return false,\n        };\n" + LB),
 ("luhn-ge-ok", "ok", L, "digit > 4", "digit >= 5"),
 ("luhn-helper-ok", "ok", L, LB, LB.replace("                if is_odd {\n                    sum += digit\n                } else if digit > 4 {\n                    sum += digit * 2 - 9;\n                } else {\n                    sum += digit * 2\n                }", "                sum += weight(digit, is_odd);").replace("let mut sum: u32 = 0;", "fn weight(d: u32, plain: bool) -> u32 {\n                if plain {\n                    return d;\n                }\n                let twice = d * 2;\n                if twice > 9 {\n                    twice - 9\n                } else {\n                    twice\n                }\n            }\n            let mut sum: u32 = 0;")),
 ("luhn-modeq-ok", "ok", L, "return (10 - (sum % 10)) % 10 == checksum;", "return (sum + checksum) % 10 == 0;"),
 ("luhn-fold-ok", "ok", L, LB, """            let mut is_odd = false;
            let sum: u32 = std::iter::from_fn(|| get_previous_digit(&mut input_iter))
                .map(|digit| {
                    let v = if is_odd { digit } else if digit > 4 { digit * 2 - 9 } else { digit * 2 };
                    is_odd = !is_odd;
                    v
                })
                .sum();
            return (10 - (sum % 10)) % 10 == checksum;"""),
 ("prev-rev-ok", "ok", M0, """    while let Some(char) = chars.next_back() {
        if let Some(digit) = char.to_digit(10) {
            return Some(digit);
        }
    }
    None""", "    chars.rev().find_map(|c| c.to_digit(10))"),
 ("next-findmap-ok", "ok", M0, """    for char in chars.by_ref() {
        if let Some(digit) = char.to_digit(10) {
            return Some(digit);
        }
    }
    None""", "    chars.find_map(|c| c.to_digit(10))"),
 ("next-while-ok", "ok", M0, "    for char in chars.by_ref() {", "    while let Some(char) = chars.next() {"),
 ("prev-loop-ok", "ok", M0, """    while let Some(char) = chars.next_back() {
        if let Some(digit) = char.to_digit(10) {
            return Some(digit);
        }
    }
    None""", """    loop {
        let digit = chars.next_back()?.to_digit(10);
        if digit.is_some() {
            return digit;
        }
    }"""),
 ("cn-zip-ok", "ok", C, """        for (idx, c) in regex_match.chars().take(CHINESE_ID_LENGTH - 1).enumerate() {
            if let Some(x) = c.to_digit(10) {
                sum += CHINESE_ID_COEFFICIENTS[idx] * x as i32;""", """        for (coefficient, c) in CHINESE_ID_COEFFICIENTS.iter().zip(regex_match.chars()) {
            if let Some(x) = c.to_digit(10) {
                sum += coefficient * x as i32;"""),
 ("cn-match-ok", "ok", C, """            if let Some(x) = c.to_digit(10) {
                sum += CHINESE_ID_COEFFICIENTS[idx] * x as i32;
            } else {
                return false;
            }""", """            match c.to_digit(10) {
                None => return false,
                Some(x) => {
                    let weighted = x as i32 * CHINESE_ID_COEFFICIENTS[idx];
                    sum += weighted;
                }
            }"""),
 ("cn-rem-ok", "ok", C, """        let checksum = match sum % 11 {
            0 => '1',
            1 => '0',
            2 => 'X',
            // Convert the remainder to ascii value then to char
            _ => (12 - sum % 11 + '0' as i32) as u8 as char,
        };""", """        let remainder = sum % 11;
        let checksum = if remainder == 2 {
            'X'
        } else if remainder < 2 {
            if remainder == 0 { '1' } else { '0' }
        } else {
            ((12 - remainder) + 48) as u8 as char
        };"""),
 ("cn-last-ok", "ok", C, """        regex_match
            .chars()
            .next_back()
            .unwrap()
            .to_ascii_uppercase()
            == checksum""", """        match regex_match.chars().last() {
            Some(c) => c.to_ascii_uppercase() == checksum,
            None => false,
        }"""),
 ("nhs-inline-ok", "ok", N, "                let multiplier = nhs_multiplier_from_number_idx(nb_digit);\n                total_sum += digit * multiplier;", "                total_sum += digit * (10 - nb_digit as u32);"),
 ("nhs-ret-ok", "ok", N, """            return false;
        } else if identifier == check_digit {
            // If the identifier is equal to the check digit, we know the NHS number is VALID
            return true;
        }
        false""", """            return false;
        }
        identifier == check_digit"""),
 ("nhs-mod-ok", "ok", N, """        let mut identifier = 11 - remainder;

        // The identifier is used to compare against the check digit we extracted earlier
        // If the total is 11, we set the identifier to 0
        if identifier == 11 {
            identifier = 0;
        }
""", """        let identifier = if remainder == 0 { 0 } else { 11 - remainder };
"""),
 ("nhs-rem11-ok", "ok", N, """        let mut identifier = 11 - remainder;

        // The identifier is used to compare against the check digit we extracted earlier
        // If the total is 11, we set the identifier to 0
        if identifier == 11 {
            identifier = 0;
        }
""", """        let identifier = (11 - remainder) % 11;
"""),
 ("nhs-ge-ok", "ok", N, "if nb_digit > 10 {", "if nb_digit >= 11 {"),
 ("nhs-iter-ok", "ok", N, "while let Some(digit) = get_previous_digit(&mut input_iter) {", "for digit in input_iter.by_ref().rev().filter_map(|c| c.to_digit(10)) {"),
 ("nir-match-ok", "ok", R, """        let digit = get_next_digit_chars(&mut input_iter, 13);
        if digit.is_none() {
            return false;
        }

        let checksum = get_next_digit_chars(&mut input_iter, 2);
        if checksum.is_none() || get_next_digit(&mut input_iter).is_some() {
            return false;
        }

        (97 - digit.unwrap() % 97) == checksum.unwrap()""", """        let Some(number) = get_next_digit_chars(&mut input_iter, 13) else {
            return false;
        };
        match get_next_digit_chars(&mut input_iter, 2) {
            Some(key) => get_next_digit(&mut input_iter).is_none() && 97 - number % 97 == key,
            None => false,
        }"""),
 ("nir-q-ok", "ok", R, """        if let Some(digit) = get_next_digit(chars) {
            total = total * 10 + digit as i64;
        } else {
            return None;
        }""", """        let digit = get_next_digit(chars)?;
        total *= 10;
        total += i64::from(digit);"""),
 ("gh-last-ok", "ok", G, """        let parts: Vec<&str> = regex_match.split('_').collect();
        if parts.len() < 2 {
            return false;
        }
        let last_part = parts.last().unwrap();""", """        let last_part = match regex_match.rsplit_once('_') {
            Some((_, last)) => last,
            None => return false,
        };"""),
 ("gh-order-ok", "ok", G, """        // check that last part is only made with base62 chars
        if !last_part.chars().all(|c| c.is_ascii_alphanumeric()) {
            return false;
        }

        // check that last part has more than 6 chars
        if last_part.len() <= 6 {
            return false;
        }
""", """        if last_part.len() <= 6 || last_part.chars().any(|c| !c.is_ascii_alphanumeric()) {
            return false;
        }
"""),
 ("gh-splitat-ok", "ok", G, """        let computed_checksum = crc32fast::hash(last_part[..last_part.len() - 6].as_bytes());""", """        let (payload, _) = last_part.split_at(last_part.len() - 6);
        let computed_checksum = crc32fast::hash(payload.as_bytes());"""),
 ("gh-bytes-ok", "ok", G, "last_part.chars().all(|c| c.is_ascii_alphanumeric())", "last_part.bytes().all(|c| c.is_ascii_alphanumeric())"),
 ("iban-ok", "ok", I, """        if iban.is_err() {
            return false;
        }
        true""", "        iban.is_ok()"),
 ("iban-loop-ok", "ok", I, """        let iban_candidate: String = regex_match
            .chars()
            .filter(|c| c.is_alphanumeric())
            .collect();""", """        let mut iban_candidate = String::with_capacity(regex_match.len());
        for c in regex_match.chars() {
            if !c.is_alphanumeric() {
                continue;
            }
            iban_candidate.push(c);
        }"""),
 ("jwt-match-ok", "ok", J, """        if let Some((_, payload)) = decode_segments(regex_match) {
            if let Some(exp) = payload.get("exp") {
                if let Some(exp) = exp.as_i64() {
                    let now = Utc::now().timestamp();
                    exp > now
                } else {
                    // if the expiration claim is not an integer, we consider it as an invalid match
                    // exp is a reserved claim for NumericDate (https://www.rfc-editor.org/rfc/rfc7519#section-4.1.4)
                    // The NumericDate is the UNIX timestamp (https://www.rfc-editor.org/rfc/rfc7519#section-2)
                    false
                }
            } else {
                // if there is no expiration claim, we consider it as a valid match
                true
            }
        } else {
            // if JWT segments cannot be decoded, the JWT is not well formatted, we consider it as an invalid match
            false
        }""", """        let Some((_, payload)) = decode_segments(regex_match) else {
            return false;
        };
        match payload.get("exp").map(|e| e.as_i64()) {
            None => true,
            Some(None) => false,
            Some(Some(exp)) => Utc::now().timestamp() < exp,
        }"""),
 ("jwt-mapor-ok", "ok", J, """                if let Some(exp) = exp.as_i64() {
                    let now = Utc::now().timestamp();
                    exp > now
                } else {""", """                if let Some(exp) = exp.as_i64() {
                    is_future(exp)
                } else {""", ),
 ("jwt-q-ok", "ok", J, """    URL_SAFE_NO_PAD
        .decode(segment)
        .ok()
        .and_then(|decoded| serde_json::from_slice(&decoded).ok())""", """    let decoded = URL_SAFE_NO_PAD.decode(segment).ok()?;
    serde_json::from_slice(&decoded).ok()"""),
 ("jwt-slice-ok", "ok", J, """    let header_segment = raw_segments[0];
    let payload_segment = raw_segments[1];
    let header_json = decode_segment(header_segment)?;
    let payload_json = decode_segment(payload_segment)?;
    Some((header_json, payload_json))""", """    match (decode_segment(raw_segments[0]), decode_segment(raw_segments[1])) {
        (Some(h), Some(p)) => Some((h, p)),
        _ => None,
    }"""),
]
M = [m for m in M if m[0] != "jwt-mapor-ok"]
SV = "sds/src/secondary_validation/"
M += [("nir-partial", "C21", SV + "nir_checksum.rs", "            return None;", "            return Some(total);"),
 ("nir-zero", "ok", SV + "nir_checksum.rs", "            return None;", "            return Some(0);"),
 ("nir-brk", "C21", SV + "nir_checksum.rs", "            return None;", "            break;"),
 ("nir-brk2", "C21", SV + "nir_checksum.rs", "            return None;", "            if size == 2 { break; }\n            return None;")]

_A = '''            let mut sum: u32 = 0;
            let mut is_odd = false;
            while let Some(digit) = get_previous_digit(&mut input_iter) {
                if is_odd {'''
_B = '''            let mut sum: u8 = 0;
            let mut is_odd = false;
            while let Some(digit) = get_previous_digit(&mut input_iter) {
                let digit = digit as u8;
                if is_odd {'''
M += [("luhn-u8", "C21", L, _A, _B, L, "% 10 == checksum", "% 10 == checksum as u8"),
("luhn-u16", "C21", L, _A, _B.replace("u8", "u16"), L, "% 10 == checksum", "% 10 == checksum as u16"),
("luhn-u64", "ok", L, _A, _B.replace("u8", "u64"), L, "% 10 == checksum", "% 10 == checksum as u64"),
("luhn-u8d", "ok", L, _A, _B.replace("sum: u8", "sum: u32"), L, "sum += digit\n", "sum += digit as u32\n", L, "sum += digit * 2\n", "sum += (digit * 2) as u32\n", L, "sum += digit * 2 - 9", "sum += u32::from(digit * 2 - 9)"),
]

_O="""        while let Some(digit) = get_previous_digit(&mut input_iter) {
            if nb_digit > 10 {
                return false;
            }
"""
_W="""        while nb_digit <= %d {
            let Some(digit) = get_previous_digit(&mut input_iter) else {
                break;
            };
"""
M += [("w-nhs-hdr","ok",N,_O,_W%10),("w-nhs-hdr-bug","C21",N,_O,_W%9),("w-nhs-hdr-11","ok",N,_O,_W%11),
("w-nhs-hdr-mul","C21",N,_O,_W%10,N,"11 - ((index + 1) as u32)","11 - ((index + 2) as u32)"),
("w-nhs-hdr-9","C21",N,_O,_W%10,N,"nb_digit < 9","nb_digit < 8"),
("w-nhs-hdr-len","C21",N,_O,_W%10,N,"nb_digit != 10","nb_digit < 10"),
]

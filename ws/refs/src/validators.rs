//! Checksum validators.
use base64::{engine::general_purpose::URL_SAFE_NO_PAD, Engine};
use serde_json::Value;

/// digits of the text, last one first
fn previous_digit(it: &mut std::str::Chars<'_>) -> Option<u32> {
    while let Some(c) = it.next_back() {
        if c.is_ascii_digit() {
            return Some(c as u32 - 48);
        }
    }
    None
}

fn next_digit(it: &mut std::str::Chars<'_>) -> Option<u32> {
    while let Some(c) = it.next() {
        if c.is_ascii_digit() {
            return Some(c as u32 - 48);
        }
    }
    None
}

pub fn luhn(text: &str) -> bool {
    let mut it = text.chars();
    let check = match previous_digit(&mut it) {
        Some(d) => d,
        None => return false,
    };
    let mut sum = 0u32;
    let mut single = false;
    while let Some(d) = previous_digit(&mut it) {
        if single {
            sum += d;
        } else {
            sum += if d > 4 { d * 2 - 9 } else { d * 2 };
        }
        single = !single;
    }
    (10 - sum % 10) % 10 == check
}

const COEFFICIENTS: &[i32] = &[7, 9, 10, 5, 8, 4, 2, 1, 6, 3, 7, 9, 10, 5, 8, 4, 2];

pub fn chinese_id(text: &str) -> bool {
    if text.len() != 18 {
        return false;
    }
    let mut sum = 0;
    for (i, c) in text.chars().take(17).enumerate() {
        if !c.is_ascii_digit() {
            return false;
        }
        sum += COEFFICIENTS[i] * (c as i32 - 48);
    }
    let r = sum % 11;
    let expected = if r == 0 {
        '1'
    } else if r == 1 {
        '0'
    } else if r == 2 {
        'X'
    } else {
        (12 - r + 48) as u8 as char
    };
    text.chars().next_back().unwrap().to_ascii_uppercase() == expected
}

pub fn nhs(text: &str) -> bool {
    let mut it = text.chars();
    let mut sum = 0;
    let mut n = 0usize;
    let mut check = 0;
    while let Some(d) = previous_digit(&mut it) {
        if n > 10 {
            return false;
        }
        if n < 9 {
            sum += d * (10 - n as u32);
        } else {
            check = d;
        }
        n += 1;
    }
    if n != 10 {
        return false;
    }
    let r = 11 - sum % 11;
    if r == 11 {
        check == 0
    } else if r == 10 {
        false
    } else {
        r == check
    }
}

fn number(it: &mut std::str::Chars<'_>, size: usize) -> Option<i64> {
    let mut n = 0i64;
    for _ in 0..size {
        match next_digit(it) {
            None => return None,
            Some(d) => n = n * 10 + d as i64,
        }
    }
    Some(n)
}

pub fn nir(text: &str) -> bool {
    let mut it = text.chars();
    let n = match number(&mut it, 13) {
        Some(n) => n,
        None => return false,
    };
    let key = match number(&mut it, 2) {
        Some(n) => n,
        None => return false,
    };
    if next_digit(&mut it).is_some() {
        return false;
    }
    97 - n % 97 == key
}

pub fn github(text: &str) -> bool {
    let parts: Vec<&str> = text.split('_').collect();
    if parts.len() < 2 {
        return false;
    }
    let token = parts[parts.len() - 1];
    if !token.chars().all(|c| c.is_ascii_alphanumeric()) || token.len() <= 6 {
        return false;
    }
    let n = token.len() - 6;
    let crc = crc32fast::hash(token[..n].as_bytes());
    format!("{:0>6}", base62::encode(crc)) == token[n..]
}

pub fn iban(text: &str) -> bool {
    let mut s = String::new();
    for c in text.chars() {
        if c.is_alphanumeric() {
            s.push(c);
        }
    }
    s.parse::<iban::Iban>().is_ok()
}

fn segment(s: &str) -> Option<Value> {
    match URL_SAFE_NO_PAD.decode(s) {
        Ok(bytes) => match serde_json::from_slice(&bytes) {
            Ok(v) => Some(v),
            Err(_) => None,
        },
        Err(_) => None,
    }
}

pub fn jwt(text: &str) -> bool {
    let parts: Vec<&str> = text.split(".").collect();
    if parts.len() != 3 {
        return false;
    }
    if segment(parts[0]).is_none() {
        return false;
    }
    let claims = match segment(parts[1]) {
        Some(p) => p,
        None => return false,
    };
    match claims.get("exp") {
        None => true,
        Some(e) => match e.as_i64() {
            None => false,
            Some(t) => t > chrono::Utc::now().timestamp(),
        },
    }
}

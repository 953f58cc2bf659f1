//! C15: escaped SQL text denotes exactly the original value.
use mc::{
    stored::{double_bits, float_bits},
    Chooser, Level,
};
use mysql_connector::types::{IdentifierEscape, StringEscape, UnquotedIdentifierEscape, Value};
use num::{bigint::BigInt, rational::Ratio, BigUint, Zero};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

const CTRL_Z: &str = "StringEscape: U+001A is escaped as \\z";

/// Reads a single string literal by the lexical rules of MySQL (sql_lex.cc, get_text).
fn lex_string(x: &str) -> Result<String, String> {
    let mut it = x.chars().peekable();
    let quote = match it.next() {
        Some(q @ ('"' | '\'')) => q,
        _ => return Err("no quote".into()),
    };
    let mut out = String::new();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some('r') => out.push('\r'),
                Some('b') => out.push('\u{8}'),
                Some('0') => out.push('\0'),
                Some('Z') => out.push('\u{1A}'),
                Some(c @ ('_' | '%')) => {
                    out.push('\\');
                    out.push(c);
                }
                Some(c) => out.push(c),
                None => return Err("ends with a backslash".into()),
            }
        } else if c == quote {
            if it.peek() == Some(&quote) {
                it.next();
                out.push(quote);
            } else if it.peek().is_none() {
                return Ok(out);
            } else {
                return Err(format!("ends early, before {:?}", it.collect::<String>()));
            }
        } else {
            out.push(c);
        }
    }
    Err("does not end".into())
}

fn check_string(s: &str, ch: &mut Chooser) -> Result<(), String> {
    ch.steps(1);
    let text = StringEscape(s).to_string();
    match lex_string(&text) {
        Ok(x) if x == s => Ok(()),
        Ok(x) if s.contains('\u{1A}') && x == s.replace('\u{1A}', "z") => {
            ch.known(CTRL_Z);
            Ok(())
        }
        x => Err(format!("{s:?} is written as {text:?}, which is read as {x:?}")),
    }
}

fn lex_identifier(x: &str) -> Result<String, String> {
    let mut it = x.chars().peekable();
    if it.next() != Some('`') {
        return Err("no quote".into());
    }
    let mut out = String::new();
    while let Some(c) = it.next() {
        if c == '`' {
            if it.peek() == Some(&'`') {
                it.next();
                out.push('`');
            } else if it.peek().is_none() {
                return Ok(out);
            } else {
                return Err(format!("ends early, before {:?}", it.collect::<String>()));
            }
        } else if c == '\0' || c > '\u{FFFF}' {
            return Err(format!("{c:?} is not permitted"));
        } else {
            out.push(c);
        }
    }
    Err("does not end".into())
}

fn check_identifier(s: &str, ch: &mut Chooser) -> Result<(), String> {
    ch.steps(1);
    let text = IdentifierEscape(s).to_string();
    let want: String = s.chars().filter(|c| ('\u{1}'..='\u{FFFF}').contains(c)).collect();
    let want = want.trim_end();
    match lex_identifier(&text) {
        Ok(x) if x == want => {}
        x => return Err(format!("{s:?} is quoted as {text:?}, which is read as {x:?} instead of {want:?}")),
    }
    let text = UnquotedIdentifierEscape(s).to_string();
    let want: String = s
        .chars()
        .filter(|c| c.is_ascii_alphanumeric() || *c == '_' || *c == '$' || ('\u{80}'..='\u{FFFF}').contains(c))
        .collect();
    if text != want {
        return Err(format!("{s:?} is unquoted as {text:?} instead of {want:?}"));
    }
    Ok(())
}

/// Digits of a numeric literal: mantissa, exponent of ten, whether it is a double (has an exponent).
fn lex_number(x: &str) -> Result<(BigInt, i64, bool), String> {
    let (neg, t) = match x.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, x),
    };
    let (m, e) = match t.split_once(['e', 'E']) {
        Some((m, e)) => {
            let d = e.strip_prefix(['+', '-']).unwrap_or(e);
            if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
                return Err("bad exponent".into());
            }
            (m, Some(e.parse::<i64>().map_err(|e| e.to_string())?))
        }
        None => (t, None),
    };
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    if a.is_empty() && b.is_empty() || !a.bytes().chain(b.bytes()).all(|c| c.is_ascii_digit()) {
        return Err("not a number".into());
    }
    if e.is_none() && (a.len() + b.len() > 65 || b.len() > 30) {
        return Err(format!("{} digits, {} of them after the point, are too many for a decimal", a.len() + b.len(), b.len()));
    }
    let digits = BigUint::parse_bytes(format!("{a}{b}").as_bytes(), 10).unwrap();
    let mut digits = BigInt::from(digits);
    if neg {
        digits = -digits;
    }
    Ok((digits, e.unwrap_or(0) - b.len() as i64, e.is_some()))
}

fn ratio(m: &BigInt, e: i64) -> Ratio<BigInt> {
    let p = num::pow(BigInt::from(10), e.unsigned_abs() as usize);
    if e >= 0 {
        Ratio::from_integer(m * p)
    } else {
        Ratio::new(m.clone(), p)
    }
}

/// The floating point number denoted by a literal is the nearest one.
fn check_float(text: &str, x: f64, single: bool) -> Result<(), String> {
    let (m, e, _) = lex_number(text)?;
    if x == 0.0 {
        return if m.is_zero() { Ok(()) } else { Err("is not zero".into()) };
    }
    // nearest: |literal - x| is at most half of the distance to both neighbours
    let lit = ratio(&m, e);
    let exact = |f: f64| Ratio::<BigInt>::from_float(f).unwrap();
    let (down, up) = if single {
        let b = (x as f32).to_bits();
        let next = |d: i32| f32::from_bits(b.wrapping_add_signed(d));
        (next(-1) as f64, next(1) as f64)
    } else {
        let b = x.to_bits();
        let next = |d: i64| f64::from_bits(b.wrapping_add_signed(d));
        (next(-1), next(1))
    };
    let me = exact(x);
    let dist = |a: &Ratio<BigInt>| {
        let d = a - &me;
        if d < Ratio::zero() {
            -d
        } else {
            d
        }
    };
    let off = dist(&lit);
    for n in [down, up] {
        let n = if n.is_finite() {
            n
        } else {
            // beyond the greatest one: the step below it
            let other = if n.is_sign_positive() == up.is_sign_positive() && up.is_finite() { up } else { down };
            2.0 * x - other
        };
        // only the neighbour on the side of the literal matters
        if !n.is_finite() || (exact(n) > me) != (lit > me) {
            continue;
        }
        if &off * BigInt::from(2) > dist(&exact(n)) {
            return Err(format!("denotes another number than {x:e}"));
        }
    }
    Ok(())
}

fn digits(x: &str, n: std::ops::RangeInclusive<usize>) -> Result<u64, String> {
    if n.contains(&x.len()) && x.bytes().all(|c| c.is_ascii_digit()) {
        Ok(x.parse().unwrap())
    } else {
        Err(format!("{x:?} instead of digits"))
    }
}

fn parse_time(t: &str, hours: usize) -> Result<(u64, u64, u64, u64), String> {
    let (t, f) = t.split_once('.').unwrap_or((t, "0"));
    let p: Vec<&str> = t.split(':').collect();
    if p.len() != 3 {
        return Err("not a time".into());
    }
    let us = digits(f, 1..=6)? * 10u64.pow(6 - f.len() as u32);
    Ok((digits(p[0], 2..=hours)?, digits(p[1], 2..=2)?, digits(p[2], 2..=2)?, us))
}

fn parse_date(t: &str) -> Result<(u64, u64, u64), String> {
    let p: Vec<&str> = t.split('-').collect();
    if p.len() != 3 {
        return Err("not a date".into());
    }
    Ok((digits(p[0], 4..=4)?, digits(p[1], 2..=2)?, digits(p[2], 2..=2)?))
}

fn check_value(v: &Value, ch: &mut Chooser) -> Result<(), String> {
    ch.steps(1);
    let text = v.to_string();
    let judge = || -> Result<(), String> {
        let int = |x: i128| {
            let (m, e, double) = lex_number(&text)?;
            if double || e != 0 || m != BigInt::from(x) {
                return Err("is another number".to_owned());
            }
            Ok(())
        };
        match v {
            Value::Null if text.eq_ignore_ascii_case("null") => Ok(()),
            Value::Null => Err("is not NULL".into()),
            Value::Tiny(x) => int(*x as i128),
            Value::Short(x) => int(*x as i128),
            Value::Int(x) => int(*x as i128),
            Value::Long(x) => int(*x as i128),
            Value::UTiny(x) => int(*x as i128),
            Value::UShort(x) => int(*x as i128),
            Value::UInt(x) => int(*x as i128),
            Value::ULong(x) => int(*x as i128),
            Value::Float(x) => check_float(&text, *x as f64, true),
            Value::Double(x) => check_float(&text, *x, false),
            Value::Bytes(x) => {
                let d = if let Some(d) = text.strip_prefix("0x") {
                    if d.is_empty() {
                        return Err("is an identifier".into());
                    }
                    d
                } else {
                    text.strip_prefix("X'")
                        .or(text.strip_prefix("x'"))
                        .and_then(|x| x.strip_suffix('\''))
                        .ok_or("is not hexadecimal")?
                };
                // a form with an odd number of digits has a leading zero in MySQL, or is an error
                if d.len() != 2 * x.len() {
                    return Err("has another length".into());
                }
                for (i, b) in x.iter().enumerate() {
                    if u8::from_str_radix(&d[2 * i..2 * i + 2], 16) != Ok(*b) {
                        return Err(format!("differs at {i}"));
                    }
                }
                Ok(())
            }
            Value::Date(y, m, d) => {
                let t = lex_string(&text)?;
                match parse_date(&t)? == (*y as u64, *m as u64, *d as u64) {
                    true => Ok(()),
                    false => Err("is another date".into()),
                }
            }
            Value::Datetime(y, mo, d, h, mi, s, us) => {
                let t = lex_string(&text)?;
                let (a, b) = t.split_once([' ', 'T']).ok_or("no time")?;
                match parse_date(a)? == (*y as u64, *mo as u64, *d as u64)
                    && parse_time(b, 2)? == (*h as u64, *mi as u64, *s as u64, *us as u64)
                {
                    true => Ok(()),
                    false => Err("is another datetime".into()),
                }
            }
            Value::Time(n, d, h, m, s, us) => {
                let t = lex_string(&text)?;
                let (neg, t) = match t.strip_prefix('-') {
                    Some(t) => (true, t),
                    None => (false, &*t),
                };
                let p = parse_time(t, 12)?;
                match p == (*d as u64 * 24 + *h as u64, *m as u64, *s as u64, *us as u64) && (neg == *n || p == (0, 0, 0, 0)) {
                    true => Ok(()),
                    false => Err("is another time".into()),
                }
            }
        }
    };
    judge().map_err(|e| format!("{v:?} is displayed as {text}, which {e}"))
}

/// Everything that is special to any of the writers or to MySQL, and some that is not.
const SPECIAL: [char; 22] = [
    'a', 'z', 'n', '0', '\\', '"', '\'', '`', '\0', '\u{8}', '\n', '\r', '\t', '\u{1A}', '%', '_', ' ', '$', 'é', '\u{FFFF}', '\u{10000}',
    '\u{3000}',
];

fn main() {
    mc::main(
        "C15",
        Level {
            level: "exploration",
            rule: "every enumerated string and value is written by the real code and read back by independent implementations of \
                   MySQL's lexical rules for string literals, identifiers, numbers, hexadecimal and temporal literals",
            assumptions: &[
                "sql_mode without NO_BACKSLASH_ESCAPES and ANSI_QUOTES",
                "infinities, NaN and dates outside 0000-9999 have no literal in MySQL",
            ],
        },
        |run| {
            run.each(
                "single characters",
                "every Unicode character alone, before and after a letter, a space, a quote of each kind and a backslash, doubled",
                0x110,
                |i, ch| {
                    for c in (i as u32) << 12..(i as u32 + 1) << 12 {
                        let Some(c) = char::from_u32(c) else { continue };
                        let mut all = vec![c.to_string(), format!("{c}{c}")];
                        for o in ['a', ' ', '"', '\'', '`', '\\'] {
                            all.push(format!("{c}{o}"));
                            all.push(format!("{o}{c}"));
                        }
                        for s in all {
                            check_string(&s, ch)?;
                            check_identifier(&s, ch)?;
                        }
                    }
                    Ok(())
                },
            );
            let depth = run.by(4, 5);
            run.space(
                "special characters",
                &format!("every string of up to {depth} of 22 characters special to MySQL or to the escaping"),
                |ch| {
                    fn rec(s: &mut String, left: usize, ch: &mut Chooser) -> Result<(), String> {
                        check_string(s, ch)?;
                        check_identifier(s, ch)?;
                        if left > 0 {
                            for c in SPECIAL {
                                s.push(c);
                                rec(s, left - 1, ch)?;
                                s.pop();
                            }
                        }
                        Ok(())
                    }
                    check_string("", ch)?;
                    check_identifier("", ch)?;
                    let mut s = ch.pick(&SPECIAL).to_string();
                    s.push(*ch.pick(&SPECIAL));
                    check_string(&s[..s.chars().next().unwrap().len_utf8()], ch)?;
                    check_identifier(&s[..s.chars().next().unwrap().len_utf8()], ch)?;
                    rec(&mut s, depth - 2, ch)
                },
            );
            let depth = run.by(9, 12);
            run.space(
                "quotes and backslashes",
                &format!("every string of up to {depth} of quotes, backslash and a letter"),
                |ch| {
                    fn rec(s: &mut String, left: usize, ch: &mut Chooser) -> Result<(), String> {
                        check_string(s, ch)?;
                        if left > 0 {
                            for c in ['"', '\\', '\'', 'n'] {
                                s.push(c);
                                rec(s, left - 1, ch)?;
                                s.pop();
                            }
                        }
                        Ok(())
                    }
                    let mut s = String::new();
                    for _ in 0..4 {
                        s.push(*ch.pick(&['"', '\\', '\'', 'n']));
                    }
                    rec(&mut s, depth - 4, ch)
                },
            );
            let mut lengths: Vec<usize> = (0..=300).collect();
            for b in 9..=run.by(16, 19) {
                lengths.extend((1 << b) - 2..=(1 << b) + 2);
            }
            run.each(
                "lengths",
                "strings, byte strings and identifiers of every length up to 300 and around powers of 2 up to 64 KB (thorough: 512 KB), \
                 of letters, digits, multi byte or special characters, with another one first, in the middle, last or everywhere but \
                 there",
                lengths.len(),
                |i, ch| {
                    let n = lengths[i];
                    for a in ['a', '0', '"', '\\', '`', '\'', '\n', ' ', '\0', 'é', '\u{1F600}'] {
                        for b in ['a', '"', '\\', '`', '\0', ' ', '\u{FFFF}'] {
                            for at in [0, n / 2, n.saturating_sub(1), n] {
                                let s: String = (0..n).map(|k| if k == at { b } else { a }).collect();
                                check_string(&s, ch)?;
                                check_identifier(&s, ch)?;
                                if b == 'a' && at == 0 {
                                    check_value(&Value::Bytes(s.into_bytes()), ch)?;
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
            run.each(
                "spaces in identifiers",
                "every string of up to 8 of space, tab, ideographic space, a letter, NUL, an astral character",
                36,
                |i, ch| {
                    const C: [char; 6] = [' ', 'a', '\u{3000}', '\0', '\u{1F600}', '\t'];
                    fn rec(s: &mut String, left: usize, ch: &mut Chooser) -> Result<(), String> {
                        check_identifier(s, ch)?;
                        if left > 0 {
                            for c in C {
                                s.push(c);
                                rec(s, left - 1, ch)?;
                                s.pop();
                            }
                        }
                        Ok(())
                    }
                    rec(&mut format!("{}{}", C[i / 6], C[i % 6]), 6, ch)
                },
            );
            run.each("integers", "all of 8 and 16 bits, all around powers of 2 and 10 of 32 and 64 bits; NULL", 5, |i, ch| {
                let mut list: Vec<i128> = vec![0];
                for b in 0..=64 {
                    for d in -3..=3 {
                        list.push((1i128 << b) + d);
                        list.push(-(1i128 << b) + d);
                    }
                }
                for e in 0..=20 {
                    for d in -1..=1 {
                        list.push(10i128.pow(e) + d);
                        list.push(-(10i128.pow(e)) + d);
                    }
                }
                match i {
                    0 => {
                        check_value(&Value::Null, ch)?;
                        for x in 0..=255u8 {
                            check_value(&Value::UTiny(x), ch)?;
                            check_value(&Value::Tiny(x as i8), ch)?;
                        }
                    }
                    1 => {
                        for x in 0..=u16::MAX {
                            check_value(&Value::UShort(x), ch)?;
                            check_value(&Value::Short(x as i16), ch)?;
                        }
                    }
                    2 => {
                        for x in list {
                            if let Ok(x) = x.try_into() {
                                check_value(&Value::Int(x), ch)?;
                            }
                            if let Ok(x) = x.try_into() {
                                check_value(&Value::UInt(x), ch)?;
                            }
                        }
                    }
                    _ => {
                        for x in list {
                            if let Ok(x) = x.try_into() {
                                check_value(&Value::Long(x), ch)?;
                            }
                            if let Ok(x) = x.try_into() {
                                check_value(&Value::ULong(x), ch)?;
                            }
                        }
                    }
                }
                Ok(())
            });
            let bits: u32 = run.by(2, 5);
            run.each(
                "floats",
                &format!("every sign and exponent x top {bits} bits of the mantissa x 4 patterns of the others, powers of ten and their neighbours"),
                (4 << bits) + 640,
                |i, ch| {
                    if i >= 4 << bits {
                        let e = i as i32 - (4 << bits) - 323;
                        if e > 308 {
                            return Ok(());
                        }
                        let x: f64 = format!("1e{e}").parse().unwrap();
                        for b in -3..=3i64 {
                            for m in [1.0, 1.5, 3.14159, 9.99] {
                                let y = f64::from_bits((x * m).to_bits().wrapping_add_signed(b));
                                if y.is_finite() {
                                    check_value(&Value::Double(y), ch)?;
                                    check_value(&Value::Double(-y), ch)?;
                                }
                                let y = f32::from_bits(((x * m) as f32).to_bits().wrapping_add_signed(b as i32));
                                if y.is_finite() {
                                    check_value(&Value::Float(y), ch)?;
                                    check_value(&Value::Float(-y), ch)?;
                                }
                            }
                        }
                        return Ok(());
                    }
                    let (top, rest) = ((i / 4) as u64, i % 4);
                    let all = |n: u32| (1u64 << (n - bits)) - 1;
                    let m = |n: u32| top << (n - bits) | [0, 1, all(n), all(n) / 3][rest];
                    for b in float_bits(&[m(23) as u32]) {
                        let x = f32::from_bits(b);
                        if x.is_finite() {
                            check_value(&Value::Float(x), ch)?;
                        }
                    }
                    for b in double_bits(&[m(52)]) {
                        let x = f64::from_bits(b);
                        if x.is_finite() {
                            check_value(&Value::Double(x), ch)?;
                        }
                    }
                    Ok(())
                },
            );
            run.each("bytes", "all of up to 2 bytes, all lengths up to 300", 257, |i, ch| {
                if i == 256 {
                    for n in 0..300 {
                        check_value(&Value::Bytes((0..n).map(|x| (x * 7 + n) as u8).collect()), ch)?;
                    }
                    return Ok(());
                }
                check_value(&Value::Bytes(vec![i as u8]), ch)?;
                for b in 0..=255 {
                    check_value(&Value::Bytes(vec![i as u8, b]), ch)?;
                }
                Ok(())
            });
            run.each(
                "dates and times",
                "every year x 9 days, every month x day; every hour, minute and second; hours of TIME up to 2^32 days; fractions around every power of 10",
                100,
                |i, ch| {
                    for y in i as u16 * 100..i as u16 * 100 + 100 {
                        for m in [0, 1, 9, 10, 12] {
                            for d in [0, 1, 9, 10, 31] {
                                check_value(&Value::Date(y, m, d), ch)?;
                                check_value(&Value::Datetime(y, m, d, d.min(23), m, d, 0), ch)?;
                                check_value(&Value::Datetime(y, m, d, 0, 0, 0, 0), ch)?;
                            }
                        }
                    }
                    for x in 0..60 {
                        let i = (i % 60) as u8;
                        check_value(&Value::Datetime(2000, 1, 2, i % 24, x, i, 0), ch)?;
                        check_value(&Value::Time(x % 2 == 0, 3, i % 24, x, i, 0), ch)?;
                        check_value(&Value::Time(x % 2 == 0, 0, i % 24, i, x, 0), ch)?;
                    }
                    for days in (i as u32 * 10..i as u32 * 10 + 10).chain([u32::MAX - i as u32, (1u32 << (i % 32)) - 1, 1 << (i % 32)]) {
                        for h in 0..24 {
                            for neg in [false, true] {
                                check_value(&Value::Time(neg, days, h, 0, 0, 0), ch)?;
                                check_value(&Value::Time(neg, days, h, 59, 1, 1), ch)?;
                            }
                        }
                    }
                    let mut us: Vec<u32> = (0..10_000).map(|x| i as u32 * 10_000 + x).collect();
                    for e in 0..6 {
                        us.push(10u32.pow(e) * (i as u32 % 10).max(1));
                    }
                    for us in us {
                        check_value(&Value::Datetime(2000, 1, 2, 3, 4, 5, us), ch)?;
                        check_value(&Value::Time(true, 0, 0, 0, 0, us), ch)?;
                    }
                    Ok(())
                },
            );
        },
    );
}

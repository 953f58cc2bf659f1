//! C14: conversions between Rust types and values are faithful.
use std::{fmt::Debug, str::FromStr};

use chrono::{Datelike, Duration, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use mc::{
    stored::{double_bits, float_bits},
    Chooser, Level,
};
use mysql_connector::types::{Hex, Value};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

/// What the documentation of a type allows.
trait Kind: Sized + Debug {
    /// The value this is, `None` if this must be an error, `Some(None)` if this may be either.
    fn of(v: &Value) -> Expect<Self>;
    fn same(&self, other: &Self) -> bool;
}

enum Expect<T> {
    Is(T),
    Error,
    /// an error or this
    Maybe(T),
    Any,
}

macro_rules! int {
    ($($t:ty, $n:ident;)*) => {
        $(impl Kind for $t {
            fn of(v: &Value) -> Expect<Self> {
                match v {
                    Value::$n(x) => Expect::Is(*x),
                    _ => Expect::Error,
                }
            }
            fn same(&self, other: &Self) -> bool {
                self.to_le_bytes() == other.to_le_bytes()
            }
        })*
    };
}

int!(i8, Tiny; i16, Short; i32, Int; i64, Long; u8, UTiny; u16, UShort; u32, UInt; u64, ULong; f32, Float; f64, Double;);

fn as_int(v: &Value) -> Option<i128> {
    Some(match *v {
        Value::Tiny(x) => x as i128,
        Value::Short(x) => x as i128,
        Value::Int(x) => x as i128,
        Value::Long(x) => x as i128,
        Value::UTiny(x) => x as i128,
        Value::UShort(x) => x as i128,
        Value::UInt(x) => x as i128,
        Value::ULong(x) => x as i128,
        _ => return None,
    })
}

impl Kind for bool {
    fn of(v: &Value) -> Expect<Self> {
        match as_int(v) {
            Some(0) => Expect::Is(false),
            Some(1) => Expect::Is(true),
            // not a bool
            Some(x) if x > 0 => Expect::Maybe(true),
            Some(_) => Expect::Any,
            None => Expect::Error,
        }
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}

impl Kind for String {
    fn of(v: &Value) -> Expect<Self> {
        match v {
            Value::Bytes(x) => match std::str::from_utf8(x) {
                Ok(x) => Expect::Is(x.to_owned()),
                Err(_) => Expect::Error,
            },
            _ => Expect::Error,
        }
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}

impl Kind for Vec<u8> {
    fn of(v: &Value) -> Expect<Self> {
        match v {
            Value::Bytes(x) => Expect::Is(x.clone()),
            _ => Expect::Error,
        }
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
}

impl Kind for Hex {
    fn of(v: &Value) -> Expect<Self> {
        match v {
            Value::Bytes(x) => Expect::Is(Hex(x.clone())),
            _ => Expect::Error,
        }
    }
    fn same(&self, other: &Self) -> bool {
        self.0 == other.0
    }
}

fn days_in(y: i64, m: u32) -> u32 {
    match m {
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        _ => 0,
    }
}

fn date_ok(y: u16, m: u8, d: u8) -> bool {
    d >= 1 && d as u32 <= days_in(y as i64, m as u32)
}

impl Kind for NaiveDate {
    fn of(v: &Value) -> Expect<Self> {
        match *v {
            Value::Date(y, m, d) | Value::Datetime(y, m, d, ..) if !date_ok(y, m, d) => Expect::Error,
            Value::Date(y, m, d) => Expect::Is(NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap()),
            Value::Datetime(y, m, d, ..) => Expect::Maybe(NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap()),
            _ => Expect::Error,
        }
    }
    fn same(&self, o: &Self) -> bool {
        (self.year(), self.month(), self.day()) == (o.year(), o.month(), o.day())
    }
}

impl Kind for NaiveDateTime {
    fn of(v: &Value) -> Expect<Self> {
        match *v {
            Value::Datetime(y, mo, d, h, mi, s, us) => {
                if !date_ok(y, mo, d) || h > 23 || mi > 59 || s > 59 || us > 1_999_999 {
                    return Expect::Error;
                }
                let t = NaiveDate::from_ymd_opt(y as i32, mo as u32, d as u32)
                    .unwrap()
                    .and_hms_micro_opt(h as u32, mi as u32, s as u32, us.min(999_999));
                if us > 999_999 {
                    // a leap second in the eyes of chrono
                    return match NaiveTime::from_hms_micro_opt(h as u32, mi as u32, s as u32, us) {
                        Some(x) => Expect::Maybe(NaiveDateTime::new(t.unwrap().date(), x)),
                        None => Expect::Error,
                    };
                }
                Expect::Is(t.unwrap())
            }
            _ => Expect::Error,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.date().same(&o.date())
            && (self.hour(), self.minute(), self.second(), self.nanosecond())
                == (o.hour(), o.minute(), o.second(), o.nanosecond())
    }
}

fn micros(x: &Duration) -> i128 {
    x.num_seconds() as i128 * 1_000_000 + (x.subsec_nanos() / 1000) as i128
}

impl Kind for Duration {
    fn of(v: &Value) -> Expect<Self> {
        match *v {
            Value::Time(neg, d, h, m, s, us) => {
                let secs = ((d as i64 * 24 + h as i64) * 60 + m as i64) * 60 + s as i64;
                let x = Duration::seconds(secs) + Duration::microseconds(us as i64);
                let x = if neg { -x } else { x };
                if h > 23 || m > 59 || s > 59 || us > 999_999 {
                    Expect::Maybe(x)
                } else {
                    Expect::Is(x)
                }
            }
            _ => Expect::Error,
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.num_seconds() == o.num_seconds() && self.subsec_nanos() == o.subsec_nanos()
    }
}

/// Converts a database value to `T` and to `Option<T>`.
fn from<T>(v: &Value, ch: &mut Chooser) -> Result<(), String>
where
    T: Kind,
    Value: TryInto<T> + TryInto<Option<T>>,
    <Value as TryInto<T>>::Error: Debug,
    <Value as TryInto<Option<T>>>::Error: Debug,
{
    ch.steps(2);
    let name = std::any::type_name::<T>();
    let judge = |got: Result<T, String>| match (T::of(v), got) {
        (Expect::Any, _) | (Expect::Error | Expect::Maybe(_), Err(_)) => Ok(()),
        (Expect::Is(a) | Expect::Maybe(a), Ok(b)) if a.same(&b) => Ok(()),
        (Expect::Is(a), got) => Err(format!("{v:?} became {got:?} instead of {a:?}")),
        (Expect::Maybe(a), got) => Err(format!("{v:?} became {got:?} instead of {a:?} or an error")),
        (Expect::Error, Ok(x)) => Err(format!("{v:?} became the {name} {x:?} instead of an error")),
    };
    let one: Result<T, _> = v.clone().try_into();
    judge(one.map_err(|e| format!("{e:?}")))?;
    let opt: Result<Option<T>, _> = v.clone().try_into();
    match (v, opt) {
        (Value::Null, Ok(None)) => Ok(()),
        (Value::Null, x) => Err(format!("NULL became {x:?} as an option of {name}")),
        (_, Ok(None)) => Err(format!("{v:?} became None")),
        (_, Ok(Some(x))) => judge(Ok(x)),
        (_, Err(e)) => judge(Err(format!("{e:?}"))),
    }
}

/// Converts to a database value and back, and so for the option.
fn there_and_back<T, E, F>(x: &T, back: &T) -> Result<Value, String>
where
    T: Kind + Clone + TryInto<Value, Error = E>,
    Value: TryInto<T> + TryInto<Option<T>>,
    Option<T>: TryInto<Value, Error = F>,
    E: Debug,
    F: Debug,
    <Value as TryInto<T>>::Error: Debug,
    <Value as TryInto<Option<T>>>::Error: Debug,
{
    let v: Value = x.clone().try_into().map_err(|e| format!("{x:?}: {e:?}"))?;
    let y: T = v.clone().try_into().map_err(|e| format!("{x:?} became {v:?}: {e:?}"))?;
    if !back.same(&y) {
        return Err(format!("{x:?} became {v:?}, which became {y:?}"));
    }
    let w: Value = Some(x.clone()).try_into().map_err(|e| format!("Some({x:?}): {e:?}"))?;
    if format!("{v:?}") != format!("{w:?}") {
        return Err(format!("{x:?} became {v:?}, Some of it {w:?}"));
    }
    let z: Option<T> = w.try_into().map_err(|e| format!("Some({x:?}): {e:?}"))?;
    if !z.map(|z| back.same(&z)).unwrap_or(false) {
        return Err(format!("Some({x:?}) is lost"));
    }
    Ok(v)
}

fn none<T, F>() -> Result<(), String>
where
    Option<T>: TryInto<Value, Error = F>,
    Value: TryInto<Option<T>>,
    F: Debug,
    <Value as TryInto<Option<T>>>::Error: Debug,
    T: Debug,
{
    let v: Value = None::<T>.try_into().map_err(|e| format!("None: {e:?}"))?;
    if v != Value::Null {
        return Err(format!("None became {v:?}"));
    }
    match v.try_into() {
        Ok(None) => Ok(()),
        x => Err(format!("None of {} became {x:?}", std::any::type_name::<T>())),
    }
}

/// Values of every variant, with all small numbers and all corners.
fn corpus(i: usize) -> Vec<Value> {
    let wide = |lo: i128, hi: i128| {
        let mut out = vec![];
        for b in 0..=64 {
            for d in -2..=2 {
                for s in [1, -1] {
                    let x: i128 = s * (1i128 << b) + d;
                    if (lo..=hi).contains(&x) {
                        out.push(x);
                    }
                }
            }
        }
        out
    };
    let strings: Vec<Vec<u8>> = {
        let mut out: Vec<Vec<u8>> = vec![
            vec![],
            b"0".to_vec(),
            b"1".to_vec(),
            b"text".to_vec(),
            b"2024-02-29".to_vec(),
            b"0x00".to_vec(),
            "ünï 🦀".as_bytes().to_vec(),
            b"NULL".to_vec(),
        ];
        // every sequence of up to two bytes, and the ends of multi byte characters
        for a in 0..=255u8 {
            out.push(vec![a]);
            for b in 0..=255u8 {
                out.push(vec![a, b]);
            }
        }
        for a in [0xE0u8, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5] {
            for b in [0x7Fu8, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0] {
                for c in [0x7Fu8, 0x80, 0xBF, 0xC0] {
                    out.push(vec![a, b, c]);
                    out.push(vec![a, b, c, 0x80]);
                    out.push(vec![b'x', a, b, c, 0xBF, b'y']);
                }
            }
        }
        // of any length, good or with something wrong at the end
        for n in (3..300).chain((9..17).flat_map(|b| (1 << b) - 1..=(1 << b) + 1)) {
            for last in [&b"a"[..], "é".as_bytes(), b"\xFF", b"\xC3", b"\0"] {
                let mut x = vec![b'1'; n];
                x.extend_from_slice(last);
                out.push(x);
            }
        }
        out
    };
    match i {
        0 => vec![Value::Null],
        1 => (i8::MIN..=i8::MAX).map(Value::Tiny).collect(),
        2 => (0..=u8::MAX).map(Value::UTiny).collect(),
        3 => (i16::MIN..=i16::MAX).map(Value::Short).collect(),
        4 => (0..=u16::MAX).map(Value::UShort).collect(),
        5 => wide(i32::MIN as i128, i32::MAX as i128).into_iter().map(|x| Value::Int(x as i32)).collect(),
        6 => wide(0, u32::MAX as i128).into_iter().map(|x| Value::UInt(x as u32)).collect(),
        7 => wide(i64::MIN as i128, i64::MAX as i128).into_iter().map(|x| Value::Long(x as i64)).collect(),
        8 => wide(0, u64::MAX as i128).into_iter().map(|x| Value::ULong(x as u64)).collect(),
        9 => float_bits(&[0, 1, 0x400000, 0x7FFFFF]).map(|x| Value::Float(f32::from_bits(x))).collect(),
        10 => double_bits(&[0, 1, 1 << 51, (1 << 52) - 1]).map(|x| Value::Double(f64::from_bits(x))).collect(),
        11 => strings.into_iter().map(Value::Bytes).collect(),
        12 => {
            let mut out = Vec::new();
            for y in [0u16, 1, 4, 100, 400, 1582, 1900, 1970, 1999, 2000, 2023, 2024, 2100, 9999, 10000, 32767, 32768, 65535] {
                for m in (0..=14).chain([127, 128, 255]) {
                    for d in (0..=33).chain([127, 128, 255]) {
                        out.push(Value::Date(y, m, d));
                    }
                }
            }
            out
        }
        13 => {
            let mut out = Vec::new();
            // pairs of deviations from a good value
            let alt: [&[u32]; 7] = [
                &[2024, 0, 1, 2023, 9999, 65535],
                &[2, 0, 1, 12, 13, 255],
                &[29, 0, 1, 28, 30, 31, 32, 255],
                &[20, 0, 12, 23, 24, 25, 255],
                &[30, 0, 1, 59, 60, 61, 255],
                &[40, 0, 1, 59, 60, 61, 255],
                &[123_456, 0, 1, 999_999, 1_000_000, 1_000_001, 1_999_999, 2_000_000, u32::MAX],
            ];
            for a in 0..7 {
                for b in a + 1..7 {
                    for c in b + 1..7 {
                        for x in alt[a] {
                            for y in alt[b] {
                                for z in alt[c] {
                                    let mut v: Vec<u32> = alt.iter().map(|x| x[0]).collect();
                                    v[a] = *x;
                                    v[b] = *y;
                                    v[c] = *z;
                                    out.push(Value::Datetime(
                                        v[0] as u16, v[1] as u8, v[2] as u8, v[3] as u8, v[4] as u8, v[5] as u8, v[6],
                                    ));
                                }
                            }
                        }
                    }
                }
            }
            out
        }
        _ => {
            let mut out = Vec::new();
            for neg in [false, true] {
                for d in [0, 1, 34, 255, 65536, i32::MAX as u32, u32::MAX] {
                    for h in [0, 1, 23, 24, 255] {
                        for m in [0, 1, 59, 60, 255] {
                            for s in [0, 1, 59, 60, 255] {
                                for us in [0, 1, 500_000, 999_999, 1_000_000, u32::MAX] {
                                    out.push(Value::Time(neg, d, h, m, s, us));
                                }
                            }
                        }
                    }
                }
            }
            out
        }
    }
}

const NAMES: [&str; 15] = [
    "NULL", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "bytes", "dates", "datetimes", "times",
];

fn strict_hex(mut s: &[u8]) -> Option<Vec<u8>> {
    if s.len() >= 2 && s[0] == b'0' && s[1] | 32 == b'x' {
        s = &s[2..];
    }
    if s.len() % 2 != 0 {
        return None;
    }
    s.chunks(2)
        .map(|c| {
            let d = |c: u8| (c as char).to_digit(16).map(|x| x as u8);
            Some(d(c[0])? << 4 | d(c[1])?)
        })
        .collect()
}

fn check_hex_text(s: &[u8], ch: &mut Chooser) -> Result<(), String> {
    ch.steps(1);
    let want = strict_hex(s);
    let judge = |what: &str, got: Option<Vec<u8>>| {
        if got == want {
            Ok(())
        } else {
            Err(format!("{what} of {:?} is {got:?} instead of {want:?}", String::from_utf8_lossy(s)))
        }
    };
    judge("try_from_hex", Hex::try_from_hex(s).ok().map(|x| x.0))?;
    if let Ok(t) = std::str::from_utf8(s) {
        judge("try_from_hex(str)", Hex::try_from_hex(t).ok().map(|x| x.0))?;
        judge("from_str", Hex::from_str(t).ok().map(|x| x.0))?;
        judge("parse", t.parse::<Hex>().ok().map(|x| x.0))?;
        let json = serde_json::to_string(t).unwrap();
        judge("JSON", serde_json::from_str::<Hex>(&json).ok().map(|x| x.0))?;
        judge("JSON from a reader", serde_json::from_reader::<_, Hex>(json.as_bytes()).ok().map(|x| x.0))?;
        judge("JSON value", serde_json::from_value::<Hex>(serde_json::json!(t)).ok().map(|x| x.0))?;
    }
    ch.outcome(&want.is_some());
    Ok(())
}

fn check_hex_bytes(b: Vec<u8>, ch: &mut Chooser) -> Result<(), String> {
    ch.steps(1);
    let h = Hex::new(b.clone());
    let text = h.to_string();
    if strict_hex(text.as_bytes()) != Some(b.clone()) || !text.starts_with("0x") {
        return Err(format!("{b:?} is displayed as {text:?}"));
    }
    let json = serde_json::to_string(&h).map_err(|e| e.to_string())?;
    let text2: String = serde_json::from_str(&json).map_err(|e| format!("{json}: {e}"))?;
    let value = serde_json::to_value(&h).map_err(|e| e.to_string())?;
    if strict_hex(text2.as_bytes()) != Some(b.clone()) || value != serde_json::json!(text2) {
        return Err(format!("{b:?} is {json} and {value} in JSON"));
    }
    for t in [text.clone(), text2, text.to_uppercase(), text[2..].to_owned(), text.replace("0x", "0X")] {
        if strict_hex(t.as_bytes()) != Some(b.clone()) {
            return Err(format!("{t}?"));
        }
        check_hex_text(t.as_bytes(), ch)?;
    }
    if *h != b || Vec::<u8>::from(h) != b || Hex(b.clone()).into_bytes() != b {
        return Err(format!("{b:?} is changed"));
    }
    let v: Value = Hex(b.clone()).into();
    if v != Value::Bytes(b.clone()) {
        return Err(format!("{b:?} is stored as {v:?}"));
    }
    let back: Result<Hex, _> = v.try_into();
    match back {
        Ok(x) if x.0 == b => Ok(()),
        x => Err(format!("{b:?} became {x:?}")),
    }
}

fn main() {
    mc::main(
        "C14",
        Level {
            level: "exploration",
            rule: "every enumerated value of every Rust type is converted by the real code to a database value and back; every \
                   enumerated database value is converted to every Rust type and compared with an independent definition of the \
                   conversion (value, error or either)",
            assumptions: &["numbers of 32 and 64 bits, floats, durations and strings between the enumerated ones behave like them"],
        },
        |run| {
            let quick = run.quick();
            run.each(
                "database values to Rust types",
                "every variant (all values of 8 and 16 bits, all corners of the others, all strings of up to 2 bytes and some of lengths up to 64 KB, triples of good and \
                 bad parts of temporal values) x all 17 Rust types and their options",
                NAMES.len(),
                |i, ch| {
                    for v in corpus(i) {
                        macro_rules! all {
                            ($($t:ty),*) => { $(from::<$t>(&v, ch)?;)* };
                        }
                        all!(i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, bool, String, Vec<u8>, Hex);
                        all!(NaiveDate, NaiveDateTime, Duration);
                    }
                    ch.outcome(&NAMES[i]);
                    Ok(())
                },
            );
            run.space("none", "None of every type", |_| {
                macro_rules! all {
                    ($($t:ty),*) => { $(none::<$t, _>()?;)* };
                }
                all!(i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, bool, String, Vec<u8>, Hex);
                all!(NaiveDate, NaiveDateTime, Duration);
                Ok(())
            });
            run.each(
                "numbers and strings there and back",
                "every value of the database domain of the type itself, and bool",
                NAMES.len() - 3,
                |i, ch| {
                    for v in corpus(i) {
                        ch.steps(1);
                        let w = match v.clone() {
                            Value::Null => {
                                there_and_back(&true, &true)?;
                                there_and_back(&false, &false)?;
                                continue;
                            }
                            Value::Tiny(x) => there_and_back(&x, &x)?,
                            Value::UTiny(x) => there_and_back(&x, &x)?,
                            Value::Short(x) => there_and_back(&x, &x)?,
                            Value::UShort(x) => there_and_back(&x, &x)?,
                            Value::Int(x) => there_and_back(&x, &x)?,
                            Value::UInt(x) => there_and_back(&x, &x)?,
                            Value::Long(x) => there_and_back(&x, &x)?,
                            Value::ULong(x) => there_and_back(&x, &x)?,
                            Value::Float(x) => there_and_back(&x, &x)?,
                            Value::Double(x) => there_and_back(&x, &x)?,
                            Value::Bytes(x) => {
                                if let Ok(s) = String::from_utf8(x.clone()) {
                                    let w = there_and_back(&s, &s)?;
                                    if w != v {
                                        return Err(format!("{s:?} is stored as {w:?}"));
                                    }
                                }
                                there_and_back(&x, &x)?
                            }
                            _ => continue,
                        };
                        if !mc::stored::eq(&v, &w) {
                            return Err(format!("{v:?} is stored as {w:?}"));
                        }
                    }
                    Ok(())
                },
            );
            run.each(
                "dates there and back",
                "every day of the years -100 to 10100, and of the years around 2^15 and 2^16",
                110,
                |i, ch| {
                    let years: Vec<i32> = match i {
                        0..=101 => (i as i32 * 100 - 100..i as i32 * 100).collect(),
                        102 => (32760..32776).collect(),
                        103 => (65530..65545).collect(),
                        104 => (131070..131076).collect(),
                        105 => vec![-262143, -65537, -65536, -65535, -32769, -32768, 262142],
                        _ => return Ok(()),
                    };
                    for y in years {
                        let step = if quick && y % 10 != 4 && (0..10000).contains(&y) { 5 } else { 1 };
                        for ord in (1..=366).step_by(step) {
                            let Some(d) = NaiveDate::from_yo_opt(y, ord) else { continue };
                            ch.steps(1);
                            let dt = d.and_hms_micro_opt(ord % 24, ord % 60, (ord * 7) % 60, ord * 2729).unwrap();
                            if u16::try_from(y).is_err() {
                                if let Ok(v) = Value::try_from(d) {
                                    return Err(format!("{d:?} is stored as {v:?}"));
                                }
                                if let Ok(v) = Value::try_from(dt) {
                                    return Err(format!("{dt:?} is stored as {v:?}"));
                                }
                                continue;
                            }
                            let v = there_and_back(&d, &d)?;
                            let want = Value::Date(y as u16, d.month() as u8, d.day() as u8);
                            if v != want {
                                return Err(format!("{d:?} is stored as {v:?}"));
                            }
                            let v = there_and_back(&dt, &dt)?;
                            let want = Value::Datetime(
                                y as u16, d.month() as u8, d.day() as u8,
                                (ord % 24) as u8, (ord % 60) as u8, ((ord * 7) % 60) as u8, ord * 2729,
                            );
                            if v != want {
                                return Err(format!("{dt:?} is stored as {v:?}"));
                            }
                        }
                    }
                    Ok(())
                },
            );
            run.each(
                "times of day there and back",
                "every second of a day x fractions in nanoseconds (cut off to microseconds), leap seconds",
                24,
                |h, ch| {
                    let d = NaiveDate::from_ymd_opt(2016, 12, 31).unwrap();
                    for m in 0..60 {
                        for s in 0..60 {
                            for ns in [0, 1, 999, 1000, 1001, 1999, 123_456_789, 999_999_000, 999_999_999] {
                                ch.steps(1);
                                let x = d.and_hms_nano_opt(h as u32, m, s, ns).unwrap();
                                let cut = d.and_hms_nano_opt(h as u32, m, s, ns / 1000 * 1000).unwrap();
                                there_and_back(&x, &cut)?;
                            }
                            // a leap second is kept or refused
                            for ns in [1_000_000_000, 1_000_001_000, 1_500_000_000, 1_999_999_999] {
                                let Some(t) = NaiveTime::from_hms_opt(h as u32, m, s).unwrap().with_nanosecond(ns) else {
                                    continue;
                                };
                                ch.steps(1);
                                let x = NaiveDateTime::new(d, t);
                                let cut = NaiveDateTime::new(d, t.with_nanosecond(ns / 1000 * 1000).unwrap());
                                if let Ok(v) = Value::try_from(x) {
                                    let back: Result<NaiveDateTime, _> = v.clone().try_into();
                                    if let Ok(y) = back {
                                        if !y.same(&cut) {
                                            return Err(format!("{x:?} became {v:?}, which became {y:?}"));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
            run.each(
                "durations there and back",
                "both signs x seconds 0-4000 and around every power of 2, of 60, 3600 and 86400 up to 2^32 days x fractions in nanoseconds",
                64,
                |i, ch| {
                    let mut secs: Vec<i64> = (0..=4000).filter(|x| x % 64 == i as i64).collect();
                    let max = (1i64 << 32) * 86400 - 1;
                    for unit in [1i64, 60, 3600, 86400] {
                        if i < 33 {
                            for k in [1i64 << i, (1 << i) + 1, (1i64 << i) / 10 * 7] {
                                for d in -2..=2 {
                                    secs.push((k.saturating_mul(unit)).saturating_add(d).clamp(0, max));
                                }
                            }
                        }
                    }
                    secs.push(max);
                    for s in secs {
                        for ns in [0i64, 1, 999, 1000, 1001, 500_000_000, 999_999_000, 999_999_999] {
                            for neg in [false, true] {
                                ch.steps(1);
                                let mut x = Duration::seconds(s) + Duration::nanoseconds(ns);
                                let mut cut = Duration::seconds(s) + Duration::nanoseconds(ns / 1000 * 1000);
                                if neg {
                                    x = -x;
                                    cut = -cut;
                                }
                                let v = there_and_back(&x, &cut)?;
                                let want = [false, true].map(|n| {
                                    Value::Time(
                                        n,
                                        (s / 86400) as u32,
                                        (s / 3600 % 24) as u8,
                                        (s / 60 % 60) as u8,
                                        (s % 60) as u8,
                                        (ns / 1000) as u32,
                                    )
                                });
                                // the sign of nothing does not matter
                                if !(v == want[neg as usize] || micros(&cut) == 0 && v == want[1 - neg as usize]) {
                                    return Err(format!("{x:?} is stored as {v:?}"));
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
            run.each(
                "hex of bytes",
                "all byte strings of up to 2 bytes, all lengths up to 300 and around powers of 2 up to 64 KB: display, serde, parsing of upper and lower case with and without prefix",
                256 + 1,
                |i, ch| {
                    if i == 256 {
                        check_hex_bytes(vec![], ch)?;
                        for n in (0..300).chain((9..17).flat_map(|b| (1 << b) - 1..=(1 << b) + 1)) {
                            check_hex_bytes((0..n).map(|x| (x * 7 + n) as u8).collect(), ch)?;
                        }
                        return Ok(());
                    }
                    check_hex_bytes(vec![i as u8], ch)?;
                    for b in 0..=255 {
                        check_hex_bytes(vec![i as u8, b], ch)?;
                    }
                    Ok(())
                },
            );
            let depth = run.by(6, 8);
            run.space(
                "hex of texts",
                &format!("all texts of up to {depth} of 11 characters (digits, letters of either case, x, space, sign, multi byte, NUL), and all of up to 2 bytes"),
                |ch| {
                    const C: [&str; 11] = ["0", "x", "X", "1", "a", "F", "g", " ", "-", "é", "\0"];
                    let first = ch.choose(11 + 256);
                    if first >= 11 {
                        let a = (first - 11) as u8;
                        check_hex_text(&[a], ch)?;
                        for b in 0..=255 {
                            check_hex_text(&[a, b], ch)?;
                            check_hex_text(&[b'0', b'x', a, b], ch)?;
                        }
                        return Ok(());
                    }
                    let second = ch.choose(11);
                    fn rec(s: &mut String, left: usize, ch: &mut Chooser) -> Result<(), String> {
                        check_hex_text(s.as_bytes(), ch)?;
                        if left > 0 {
                            for c in C {
                                let n = s.len();
                                s.push_str(c);
                                rec(s, left - 1, ch)?;
                                s.truncate(n);
                            }
                        }
                        Ok(())
                    }
                    check_hex_text(b"", ch)?;
                    rec(&mut format!("{}{}", C[first], C[second]), depth - 2, ch)
                },
            );
            run.space("hex of other JSON", "null, numbers, bools, lists, objects", |ch| {
                for x in ["null", "0", "12", "true", "[]", "[1,2]", "{}", "{\"Hex\":\"00\"}", "\"", "", "[\"00\"]"] {
                    ch.steps(1);
                    if let Ok(h) = serde_json::from_str::<Hex>(x) {
                        return Err(format!("{x} became {h:?}"));
                    }
                }
                Ok(())
            });
        },
    );
}

//! Values as a server stores them, what it sends for them in either protocol, and what a client has
//! to make of that.
use mysql_connector::types::Value;

use crate::{
    drive::Session,
    mock::Plan,
    rt,
    scen,
    server::{Cfg, Cmd},
    wire::{ty, Cell, Col, End, OkData, Reply, UNSIGNED},
    Chooser,
};

const ZEROFILL: u16 = 64;

/// Type and flags of a column.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Kind(pub u8, pub u16);

pub const INTS: [Kind; 13] = [
    Kind(ty::TINY, 0),
    Kind(ty::TINY, UNSIGNED),
    Kind(ty::SHORT, 0),
    Kind(ty::SHORT, UNSIGNED),
    Kind(ty::INT24, 0),
    Kind(ty::INT24, UNSIGNED),
    Kind(ty::LONG, 0),
    Kind(ty::LONG, UNSIGNED),
    Kind(ty::LONGLONG, 0),
    Kind(ty::LONGLONG, UNSIGNED),
    Kind(ty::YEAR, UNSIGNED | ZEROFILL),
    Kind(ty::TINY, UNSIGNED | ZEROFILL),
    Kind(ty::LONG, UNSIGNED | ZEROFILL),
];

pub const STRINGS: [u8; 14] = [
    ty::DECIMAL,
    ty::VARCHAR,
    ty::BIT,
    ty::JSON,
    ty::NEWDECIMAL,
    ty::ENUM,
    ty::SET,
    ty::TINY_BLOB,
    ty::MEDIUM_BLOB,
    ty::LONG_BLOB,
    ty::BLOB,
    ty::VAR_STRING,
    ty::STRING,
    ty::GEOMETRY,
];

#[derive(Clone, Debug)]
pub struct Stored {
    pub kind: Kind,
    /// `None` is NULL
    pub text: Option<Vec<u8>>,
    pub bin: Vec<u8>,
    pub value: Value,
}

/// Range of integers of this kind.
pub fn range(kind: Kind) -> (i128, i128) {
    let u = kind.1 & UNSIGNED != 0;
    let bits = match kind.0 {
        ty::TINY => 8,
        ty::SHORT => 16,
        ty::INT24 => 24,
        ty::LONG => 32,
        ty::LONGLONG => 64,
        ty::YEAR => return (0, 2155),
        x => panic!("{x}"),
    };
    if u {
        (0, (1 << bits) - 1)
    } else {
        (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    }
}

/// Values around every power of two (and ten) and at both ends of the range.
pub fn int_corners(kind: Kind) -> Vec<i128> {
    let (lo, hi) = range(kind);
    let mut out = vec![];
    let mut add = |x: i128| {
        for d in -2..=2 {
            for s in [1, -1] {
                let x = s * x + d;
                if (lo..=hi).contains(&x) {
                    out.push(x);
                }
            }
        }
    };
    for i in 0..=64 {
        add(1 << i);
    }
    let mut ten = 1;
    for _ in 0..20 {
        ten *= 10;
        add(ten);
        add(ten * 5 / 2);
    }
    for i in 0..64 {
        // one bit missing, and bytes that differ from each other
        add(0x7FFF_FFFF_FFFF_FFFF & !(1 << i));
        add(0x0102_0304_0506_0708i128 << i & 0xFFFF_FFFF_FFFF_FFFF);
        add(0xF1E2_D3C4_B5A6_9788i128 >> i);
    }
    out.sort();
    out.dedup();
    out
}

pub fn null(kind: Kind) -> Stored {
    Stored {
        kind,
        text: None,
        bin: Vec::new(),
        value: Value::Null,
    }
}

pub fn int(kind: Kind, x: i128) -> Stored {
    let text = if kind.1 & ZEROFILL != 0 {
        let w = match kind.0 {
            ty::YEAR => 4,
            ty::TINY => 3,
            _ => 10,
        };
        format!("{x:0w$}")
    } else {
        x.to_string()
    };
    let u = kind.1 & UNSIGNED != 0;
    let le = x.to_le_bytes();
    let (w, value) = match (kind.0, u) {
        (ty::TINY, false) => (1, Value::Tiny(x as i8)),
        (ty::TINY, true) => (1, Value::UTiny(x as u8)),
        (ty::SHORT, false) => (2, Value::Short(x as i16)),
        (ty::SHORT | ty::YEAR, true) => (2, Value::UShort(x as u16)),
        (ty::INT24 | ty::LONG, false) => (4, Value::Int(x as i32)),
        (ty::INT24 | ty::LONG, true) => (4, Value::UInt(x as u32)),
        (ty::LONGLONG, false) => (8, Value::Long(x as i64)),
        (ty::LONGLONG, true) => (8, Value::ULong(x as u64)),
        x => panic!("{x:?}"),
    };
    Stored {
        kind,
        text: Some(text.into_bytes()),
        bin: le[..w].to_vec(),
        value,
    }
}

pub fn bytes(t: u8, x: Vec<u8>) -> Stored {
    let mut bin = Vec::new();
    crate::wire::put_str(&mut bin, &x);
    Stored {
        kind: Kind(t, if t == ty::BIT { UNSIGNED } else { 0 }),
        text: Some(x.clone()),
        bin,
        value: Value::Bytes(x),
    }
}

pub fn float(x: f32, text: Vec<u8>) -> Stored {
    Stored {
        kind: Kind(ty::FLOAT, 0),
        text: Some(text),
        bin: x.to_bits().to_le_bytes().to_vec(),
        value: Value::Float(x),
    }
}

pub fn double(x: f64, text: Vec<u8>) -> Stored {
    Stored {
        kind: Kind(ty::DOUBLE, 0),
        text: Some(text),
        bin: x.to_bits().to_le_bytes().to_vec(),
        value: Value::Double(x),
    }
}

/// Digits after the decimal point as the column declares them.
fn frac(us: u32, fsp: usize) -> String {
    if fsp == 0 {
        assert_eq!(us, 0);
        return String::new();
    }
    let all = format!("{us:06}");
    assert!(all[fsp..].bytes().all(|x| x == b'0'));
    format!(".{}", &all[..fsp])
}

pub fn date(y: u16, m: u8, d: u8) -> Stored {
    let mut bin = vec![0];
    if (y, m, d) != (0, 0, 0) {
        bin = vec![4, y as u8, (y >> 8) as u8, m, d];
    }
    Stored {
        kind: Kind(ty::DATE, 128),
        text: Some(format!("{y:04}-{m:02}-{d:02}").into_bytes()),
        bin,
        value: Value::Date(y, m, d),
    }
}

pub type Dt = (u16, u8, u8, u8, u8, u8, u32);

/// `full` sends trailing zeros too, which is permitted.
pub fn datetime(t: u8, x: Dt, fsp: usize, full: usize) -> Stored {
    let (y, mo, d, h, mi, s, us) = x;
    let n = if us != 0 {
        11
    } else if (h, mi, s) != (0, 0, 0) {
        7
    } else if (y, mo, d) != (0, 0, 0) {
        4
    } else {
        0
    };
    let n = n.max([0, 4, 7, 11][full]);
    let mut all = vec![n as u8];
    all.extend(y.to_le_bytes());
    all.extend([mo, d, h, mi, s]);
    all.extend(us.to_le_bytes());
    all.truncate(n + 1);
    Stored {
        kind: Kind(t, 128),
        text: Some(
            format!("{y:04}-{mo:02}-{d:02} {h:02}:{mi:02}:{s:02}{}", frac(us, fsp)).into_bytes(),
        ),
        bin: all,
        value: Value::Datetime(y, mo, d, h, mi, s, us),
    }
}

pub fn time(neg: bool, hours: u32, m: u8, s: u8, us: u32, fsp: usize, full: usize) -> Stored {
    let n = if us != 0 {
        12
    } else if (hours, m, s) != (0, 0, 0) {
        8
    } else {
        0
    };
    let n = n.max([0, 8, 12][full]);
    let mut all = vec![n as u8, neg as u8];
    all.extend((hours / 24).to_le_bytes());
    all.extend([(hours % 24) as u8, m, s]);
    all.extend(us.to_le_bytes());
    all.truncate(n + 1);
    Stored {
        kind: Kind(ty::TIME, 128),
        text: Some(
            format!(
                "{}{hours:02}:{m:02}:{s:02}{}",
                if neg { "-" } else { "" },
                frac(us, fsp)
            )
            .into_bytes(),
        ),
        bin: all,
        value: Value::Time(neg, hours / 24, (hours % 24) as u8, m, s, us),
    }
}

/// All texts MySQL (or the standard conversions) can write for these floats, and then some:
/// shortest, fixed and exponent form.
pub fn float_texts(sci: &str, fixed: Option<String>) -> Vec<Vec<u8>> {
    let mut out = vec![sci.as_bytes().to_vec()];
    if let Some(x) = fixed {
        if x.len() < 400 {
            out.push(x.into_bytes());
        }
    }
    let (m, e) = sci.split_once('e').unwrap();
    if let Some(x) = e.strip_prefix('-') {
        out.push(format!("{m}e-{x:0>2}").into_bytes());
    } else {
        out.push(format!("{m}e+{e:0>2}").into_bytes());
    }
    out
}

/// Bits of doubles: every exponent with mantissas of all kinds, both signs.
pub fn double_bits(mantissas: &[u64]) -> impl Iterator<Item = u64> + '_ {
    (0..2048u64).flat_map(move |e| {
        mantissas
            .iter()
            .flat_map(move |m| [e << 52 | m, 1 << 63 | e << 52 | m])
    })
}

pub fn float_bits(mantissas: &[u32]) -> impl Iterator<Item = u32> + '_ {
    (0..256u32).flat_map(move |e| {
        mantissas
            .iter()
            .flat_map(move |m| [e << 23 | m, 1 << 31 | e << 23 | m])
    })
}

/// One of every kind and encoded shape; all distinguishable by their bytes.
pub fn alphabet() -> Vec<Stored> {
    let mut out = Vec::new();
    for k in INTS {
        let (lo, hi) = range(k);
        out.push(int(k, hi));
        if lo < 0 {
            out.push(int(k, lo));
        }
    }
    for f in [0.1f32, -3.0e38] {
        out.push(float(f, format!("{f:e}").into_bytes()));
    }
    for f in [0.1f64, -1.7e308] {
        out.push(double(f, format!("{f:e}").into_bytes()));
    }
    for t in STRINGS {
        out.push(bytes(t, format!("type {t}").into_bytes()));
    }
    out.push(bytes(ty::BLOB, Vec::new()));
    out.push(bytes(ty::VAR_STRING, vec![0xFB]));
    for n in [250, 251, 300, 65536] {
        out.push(bytes(ty::BLOB, (0..n).map(|x| (x * 7 + x / 256) as u8).collect()));
    }
    out.push(date(0, 0, 0));
    out.push(date(2024, 2, 29));
    for t in [ty::DATETIME, ty::TIMESTAMP] {
        out.push(datetime(t, (0, 0, 0, 0, 0, 0, 0), 0, 0));
        out.push(datetime(t, (1999, 12, 31, 0, 0, 0, 0), 0, 0));
        out.push(datetime(t, (1999, 12, 31, 23, 59, 58, 0), 0, 0));
        out.push(datetime(t, (1999, 12, 31, 23, 59, 58, 1), 6, 0));
    }
    out.push(time(false, 0, 0, 0, 0, 0, 0));
    out.push(time(true, 838, 59, 58, 0, 0, 0));
    out.push(time(false, 25, 1, 2, 3, 6, 0));
    out.push(null(Kind(ty::NULL, 0)));
    out
}

pub fn eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Float(a), Value::Float(b)) => a.to_bits() == b.to_bits(),
        (Value::Double(a), Value::Double(b)) => a.to_bits() == b.to_bits(),
        (a, b) => a == b,
    }
}

/// Reads these rows over the real client; they have to arrive as they are.
pub fn check_rows(
    kinds: &[Kind],
    rows: &[Vec<Stored>],
    binary: bool,
    deprecate_eof: bool,
    ch: &mut Chooser,
) -> Result<(), String> {
    let cols: Vec<Col> = kinds
        .iter()
        .enumerate()
        .map(|(i, k)| Col::new(&format!("c{i}"), k.0, k.1))
        .collect();
    let cells: Vec<Vec<Cell>> = rows
        .iter()
        .map(|r| {
            r.iter()
                .map(|x| match &x.text {
                    None => Cell::Null,
                    Some(_) if binary => Cell::Raw(x.bin.clone()),
                    Some(x) => Cell::Raw(x.clone()),
                })
                .collect()
        })
        .collect();
    let reply = Reply::Rows {
        cols: cols.clone(),
        rows: cells,
        end: End::Ok(OkData::new(0, 0)),
    };
    let cfg = Cfg {
        caps: scen::caps(deprecate_eof),
        ..Cfg::default()
    };
    let session = Session::new(
        cfg,
        Plan::default(),
        Box::new(move |cmd| match cmd {
            Cmd::Query(_) | Cmd::Execute { .. } => vec![reply.clone()],
            Cmd::Prepare(_) => vec![Reply::Prepared {
                id: 5,
                params: 0,
                cols: cols.clone(),
            }],
            _ => Vec::new(),
        }),
    );
    let res: Result<(), String> = rt::run(async {
        let mut conn = session.connect().await.map_err(|e| format!("connect: {e:?}"))?;
        macro_rules! read {
            ($rs:expr) => {{
                let mut rs = $rs.await.map_err(|e| format!("query: {e:?}"))?;
                for (i, row) in rows.iter().enumerate() {
                    let got: Vec<Value> = match rs.next().await {
                        Ok(Some(x)) => x,
                        x => return Err(format!("row {i} {:?} was read as {x:?}", clip(row))),
                    };
                    if got.len() != row.len() {
                        return Err(format!("row {i} has {} values instead of {}", got.len(), row.len()));
                    }
                    for (j, (a, b)) in row.iter().zip(&got).enumerate() {
                        if !eq(&a.value, b) {
                            return Err(format!(
                                "row {i} column {j}: sent {:?}, returned {}",
                                clip(&row[j..j + 1]),
                                cut(format!("{b:?}"))
                            ));
                        }
                    }
                }
                match rs.next().await {
                    Ok(None) => Ok(()),
                    x => Err(format!("after the last row: {x:?}")),
                }
            }};
        }
        if binary {
            let mut stmt = conn
                .prepare_statement("p")
                .await
                .map_err(|e| format!("prepare: {e:?}"))?;
            read!(stmt.query::<Value, Vec<Value>>(&[]))
        } else {
            read!(conn.query::<Vec<Value>>("q"))
        }
    })
    .map_err(|_| "hangs".to_owned())?;
    ch.steps(rows.len() as u64);
    res?;
    session.server_errors()
}

fn cut(x: String) -> String {
    x.chars().take(200).collect()
}

fn clip(row: &[Stored]) -> Vec<String> {
    row.iter()
        .map(|x| {
            cut(format!(
                "type {} flags {} text {:?} binary {:?}",
                x.kind.0,
                x.kind.1,
                x.text.as_ref().map(|x| String::from_utf8_lossy(x).into_owned()),
                x.bin
            ))
        })
        .collect()
}

/// The explorations, in the binary or the text protocol.
pub fn explore(run: &mut crate::Run, binary: bool) {
    let quick = run.quick();
    // texts are interesting in text only, lengths in binary only
    let fulls: &[usize] = if binary { &[0, 1, 2, 3] } else { &[0] };
    let one = |kind: Kind, list: Vec<Stored>, ch: &mut Chooser| {
        let rows: Vec<Vec<Stored>> = list.into_iter().map(|x| vec![x]).collect();
        let dep = ch.flag();
        ch.outcome(&(kind.0, kind.1, rows.len()));
        check_rows(&[kind], &rows, binary, dep, ch)
    };

    run.each(
        "integers",
        "13 integer columns (types, UNSIGNED, ZEROFILL) x all values of 8 and 16 bits and YEAR, else all values around \
         powers of 2 and 10, single missing bits, shifted patterns; with and without DEPRECATE_EOF",
        INTS.len(),
        |i, ch| {
            let kind = INTS[i];
            let (lo, hi) = range(kind);
            let list: Vec<i128> = if hi - lo < 1 << 17 {
                (lo..=hi).collect()
            } else {
                int_corners(kind)
            };
            let mut rows: Vec<Stored> = list.into_iter().map(|x| int(kind, x)).collect();
            rows.push(null(kind));
            one(kind, rows, ch)
        },
    );
    if !quick {
        run.each(
            "integers of 24 bits",
            "all values of MEDIUMINT, signed and unsigned",
            512,
            |i, ch| {
                let kind = INTS[4 + i % 2];
                let lo = range(kind).0 + (i as i128 / 2) * 65536;
                let list = (lo..lo + 65536).map(|x| int(kind, x)).collect();
                one(kind, list, ch)
            },
        );
    }

    let bits: u32 = run.by(5, 9);
    let mantissas64: Vec<u64> = (0..1u64 << bits)
        .flat_map(|m| {
            let top = m << (52 - bits);
            let rest = (1u64 << (52 - bits)) - 1;
            [top, top | 1, top | rest, top | rest / 3]
        })
        .collect();
    let mantissas32: Vec<u32> = (0..1u32 << bits)
        .flat_map(|m| {
            let top = m << (23 - bits);
            let rest = (1u32 << (23 - bits)) - 1;
            [top, top | 1, top | rest, top | rest / 3]
        })
        .collect();
    run.each(
        "floats",
        &format!(
            "every sign and exponent x every top {bits} mantissa bits x 4 patterns of the others, single and double precision; \
             {}",
            if binary {
                "bit patterns, with infinities and NaN"
            } else {
                "as shortest text in exponent, signed exponent and plain notation"
            }
        ),
        512,
        |i, ch| {
            let mut list = Vec::new();
            if i < 256 {
                for m in &mantissas32 {
                    for s in [0, 1 << 31] {
                        let f = f32::from_bits(s | (i as u32) << 23 | m);
                        if binary {
                            list.push(float(f, vec![]));
                        } else if f.is_finite() {
                            for t in float_texts(&format!("{f:e}"), Some(format!("{f}"))) {
                                list.push(float(f, t));
                            }
                        }
                    }
                }
                one(Kind(ty::FLOAT, 0), list, ch)
            } else {
                for e in 0..8 {
                    let e = (i as u64 - 256) * 8 + e;
                    for m in &mantissas64 {
                        for s in [0, 1 << 63] {
                            let f = f64::from_bits(s | e << 52 | m);
                            if binary {
                                list.push(double(f, vec![]));
                            } else if f.is_finite() {
                                for t in float_texts(&format!("{f:e}"), Some(format!("{f}"))) {
                                    list.push(double(f, t));
                                }
                            }
                        }
                    }
                }
                one(Kind(ty::DOUBLE, 0), list, ch)
            }
        },
    );
    if !binary {
// decimal texts next to the middle between two floats have to be rounded correctly, also
        // if they are nearer to the middle than any double
        let step = if quick { 16 } else { 1 };
        run.each(
            "rounding of texts",
            &format!(
                "texts of 17+ digits at, just below and just above (by one digit more, or 31 digits more) the midpoint of two \
                 neighbouring floats: every exponent of singles, every {step}th one of doubles"
            ),
            256 + 2048 / step,
            |i, ch| {
                let mut list = Vec::new();
                let kind = if i < 256 { ty::FLOAT } else { ty::DOUBLE };
                let mantissas: &[u64] = if i < 256 {
                    &[0, 1, 2, 0x400000, 0x2AAAAA, 0x7FFFFC, 0x7FFFFD, 0x7FFFFE, 0x7FFFFF]
                } else {
                    &[0, 1, 2, 0x8000000000000, 0xAAAAAAAAAAAAA, 0xFFFFFFFFFFFFE, 0xFFFFFFFFFFFFF]
                };
                for &m in mantissas {
                    let (bits, bias, e) = if i < 256 { (23, 150, i as u64) } else { (52, 1075, ((i - 256) * step) as u64) };
                    // the sign has no influence
                    let low = e << bits | m;
                    let make = |x: u64, text: String| {
                        if i < 256 {
                            let x = f32::from_bits(x as u32);
                            x.is_finite().then(|| float(x, text.into_bytes()))
                        } else {
                            let x = f64::from_bits(x);
                            x.is_finite().then(|| double(x, text.into_bytes()))
                        }
                    };
                    if make(low, String::new()).is_none() || make(low + 1, String::new()).is_none() {
                        continue;
                    }
                    let (mid, exp) = midpoint(e, m, bits, bias);
                    let even = low + m % 2;
                    list.extend(make(even, format!("{mid}e{exp}")));
                    for zeros in [0usize, 30] {
                        let n = zeros as i64 + 1;
                        list.extend(make(low + 1, format!("{mid}{}1e{}", "0".repeat(zeros), exp - n)));
                        let below = num::BigUint::parse_bytes(mid.as_bytes(), 10).unwrap()
                            * num::pow(num::BigUint::from(10u8), n as usize)
                            - 1u8;
                        list.extend(make(low, format!("{below}e{}", exp - n)));
                    }
                }
                one(Kind(kind, 0), list, ch)
            },
        );
    }

    let years = 10_000;
    run.each(
        "dates",
        &format!(
            "every year 0-9999 x {}",
            if quick { "8 month/day pairs, all months 0-12 x days 0-31 every 100 years" } else { "all months 0-12 x days 0-31" }
        ),
        years / 50,
        |i, ch| {
            let mut list = Vec::new();
            for y in i as u16 * 50..i as u16 * 50 + 50 {
                if quick && y % 100 != 24 {
                    for (m, d) in [(0, 0), (1, 1), (2, 29), (9, 9), (10, 10), (12, 31), (0, 31), (12, 0)] {
                        list.push(date(y, m, d));
                    }
                } else {
                    for m in 0..=12 {
                        for d in 0..=31 {
                            list.push(date(y, m, d));
                        }
                    }
                }
            }
            one(Kind(ty::DATE, 128), list, ch)
        },
    );
    run.each(
        "times of day",
        "DATETIME and TIMESTAMP: every hour x minute x second, on 3 dates; every permitted length in binary",
        48,
        |i, ch| {
            let t = [ty::DATETIME, ty::TIMESTAMP][i % 2];
            let h = (i / 2) as u8;
            let mut list = Vec::new();
            for (y, mo, d) in [(0, 0, 0), (1970, 1, 1), (9999, 12, 31)] {
                for mi in 0..60 {
                    for s in 0..60 {
                        let full = fulls[(mi + s) as usize % fulls.len()];
                        list.push(datetime(t, (y, mo, d, h, mi, s, 0), 0, full));
                    }
                }
            }
            one(Kind(t, 128), list, ch)
        },
    );
    run.each(
        "lengths of datetimes",
        "datetimes whose every part is zero or not (2^7), of either type, in every permitted length, with every fraction width",
        128 * 2,
        |i, ch| {
            let t = [ty::DATETIME, ty::TIMESTAMP][i % 2];
            let b = |n: usize, x: u8| if i / 2 >> n & 1 != 0 { x } else { 0 };
            let mut list = Vec::new();
            for full in fulls {
                for fsp in 0..=6usize {
                    let us = if fsp == 0 { 0 } else { b(6, 1) as u32 * 10u32.pow(6 - fsp as u32) };
                    let y = b(0, 1) as u16 * 2038;
                    list.push(datetime(t, (y, b(1, 11), b(2, 19), b(3, 20), b(4, 21), b(5, 22), us), fsp, *full));
                }
            }
            one(Kind(t, 128), list, ch)
        },
    );
    run.each(
        "times",
        "TIME: both signs x every hour 0-838 x 5 minutes x 5 seconds, every permitted length in binary",
        839,
        |h, ch| {
            let mut list = Vec::new();
            for neg in [false, true] {
                for m in [0, 1, 9, 30, 59] {
                    for s in [0, 1, 10, 58, 59] {
                        for full in [0, 1, 2] {
                            if binary || full == 0 {
                                if neg && (h, m, s) == (0, 0, 0) && full == 0 {
                                    continue;
                                }
                                list.push(time(neg, h as u32, m, s, 0, 0, full));
                            }
                        }
                    }
                }
            }
            one(Kind(ty::TIME, 128), list, ch)
        },
    );
    let stride = run.by(25, 1);
    run.each(
        "fractions",
        &format!(
            "every fraction of up to 5 digits and every {stride}. of 6 digits, as TIME and as DATETIME, in every column width that holds it"
        ),
        200,
        |i, ch| {
            let mut list = Vec::new();
            let is_time = i % 2 == 0;
            for us in (i as u32 / 2) * 10_000..(i as u32 / 2) * 10_000 + 10_000 {
                if us % 10 != 0 && us % stride != 3 % stride {
                    continue;
                }
                for fsp in 1..=6 {
                    if us % 10u32.pow(6 - fsp) == 0 {
                        list.push(if is_time {
                            time(us % 20 == 10, us % 839, 4, 5, us, fsp as usize, 0)
                        } else {
                            datetime(ty::DATETIME, (2000, 1, 2, 3, 4, 5, us), fsp as usize, 0)
                        });
                    }
                }
            }
            // a negative zero is not sent
            list.retain(|x| !matches!(x.value, Value::Time(true, 0, 0, 0, 0, 0)));
            one(list[0].kind, list, ch)
        },
    );

    let max = run.by(1100, 5000);
    run.each(
        "lengths of strings",
        &format!("14 string and blob types x every length 0-{max} and around 2^16, each once alone and once before another column"),
        STRINGS.len(),
        |i, ch| {
            let t = STRINGS[i];
            let lens: Vec<usize> = (0..max).chain(65_520..65_560).collect();
            let next = ch.flag();
            let dep = ch.flag();
            let mut kinds = vec![Kind(t, 0)];
            if next {
                kinds.push(Kind(ty::LONG, 0));
            }
            let rows: Vec<Vec<Stored>> = lens
                .iter()
                .map(|n| {
                    let mut row = vec![bytes(t, (0..*n).map(|x| (x * 31 + n + x / 256) as u8).collect())];
                    if next {
                        row.push(int(kinds[1], *n as i128 - 1000));
                    }
                    row
                })
                .collect();
            check_rows(&kinds, &rows, binary, dep, ch)
        },
    );
    run.each(
        "contents of strings",
        "14 string and blob types x every single byte and every pair of bytes",
        STRINGS.len(),
        |i, ch| {
            let t = STRINGS[i];
            let mut list: Vec<Stored> = (0..=255u8).map(|x| bytes(t, vec![x])).collect();
            if i == 0 || !quick {
                list.extend((0..=0xFFFFu32).map(|x| bytes(t, vec![x as u8, (x >> 8) as u8])));
            }
            one(list[0].kind, list, ch)
        },
    );

    let width = run.by(11, 16);
    run.each(
        "patterns of NULL",
        &format!("rows of 1-{width} columns: every subset of NULLs"),
        width * 2,
        |i, ch| {
            let n = i / 2 + 1;
            let kinds: Vec<Kind> = (0..n).map(|i| if i % 2 == 0 { INTS[0] } else { Kind(ty::BLOB, 0) }).collect();
            let rows: Vec<Vec<Stored>> = (0..1usize << n)
                .map(|mask| {
                    (0..n)
                        .map(|c| {
                            if mask >> c & 1 != 0 {
                                null(kinds[c])
                            } else if c % 2 == 0 {
                                int(kinds[c], c as i128 + 1)
                            } else {
                                bytes(ty::BLOB, vec![c as u8; c])
                            }
                        })
                        .collect()
                })
                .collect();
            check_rows(&kinds, &rows, binary, i % 2 == 0, ch)
        },
    );
    let wide: Vec<usize> = if quick {
        (12..=80).chain([127, 128, 249, 250, 251, 252, 253, 256, 257, 300, 1000, 4096]).collect()
    } else {
        (12..=400).chain([511, 512, 513, 1000, 1022, 4096]).collect()
    };
    run.each(
        "single NULLs in wide rows",
        &format!("rows of up to 4096 columns ({} widths): one NULL, one value, at every position; none; all; pairs of neighbours", wide.len()),
        wide.len(),
        |i, ch| {
            let n = wide[i];
            let kinds: Vec<Kind> = (0..n).map(|_| INTS[0]).collect();
            let val = |c: usize| int(INTS[0], (c % 200) as i128 - 100);
            let row = |f: &dyn Fn(usize) -> bool| -> Vec<Stored> {
                (0..n).map(|c| if f(c) { null(INTS[0]) } else { val(c) }).collect()
            };
            let step = (n / 300).max(1);
            let mut rows = vec![row(&|_| false), row(&|_| true)];
            for p in (0..n).step_by(step).chain(n.saturating_sub(20)..n) {
                rows.push(row(&|c| c == p));
                rows.push(row(&|c| c != p));
                rows.push(row(&|c| c == p || c == p + 1));
            }
            check_rows(&kinds, &rows, binary, true, ch)
        },
    );

    let list = alphabet();
    run.space(
        "neighbours",
        &format!(
            "every {} of the {} kinds and shapes of values next to each other, with each NULL or not",
            if quick { "pair" } else { "triple" },
            list.len()
        ),
        |ch| {
            let a = ch.pick(&list).clone();
            let b = ch.pick(&list).clone();
            let dep = ch.flag();
            for c in &list {
                let row: Vec<Stored> = if quick {
                    vec![a.clone(), b.clone(), a.clone(), b.clone()]
                } else {
                    vec![a.clone(), b.clone(), c.clone()]
                };
                let kinds: Vec<Kind> = row.iter().map(|x| x.kind).collect();
                let rows: Vec<Vec<Stored>> = (0..1 << row.len())
                    .map(|m| {
                        row.iter()
                            .enumerate()
                            .map(|(i, x)| if m >> i & 1 != 0 { null(x.kind) } else { x.clone() })
                            .collect()
                    })
                    .collect();
                check_rows(&kinds, &rows, binary, dep, ch)?;
                if quick {
                    break;
                }
            }
            Ok(())
        },
    );
}

/// Decimal digits and exponent of the middle between the double (e, m) and the next one.
fn midpoint(e: u64, m: u64, bits: u32, bias: i64) -> (String, i64) {
    use num::BigUint;
    // (2 * (2^bits + m) + 1) * 2^(e - bias - 1), without the leading bit if it is subnormal
    let sig = if e == 0 { m } else { (1u64 << bits) + m };
    let x = BigUint::from(2 * sig + 1);
    let p = e.max(1) as i64 - bias - 1;
    if p >= 0 {
        ((x << p as usize).to_string(), 0)
    } else {
        // x / 2^n = x * 5^n / 10^n
        let n = (-p) as u32;
        ((x * num::pow(BigUint::from(5u8), n as usize)).to_string(), p)
    }
}

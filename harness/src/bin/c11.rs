//! C11: statement parameters reach the server unchanged.
use std::sync::{Arc, Mutex};

use mc::{
    drive::{Session, E},
    mock::Plan,
    rt,
    server::{Cfg, Cmd},
    stored::{double_bits, float_bits, int_corners, range, Kind, INTS},
    wire::{int_width, ty, Cell, OkData, Reply, UNSIGNED},
    Chooser, Level,
};
use mysql_connector::types::Value;

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

/// What the server has to decode for a value.
fn same(v: &Value, t: u8, unsigned: bool, c: &Cell) -> bool {
    let int = |w: usize, u: bool, x: i128| int_width(t) == Some(w) && unsigned == u && *c == Cell::Int(x);
    match *v {
        Value::Null => *c == Cell::Null,
        Value::Tiny(x) => int(1, false, x as i128),
        Value::Short(x) => int(2, false, x as i128),
        Value::Int(x) => int(4, false, x as i128),
        Value::Long(x) => int(8, false, x as i128),
        Value::UTiny(x) => int(1, true, x as i128),
        Value::UShort(x) => int(2, true, x as i128),
        Value::UInt(x) => int(4, true, x as i128),
        Value::ULong(x) => int(8, true, x as i128),
        Value::Float(x) => matches!(c, Cell::F32(y) if x.to_bits() == y.to_bits()),
        Value::Double(x) => matches!(c, Cell::F64(y) if x.to_bits() == y.to_bits()),
        Value::Bytes(ref x) => matches!(c, Cell::Bytes(y) if x == y),
        Value::Date(y, m, d) => *c == Cell::Date(y, m, d),
        // there is no negative zero
        Value::Time(_, 0, 0, 0, 0, 0) => {
            matches!(*c, Cell::Time(_, 0, 0, 0, 0, 0)) && t == ty::TIME
        }
        Value::Time(n, d, h, m, s, us) => *c == Cell::Time(n, d, h, m, s, us),
        Value::Datetime(y, mo, d, h, mi, s, us) => {
            *c == Cell::DateTime(y, mo, d, h, mi, s, us) && (t == ty::DATETIME || t == ty::TIMESTAMP)
        }
    }
}

fn cut(x: String) -> String {
    x.chars().take(200).collect()
}

/// Executes one statement with each of these lists, then with one more list of the right length.
/// A list of another length than `n` has to be refused.
fn check(n: usize, lists: &[Vec<Value>], refs: bool, query: bool, ch: &mut Chooser) -> Result<(), String> {
    let cmds = Arc::new(Mutex::new(Vec::new()));
    let seen = cmds.clone();
    let session = Session::new(
        Cfg::default(),
        Plan::default(),
        Box::new(move |cmd| match cmd {
            Cmd::Prepare(_) => vec![Reply::Prepared {
                id: 0x8765_4321,
                params: n,
                cols: Vec::new(),
            }],
            cmd => {
                let mut seen = seen.lock().unwrap();
                seen.push(cmd.clone());
                vec![Reply::Ok(OkData::new(seen.len() as u64, 0))]
            }
        }),
    );
    let res: Result<(), String> = rt::run(async {
        let mut conn = session.connect().await.map_err(|e| format!("connect: {e:?}"))?;
        let mut stmt = conn
            .prepare_statement("p")
            .await
            .map_err(|e| format!("prepare: {e:?}"))?;
        let last = vec![Value::Int(-77); n];
        for (i, list) in lists.iter().chain([&last]).enumerate() {
            cmds.lock().unwrap().clear();
            let by_ref: Vec<&Value> = list.iter().collect();
            let res = match (query, refs) {
                (false, false) => stmt.execute(list).await.map(|_| ()),
                (false, true) => stmt.execute(&by_ref).await.map(|_| ()),
                // a query of an OK packet is answered with an error or an empty result
                (true, false) => stmt.query::<_, Vec<Value>>(list).await.map(|_| ()),
                (true, true) => stmt.query::<_, Vec<Value>>(&by_ref).await.map(|_| ()),
            };
            let got = std::mem::take(&mut *cmds.lock().unwrap());
            if list.len() != n {
                match res {
                    Err(e) => {
                        ch.outcome(&E::of(&e));
                    }
                    Ok(()) => return Err(format!("list {i} of {} values for {n} parameters was accepted", list.len())),
                }
                if !got.is_empty() {
                    return Err(format!("list {i} of {} values for {n} parameters sent {} commands", list.len(), got.len()));
                }
                continue;
            }
            if !query {
                res.map_err(|e| format!("list {i}: {e:?}"))?;
            }
            match &got[..] {
                [Cmd::Execute { stmt: 0x8765_4321, params }] if params.len() == n => {
                    for (j, (v, p)) in list.iter().zip(params).enumerate() {
                        if !same(v, p.0, p.1, &p.2) {
                            return Err(format!(
                                "list {i}: parameter {j} is {}, but the server decodes {}",
                                cut(format!("{v:?}")),
                                cut(format!("{p:?}"))
                            ));
                        }
                    }
                }
                x => return Err(format!("list {i}: the server received {}", cut(format!("{x:?}")))),
            }
        }
        Ok(())
    })
    .map_err(|_| "hangs".to_owned())?;
    ch.steps(lists.iter().map(|x| x.len() as u64).sum());
    if let Err(e) = session.server_errors() {
        return Err(format!("{e}; {res:?}"));
    }
    res
}

/// `list` in executions of up to `n` parameters.
fn in_lists(list: Vec<Value>, n: usize) -> (usize, Vec<Vec<Value>>) {
    let n = n.min(list.len());
    let mut lists: Vec<Vec<Value>> = list.chunks(n).map(<[_]>::to_vec).collect();
    lists.last_mut().unwrap().resize(n, Value::Null);
    (n, lists)
}

fn int(kind: Kind, x: i128) -> Value {
    let u = kind.1 & UNSIGNED != 0;
    match (kind.0, u) {
        (ty::TINY, false) => Value::Tiny(x as i8),
        (ty::TINY, true) => Value::UTiny(x as u8),
        (ty::SHORT, false) => Value::Short(x as i16),
        (ty::SHORT, true) => Value::UShort(x as u16),
        (ty::LONG, false) => Value::Int(x as i32),
        (ty::LONG, true) => Value::UInt(x as u32),
        (ty::LONGLONG, false) => Value::Long(x as i64),
        (ty::LONGLONG, true) => Value::ULong(x as u64),
        x => panic!("{x:?}"),
    }
}

/// One of every kind and encoded shape.
fn alphabet() -> Vec<Value> {
    vec![
        Value::Null,
        Value::Tiny(-128),
        Value::UTiny(255),
        Value::Short(-2),
        Value::UShort(65534),
        Value::Int(i32::MIN),
        Value::UInt(u32::MAX),
        Value::Long(i64::MIN),
        Value::ULong(u64::MAX),
        Value::Float(-0.1),
        Value::Double(1e300),
        Value::Bytes(Vec::new()),
        Value::Bytes(b"\xfbtext\0".to_vec()),
        Value::Bytes((0..251).map(|x| x as u8).collect()),
        Value::Bytes((0..300).map(|x| (x * 3) as u8).collect()),
        Value::Bytes(vec![0xFF; 65536]),
        Value::Date(0, 0, 0),
        Value::Date(2024, 2, 29),
        Value::Datetime(0, 0, 0, 0, 0, 0, 0),
        Value::Datetime(1999, 12, 31, 0, 0, 0, 0),
        Value::Datetime(1999, 12, 31, 23, 59, 58, 0),
        Value::Datetime(1999, 12, 31, 23, 59, 58, 999_999),
        Value::Time(false, 0, 0, 0, 0, 0),
        Value::Time(true, 34, 22, 59, 58, 0),
        Value::Time(false, 1, 2, 3, 4, 5),
    ]
}

fn main() {
    mc::main(
        "C11",
        Level {
            level: "exploration",
            rule: "every enumerated list of values is bound to a statement of the real client; an independent decoder of the \
                   binary protocol on the server's side has to read exactly this list (types, signedness, bits), or nothing at \
                   all if the number of values is wrong",
            assumptions: &[
                "the decoder of the reference server follows the protocol's documentation",
                "values between the enumerated ones behave like them",
            ],
        },
        |run| {
            let quick = run.quick();
            run.each(
                "integers",
                "8 integer types x all values of 8 and 16 bits, else all around powers of 2 and 10, patterns of bits",
                INTS.len(),
                |i, ch| {
                    let kind = INTS[i];
                    if kind.0 == ty::INT24 || kind.1 & !UNSIGNED != 0 {
                        ch.trivial();
                        return Ok(());
                    }
                    let (lo, hi) = range(kind);
                    let list: Vec<i128> = if hi - lo < 1 << 17 {
                        (lo..=hi).collect()
                    } else {
                        int_corners(kind)
                    };
                    let (n, lists) = in_lists(list.into_iter().map(|x| int(kind, x)).collect(), 1000);
                    check(n, &lists, ch.flag(), false, ch)
                },
            );
            let bits = run.by(5, 9);
            run.each(
                "floats",
                &format!("every sign and exponent x every top {bits} mantissa bits x 4 patterns of the others, single and double precision"),
                2 << bits,
                |i, ch| {
                    let top = (i / 2) as u64;
                    let list: Vec<Value> = if i % 2 == 0 {
                        let top = (top as u32) << (23 - bits);
                        let rest = (1u32 << (23 - bits)) - 1;
                        float_bits(&[top, top | 1, top | rest, top | rest / 3])
                            .map(|x| Value::Float(f32::from_bits(x)))
                            .collect()
                    } else {
                        let top = top << (52 - bits);
                        let rest = (1u64 << (52 - bits)) - 1;
                        double_bits(&[top, top | 1, top | rest, top | rest / 3])
                            .map(|x| Value::Double(f64::from_bits(x)))
                            .collect()
                    };
                    let (n, lists) = in_lists(list, 1024);
                    check(n, &lists, false, false, ch)
                },
            );
            run.each(
                "dates",
                if quick {
                    "every year 0-9999 x 6 days, all months x days of every 100th year"
                } else {
                    "every year 0-9999 x all months 0-12 x days 0-31"
                },
                100,
                |i, ch| {
                    let mut list = Vec::new();
                    for y in i as u16 * 100..i as u16 * 100 + 100 {
                        if quick && y % 100 != 23 {
                            for (m, d) in [(0, 0), (1, 1), (2, 29), (12, 31), (0, 31), (12, 0)] {
                                list.push(Value::Date(y, m, d));
                            }
                        } else {
                            for m in 0..=12 {
                                for d in 0..=31 {
                                    list.push(Value::Date(y, m, d));
                                }
                            }
                        }
                    }
                    let (n, lists) = in_lists(list, 1000);
                    check(n, &lists, false, false, ch)
                },
            );
            run.each(
                "shapes of temporal values",
                "DATETIME: every subset of its 7 parts being zero x 5 sets of values; TIME: every subset of its 5 parts x 5 sets x both signs",
                5,
                |i, ch| {
                    let (y, mo, d, h, mi, s, us, days) = [
                        (1u16, 1u8, 1u8, 1u8, 1u8, 1u8, 1u32, 1u32),
                        (9999, 12, 31, 23, 59, 59, 999_999, 34),
                        (2038, 1, 19, 3, 14, 7, 256, 0x0102_0304),
                        (256, 2, 29, 20, 10, 11, 0x01_0203, 255),
                        (1970, 10, 16, 17, 18, 19, 0x0F_0000, 256),
                    ][i];
                    let mut list = Vec::new();
                    for m in 0..128 {
                        let b = |n: u32| m >> n & 1;
                        list.push(Value::Datetime(
                            y * b(0) as u16,
                            mo * b(1) as u8,
                            d * b(2) as u8,
                            h * b(3) as u8,
                            mi * b(4) as u8,
                            s * b(5) as u8,
                            us * b(6),
                        ));
                        if m < 64 {
                            list.push(Value::Time(
                                b(5) != 0,
                                days * b(0),
                                h * b(1) as u8,
                                mi * b(2) as u8,
                                s * b(3) as u8,
                                us * b(4),
                            ));
                        }
                    }
                    let (n, lists) = in_lists(list.clone(), 7);
                    check(n, &lists, false, false, ch)?;
                    let (n, lists) = in_lists(list, 1000);
                    check(n, &lists, true, false, ch)
                },
            );
            run.each(
                "times",
                "every hour 0-838 x both signs x 16 minute/second pairs, with and without a fraction",
                84,
                |i, ch| {
                    let mut list = Vec::new();
                    for hours in i as u32 * 10..(i as u32 * 10 + 10).min(839) {
                        for neg in [false, true] {
                            for m in [0, 1, 30, 59] {
                                for s in [0, 1, 30, 59] {
                                    for us in [0, 1, 500_000] {
                                        list.push(Value::Time(neg, hours / 24, (hours % 24) as u8, m, s, us));
                                    }
                                }
                            }
                        }
                    }
                    let (n, lists) = in_lists(list, 960);
                    check(n, &lists, false, false, ch)
                },
            );
            let max = run.by(1100, 5000);
            run.each(
                "lengths of strings",
                &format!("every length 0-{max} and around 2^16, between other parameters, and all single bytes"),
                3,
                |i, ch| {
                    let lens: Vec<usize> = match i {
                        0 => (0..max).collect(),
                        1 => (65_500..65_570).collect(),
                        _ => vec![],
                    };
                    let mut lists: Vec<Vec<Value>> = lens
                        .into_iter()
                        .map(|n| {
                            vec![
                                Value::UShort(n as u16),
                                Value::Bytes((0..n).map(|x| (x * 31 + n + x / 256) as u8).collect()),
                                Value::Int(-(n as i32)),
                            ]
                        })
                        .collect();
                    if i == 2 {
                        for b in 0..=255 {
                            lists.push(vec![
                                Value::Bytes(vec![b]),
                                Value::Bytes(vec![b, 0, b]),
                                Value::Bytes(vec![0, b]),
                            ]);
                        }
                    }
                    check(3, &lists, ch.flag(), false, ch)
                },
            );
            let width = run.by(11, 16);
            run.each(
                "patterns of NULL",
                &format!("1-{width} parameters: every subset of NULLs, with numbers and strings in between"),
                width,
                |i, ch| {
                    let n = i + 1;
                    let lists: Vec<Vec<Value>> = (0..1usize << n)
                        .map(|mask| {
                            (0..n)
                                .map(|c| {
                                    if mask >> c & 1 != 0 {
                                        Value::Null
                                    } else if c % 2 == 0 {
                                        Value::Short(c as i16)
                                    } else {
                                        Value::Bytes(vec![c as u8; c])
                                    }
                                })
                                .collect()
                        })
                        .collect();
                    check(n, &lists, false, ch.flag(), ch)
                },
            );
            let wide: Vec<usize> = if quick {
                (0..=80)
                    .chain([127, 128, 249, 250, 251, 252, 253, 255, 256, 257, 1000, 32767, 32768, 65534, 65535])
                    .collect()
            } else {
                (0..=600).chain([1000, 4095, 4096, 32767, 32768, 65534, 65535]).collect()
            };
            run.each(
                "numbers of parameters",
                &format!(
                    "{} numbers of parameters up to 65535: one NULL, one value, neighbouring NULLs at every (wide: 40) position",
                    wide.len()
                ),
                wide.len(),
                |i, ch| {
                    let n = wide[i];
                    let row = |f: &dyn Fn(usize) -> bool| -> Vec<Value> {
                        (0..n)
                            .map(|c| if f(c) { Value::Null } else { Value::UInt(c as u32 * 65537) })
                            .collect()
                    };
                    let step = (n / if n > 5000 { 4 } else { 300 }).max(1);
                    let mut lists = vec![row(&|_| false), row(&|_| true)];
                    for p in (0..n).step_by(step).chain(n.saturating_sub(9)..n) {
                        lists.push(row(&|c| c == p));
                        lists.push(row(&|c| c != p));
                        lists.push(row(&|c| c == p || c == p + 1));
                    }
                    check(n, &lists, false, false, ch)
                },
            );
            let list = alphabet();
            run.space(
                "neighbours",
                &format!("every triple of the {} kinds and shapes of values, by value and by reference, as execute and as query", list.len()),
                |ch| {
                    let a = ch.pick(&list);
                    let b = ch.pick(&list);
                    let mode = ch.choose(4);
                    let lists: Vec<Vec<Value>> = list.iter().map(|c| vec![a.clone(), b.clone(), c.clone()]).collect();
                    check(3, &lists, mode & 1 != 0, mode & 2 != 0, ch)
                },
            );
            run.space(
                "executions after each other",
                &format!("every triple of executions of one statement with one of the {} kinds and shapes each", list.len()),
                |ch| {
                    let a = ch.pick(&list);
                    let b = ch.pick(&list);
                    let lists: Vec<Vec<Value>> = list
                        .iter()
                        .flat_map(|c| [vec![a.clone()], vec![b.clone()], vec![c.clone()]])
                        .collect();
                    check(1, &lists, false, false, ch)
                },
            );
            let most = run.by(12, 24);
            run.each(
                "wrong numbers of values",
                &format!(
                    "0-{most} (and 255-257, 65535) parameters x lists of every other length up to 4 more, execute and query, then the right one"
                ),
                most + 5,
                |i, ch| {
                    let n = match i.checked_sub(most + 1) {
                        None => i,
                        Some(j) => [255, 256, 257, 65535][j],
                    };
                    let query = ch.flag();
                    let lens: Vec<usize> = if n < 100 {
                        (0..n + 5).collect()
                    } else {
                        vec![0, 1, n - 256.min(n), n - 255, n - 2, n - 1, n + 1, n + 2, n + 255, n + 256, n + 65536]
                    };
                    let lists: Vec<Vec<Value>> = lens
                        .into_iter()
                        .filter(|m| *m != n)
                        .map(|m| (0..m).map(|x| if x % 2 == 0 { Value::Null } else { Value::Int(x as i32) }).collect())
                        .collect();
                    check(n, &lists, false, query, ch)
                },
            );
            // everything but strings is still sent inline
            let kinds = list.clone();
            run.each(
                "long data",
                "lists of 16 MB and more: a big string before, after and between one value of each kind (NULL and empty strings \
                 included), total sizes around the limit of one packet",
                run.by(9, 24),
                |i, ch| {
                    let mut rest = kinds.clone();
                    let at = [0, rest.len(), 11][i % 3];
                    let fixed: usize = {
                        // 10 + bitmap + 1 + types + values
                        let n = rest.len() + 1;
                        10 + (n + 7) / 8 + 1 + 2 * n + rest.iter().map(|x| x.bin_len() as usize).sum::<usize>()
                    };
                    let d = [0, 1, -1, 2, -2, 3, -3, 4][i / 3];
                    // 4 bytes of the length of the big one
                    let len = (0xFF_FFFF - 4 - fixed as i64 + d) as usize;
                    let big = (0..len).map(|x| (x ^ x >> 8 ^ x >> 16) as u8).collect();
                    rest.insert(at, Value::Bytes(big));
                    let small = vec![Value::Null; rest.len()];
                    check(rest.len(), &[rest, small.clone(), small], false, false, ch)
                },
            );
        },
    );
}

//! C05: packet framing is exact for payloads of every size.
use std::sync::{Arc, Mutex, OnceLock};

use mc::{
    drive::{options, run_op, Obs, Op, Read, Session, E},
    mock::{Pipe, Plan},
    rt, scen,
    server::{Cfg, Cmd, Server},
    wire::{self, ty, Cell, Col, End, ErrData, OkData, Reply, MAX},
    Chooser, Level,
};
use mysql_connector::{types::Value, Connection};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

/// ASCII without a period that divides the size of a packet.
fn pattern() -> &'static [u8] {
    static P: OnceLock<Vec<u8>> = OnceLock::new();
    P.get_or_init(|| {
        (0..4 * MAX + 64)
            .map(|i| {
                let x = (i as u32).wrapping_mul(0x9E37_79B1);
                32 + ((x >> 24) % 90) as u8
            })
            .collect()
    })
}

fn text(n: usize) -> &'static str {
    std::str::from_utf8(&pattern()[..n]).unwrap()
}

/// What a command or a row consists of, without its data.
fn digest(x: &[u8]) -> (usize, bool) {
    (x.len(), x == &pattern()[..x.len()])
}

/// Lengths around multiples of the maximum, and small ones.
fn lengths(quick: bool) -> Vec<usize> {
    let mut out = vec![];
    let d = if quick { 2 } else { 8 };
    for k in 1..=if quick { 2 } else { 3 } {
        out.extend(k * MAX - d..=k * MAX + d);
    }
    out
}

struct Seen {
    cmds: Arc<Mutex<Vec<(u8, usize, bool)>>>,
}

/// A server that answers `reply` to its first command and a probe afterwards; records digests of
/// the commands.
fn session(deprecate_eof: bool, mut first: Option<Vec<Reply>>) -> (Session, Seen) {
    let cmds: Arc<Mutex<Vec<(u8, usize, bool)>>> = Arc::default();
    let seen = cmds.clone();
    let server = Server::new(
        Cfg {
            caps: scen::caps(deprecate_eof),
            ..Cfg::default()
        },
        Box::new(move |cmd| {
            match cmd {
                Cmd::Query(x) if x == b"q99" => {
                    return scen::probe().replies[0].clone();
                }
                Cmd::Query(x) => {
                    let d = digest(x);
                    seen.lock().unwrap().push((3, d.0, d.1));
                }
                Cmd::Prepare(x) => {
                    let d = digest(x);
                    seen.lock().unwrap().push((22, d.0, d.1));
                }
                _ => {}
            }
            first.take().unwrap_or_else(|| vec![Reply::Ok(OkData::new(1, 2))])
        }),
    );
    (Session::of(server, Plan::default()), Seen { cmds })
}

/// The connection still works.
async fn probe(conn: &mut Connection) -> Result<(), String> {
    let item = scen::probe();
    let mut got = Vec::new();
    run_op(conn, &item.op, &mut got).await;
    let want = scen::Model::default().step(&item).0;
    if got != want {
        return Err(format!("the next query returned {got:?}"));
    }
    Ok(())
}

fn finish(s: &Session, ch: &mut Chooser) -> Result<(), String> {
    let p = s.pipe.lock().unwrap();
    ch.steps(p.calls);
    drop(p);
    s.server_errors()
}

fn connect_fails(e: mysql_connector::error::Error) -> String {
    format!("connect: {:?}", E::of(&e))
}

/// Splits the bytes the client sent into packets and checks their headers.
fn packets(pipe: &Pipe, from: usize) -> Result<Vec<(usize, u8)>, String> {
    let b = &pipe.c2s[from..];
    let mut at = 0;
    let mut out = Vec::new();
    while at < b.len() {
        if b.len() - at < 4 {
            return Err("incomplete header".into());
        }
        let n = u32::from_le_bytes([b[at], b[at + 1], b[at + 2], 0]) as usize;
        out.push((n, b[at + 3]));
        at += 4 + n;
    }
    Ok(out)
}

fn expected_packets(mut len: usize, mut seq: u8) -> Vec<(usize, u8)> {
    let mut out = Vec::new();
    loop {
        let n = len.min(MAX);
        out.push((n, seq));
        seq = seq.wrapping_add(1);
        len -= n;
        if n < MAX {
            return out;
        }
    }
}

fn main() {
    mc::main(
        "C05",
        Level {
            level: "exploration",
            rule: "every payload length within the bounds in each place where a message of that length \
                   can occur; the reference server reassembles and compares what the client sent, and \
                   the client's results are compared with what the server sent, followed by another \
                   query; non-trivial: all (each is a different length, kind or sequence id)",
            assumptions: &["lengths beyond the bounds are framed by the same rules"],
        },
        |run| {
            let quick = run.quick();
            let large = lengths(quick);
            pattern();
            run.space(
                "commands",
                "queries and preparations of every payload length from 2 to 300 (thorough: 70000) and \
                 within 2 (8) bytes of every multiple of 16777215 up to the 2nd (3rd)",
                |ch| {
                    let small = if quick { 300 } else { 70_000 };
                    let i = ch.choose(small - 1 + large.len());
                    let payload = if i < small - 1 { i + 2 } else { large[i - (small - 1)] };
                    let prepare = ch.flag();
                    let n = payload - 1;
                    let reply = if prepare {
                        vec![Reply::Err(ErrData::new(1, "HY000", "seen"))]
                    } else {
                        vec![Reply::Ok(OkData::new(1, 2))]
                    };
                    let (s, seen) = session(true, Some(reply));
                    rt::run(async {
                        let mut conn = s.connect().await.map_err(connect_fails)?;
                        let start = s.pipe.lock().unwrap().c2s.len();
                        let mut got = Vec::new();
                        let op = if prepare {
                            Op::Prepare(text(n).into(), Vec::new())
                        } else {
                            Op::Execute(text(n).into())
                        };
                        run_op(&mut conn, &op, &mut got).await;
                        let want = if prepare {
                            Obs::Err(E::server(&ErrData::new(1, "HY000", "seen")))
                        } else {
                            Obs::Ok(OkData::new(1, 2))
                        };
                        ch.note(|| format!("payload {payload} prepare {prepare} -> {got:?}"));
                        ch.outcome(&(payload, prepare));
                        if got != [want] {
                            return Err(format!("command of {payload} bytes: {got:?}"));
                        }
                        let sent = packets(&s.pipe.lock().unwrap(), start)?;
                        let want = expected_packets(payload, 0);
                        if sent != want {
                            return Err(format!("command of {payload} bytes was sent as {sent:?} instead of {want:?}"));
                        }
                        let cmds = seen.cmds.lock().unwrap().clone();
                        if cmds != [(if prepare { 22 } else { 3 }, n, true)] {
                            return Err(format!("command of {payload} bytes: the server received {cmds:?}"));
                        }
                        probe(&mut conn).await.map_err(|e| format!("after a command of {payload} bytes: {e}"))
                    })
                    .map_err(|_| format!("hang with a command of {payload} bytes"))??;
                    finish(&s, ch)
                },
            );
            run.space(
                "rows",
                "rows of every payload length from 1 to 300 (thorough: 70000) and around multiples of \
                 16777215, text protocol, as first, middle or last row, read or drained, with or \
                 without DEPRECATE_EOF",
                |ch| {
                    let small = if quick { 300 } else { 70_000 };
                    let i = ch.choose(small + large.len());
                    let payload = if i < small { i + 1 } else { large[i - small] };
                    // two columns: the first one fills up, so every length is possible
                    let mut first = payload.saturating_sub(1);
                    let head = |n: usize| wire_len(n);
                    while first > 0 && head(first) + first + 1 > payload {
                        first -= 1;
                    }
                    if payload < 2 {
                        return one_null(ch);
                    }
                    let used = head(first) + first;
                    let second = payload - used - 1;
                    let place = ch.choose(3);
                    let eof = ch.flag();
                    let drained = ch.flag();
                    let row = vec![
                        Cell::Bytes(pattern()[..first].to_vec()),
                        Cell::Bytes(vec![b'x'; second]),
                    ];
                    assert_eq!(
                        wire::text_row(&[Col::new("a", ty::LONG_BLOB, 0), Col::new("b", ty::LONG_BLOB, 0)], &row).len(),
                        payload
                    );
                    let small_row = |i: u8| vec![Cell::Bytes(vec![i]), Cell::Null];
                    let mut rows = vec![small_row(1), small_row(2)];
                    rows.insert(place, row);
                    check_rows(
                        vec![Col::new("a", ty::LONG_BLOB, 0), Col::new("b", ty::LONG_BLOB, 0)],
                        rows,
                        first,
                        second,
                        place,
                        false,
                        eof,
                        drained,
                        ch,
                    )
                },
            );
            run.space(
                "binary rows",
                "rows of prepared statements of every payload length from 3 to 300 and around multiples \
                 of 16777215",
                |ch| {
                    let i = ch.choose(298 + large.len());
                    let payload = if i < 298 { i + 3 } else { large[i - 298] };
                    let mut first = payload - 2;
                    while first > 0 && 2 + wire_len(first) + first > payload {
                        first -= 1;
                    }
                    let exact = 2 + wire_len(first) + first == payload;
                    if !exact {
                        ch.trivial();
                    }
                    let eof = ch.flag();
                    check_rows(
                        vec![Col::new("a", ty::LONG_BLOB, 0)],
                        vec![vec![Cell::Bytes(pattern()[..first].to_vec())], vec![Cell::Null]],
                        first,
                        usize::MAX,
                        0,
                        true,
                        eof,
                        false,
                        ch,
                    )
                },
            );
            run.space(
                "other messages of the server",
                "error and OK messages of every payload length up to 300 and around 16777215",
                |ch| {
                    let mut all: Vec<usize> = (0..300).collect();
                    // header, code, state: 9 bytes; the message takes the rest
                    all.extend(MAX - 16..=MAX + 3);
                    let n = all[ch.choose(all.len())];
                    let is_err = ch.flag();
                    let msg = text(n).to_owned();
                    let reply = if is_err {
                        Reply::Err(ErrData::new(1234, "HY000", &msg))
                    } else {
                        let mut ok = OkData::new(3, 4);
                        ok.info = msg.clone();
                        Reply::Ok(ok)
                    };
                    let (s, _) = session(true, Some(vec![reply.clone()]));
                    rt::run(async {
                        let mut conn = s.connect().await.map_err(connect_fails)?;
                        let mut got = Vec::new();
                        run_op(&mut conn, &Op::Execute("q".into()), &mut got).await;
                        ch.outcome(&(n, is_err));
                        let want = match reply {
                            Reply::Err(e) => Obs::Err(E::server(&e)),
                            Reply::Ok(o) => Obs::Ok(o),
                            _ => unreachable!(),
                        };
                        if got != [want] {
                            return Err(format!("message of {n} bytes, error: {is_err}: something else was returned"));
                        }
                        probe(&mut conn).await.map_err(|e| format!("after a message of {n} bytes: {e}"))
                    })
                    .map_err(|_| format!("hang with a message of {n} bytes"))??;
                    finish(&s, ch)
                },
            );
            run.space(
                "sequence ids",
                "a result of n rows for every n from 0 to 600, so that its end, and a large row with \
                 continuation, carry every sequence id",
                |ch| {
                    let n = ch.choose(601);
                    // a large row after n others (every n around a wrap)
                    let big = (250..260).contains(&n) && ch.flag();
                    let mut rows: Vec<Vec<Cell>> = (0..n)
                        .map(|i| vec![Cell::Bytes(format!("{i}").into_bytes())])
                        .collect();
                    if big {
                        rows.push(vec![Cell::Bytes(pattern()[..2 * MAX - 9].to_vec())]);
                    }
                    let cols = vec![Col::new("a", ty::LONG_BLOB, 0)];
                    let (s, _) = session(
                        ch.flag(),
                        Some(vec![Reply::Rows {
                            cols,
                            rows,
                            end: End::Ok(OkData::new(0, 0)),
                        }]),
                    );
                    let drained = ch.flag();
                    rt::run(async {
                        let mut conn = s.connect().await.map_err(connect_fails)?;
                        let mut rs = conn
                            .query::<Vec<Value>>("q")
                            .await
                            .map_err(|e| format!("{n} rows: {:?}", E::of(&e)))?;
                        if !drained {
                            let got = rs.collect().await.map_err(|e| format!("{n} rows: {:?}", E::of(&e)))?;
                            let ok = got.len() == n + big as usize
                                && got[..n]
                                    .iter()
                                    .enumerate()
                                    .all(|(i, r)| matches!(&r[..], [Value::Bytes(x)] if *x == format!("{i}").into_bytes()))
                                && (!big
                                    || matches!(&got[n][..], [Value::Bytes(x)] if digest(x) == (2 * MAX - 9, true)));
                            if !ok {
                                return Err(format!("{n} rows: other rows were returned"));
                            }
                        }
                        ch.outcome(&(n, big));
                        drop(rs);
                        probe(&mut conn).await.map_err(|e| format!("after {n} rows: {e}"))
                    })
                    .map_err(|_| format!("hang with {n} rows"))??;
                    finish(&s, ch)
                },
            );
            let depth = run.by(2usize, 6);
            run.space(
                "large parameters",
                "executions of a statement with 1 to 3 parameters (one large, the others NULL, number, \
                 empty or short), whose request takes within 2 (thorough: 6) bytes of the maximal packet, \
                 and parameters around what fits into one and two packets of long data",
                |ch| {
                    // everything of the request but the data of the large parameter
                    let kinds = [0usize, 1, 2, 3];
                    let n = 1 + ch.choose(3);
                    let at = ch.choose(n);
                    let others: Vec<usize> = (1..n).map(|_| *ch.pick(&kinds)).collect();
                    let mut values = Vec::new();
                    let mut rest = others.iter();
                    let mut inline = 10 + (n + 7) / 8 + 1 + 2 * n;
                    for i in 0..n {
                        if i == at {
                            values.push(Value::Null);
                            continue;
                        }
                        values.push(match rest.next().unwrap() {
                            0 => Value::Null,
                            1 => {
                                inline += 8;
                                Value::ULong(1 << 40)
                            }
                            2 => {
                                inline += 1;
                                Value::Bytes(Vec::new())
                            }
                            _ => {
                                inline += 4;
                                Value::Bytes(b"abc".to_vec())
                            }
                        });
                    }
                    let chunk = MAX - 7 + 1;
                    let near = |x: usize| x - depth..=x + depth;
                    let mut sizes: Vec<usize> = near(MAX - inline - 4).collect();
                    if n == 1 || others.iter().all(|x| *x == 2) {
                        sizes.extend(near(chunk));
                        sizes.extend(near(MAX));
                        sizes.extend(near(2 * chunk));
                    }
                    let size = sizes[ch.choose(sizes.len())];
                    values[at] = Value::Bytes(pattern()[..size].to_vec());
                    let got: Arc<Mutex<Vec<(u32, Vec<String>)>>> = Arc::default();
                    let g = got.clone();
                    let server = Server::new(
                        Cfg::default(),
                        Box::new(move |cmd| match cmd {
                            Cmd::Query(_) => scen::probe().replies[0].clone(),
                            Cmd::Prepare(_) => vec![Reply::Prepared {
                                id: 77,
                                params: n,
                                cols: Vec::new(),
                            }],
                            Cmd::Execute { stmt, params } => {
                                g.lock().unwrap().push((
                                    *stmt,
                                    params
                                        .iter()
                                        .map(|x| match &x.2 {
                                            Cell::Bytes(x) => format!("{:?}", digest(x)),
                                            x => format!("{x:?}"),
                                        })
                                        .collect(),
                                ));
                                vec![Reply::Ok(OkData::new(1, 2))]
                            }
                            _ => vec![],
                        }),
                    );
                    let s = Session::of(server, Plan::default());
                    let twice = ch.flag();
                    let want: Vec<String> = values
                        .iter()
                        .map(|x| match x {
                            Value::Null => format!("{:?}", Cell::Null),
                            Value::ULong(x) => format!("{:?}", Cell::Int(*x as i128)),
                            Value::Bytes(x) => format!("{:?}", digest(x)),
                            _ => unreachable!(),
                        })
                        .collect();
                    let label = format!("parameters {want:?}");
                    ch.outcome(&label);
                    ch.note(|| label.clone());
                    rt::run(async {
                        let mut o = options::<false>(&s.pipe);
                        o.max_allowed_packet = Some(1 << 30);
                        let mut conn = Connection::connect(Arc::new(o)).await.map_err(connect_fails)?;
                        {
                            let mut stmt = conn.prepare_statement("p").await.map_err(|e| format!("{:?}", E::of(&e)))?;
                            for _ in 0..1 + twice as usize {
                                let ok = stmt.execute(&values).await.map_err(|e| format!("{label}: {:?}", E::of(&e)))?;
                                if ok.affected_rows() != 1 {
                                    return Err(format!("{label}: another response"));
                                }
                                // the long data is not remembered
                                values[at] = Value::Bytes(b"short".to_vec());
                            }
                        }
                        probe(&mut conn).await
                    })
                    .map_err(|_| format!("{label}: hang"))??;
                    let got = got.lock().unwrap();
                    if got.first() != Some(&(77, want.clone())) {
                        return Err(format!("{label}: the server received {got:?}"));
                    }
                    if twice {
                        let mut want = want;
                        want[at] = format!("{:?}", (5, false));
                        if got.get(1) != Some(&(77, want)) {
                            return Err(format!("{label}: then the server received {got:?}"));
                        }
                    }
                    finish(&s, ch)
                },
            );
        },
    )
}

/// Length of a length encoded integer.
fn wire_len(n: usize) -> usize {
    match n {
        0..=250 => 1,
        251..=0xFFFF => 3,
        0x1_0000..=0xFF_FFFF => 4,
        _ => 9,
    }
}

/// The shortest row.
fn one_null(ch: &mut Chooser) -> Result<(), String> {
    check_rows(
        vec![Col::new("a", ty::LONG_BLOB, 0)],
        vec![vec![Cell::Bytes(Vec::new())], vec![Cell::Null]],
        0,
        usize::MAX,
        0,
        false,
        true,
        false,
        ch,
    )
}

#[allow(clippy::too_many_arguments)]
fn check_rows(
    cols: Vec<Col>,
    rows: Vec<Vec<Cell>>,
    first: usize,
    second: usize,
    place: usize,
    binary: bool,
    eof: bool,
    drained: bool,
    ch: &mut Chooser,
) -> Result<(), String> {
    let count = rows.len();
    let set = vec![Reply::Rows {
        cols,
        rows,
        end: End::Ok(OkData::new(0, 0)),
    }];
    let reply = if binary {
        vec![Reply::Prepared {
            id: 5,
            params: 0,
            cols: Vec::new(),
        }]
    } else {
        set.clone()
    };
    // the second command gets the rows of the statement
    let mut list = vec![set];
    let mut reply = Some(reply);
    let server = Server::new(
        Cfg {
            caps: scen::caps(eof),
            ..Cfg::default()
        },
        Box::new(move |cmd| match cmd {
            Cmd::Query(x) if x == b"q99" => scen::probe().replies[0].clone(),
            Cmd::Execute { .. } => list.pop().unwrap(),
            _ => reply.take().unwrap(),
        }),
    );
    let s = Session::of(server, Plan::default());
    let label = format!("row of {first} and {second} bytes, binary: {binary}, deprecate_eof: {eof}, drained: {drained}, place {place}");
    ch.outcome(&label);
    ch.note(|| label.clone());
    fn good(rows: &[Vec<Value>], count: usize, place: usize, first: usize, second: usize) -> bool {
        rows.len() == count
            && rows.iter().enumerate().all(|(i, r)| {
                if i != place {
                    return r.len() == if second == usize::MAX { 1 } else { 2 };
                }
                let a = matches!(&r[0], Value::Bytes(x) if digest(x) == (first, true));
                let b = second == usize::MAX
                    || matches!(&r[1], Value::Bytes(x) if x.len() == second && x.iter().all(|x| *x == b'x'));
                a && b
            })
    }
    rt::run(async {
        let mut conn = s.connect().await.map_err(connect_fails)?;
        let fails = |e: mysql_connector::error::Error| format!("{label}: {:?}", E::of(&e));
        if binary {
            let mut stmt = conn.prepare_statement("p").await.map_err(fails)?;
            let mut rs = stmt.query::<Value, Vec<Value>>(&[]).await.map_err(fails)?;
            let got = rs.collect().await.map_err(fails)?;
            if !good(&got, count, place, first, second) {
                return Err(format!("{label}: other rows were returned"));
            }
        } else {
            let mut rs = conn.query::<Vec<Value>>("q").await.map_err(fails)?;
            if !drained {
                let got = rs.collect().await.map_err(fails)?;
                if !good(&got, count, place, first, second) {
                    return Err(format!("{label}: other rows were returned"));
                }
            }
        }
        probe(&mut conn).await.map_err(|e| format!("{label}: {e}"))
    })
    .map_err(|_| format!("{label}: hang"))??;
    let _ = Read::All;
    finish(&s, ch)
}

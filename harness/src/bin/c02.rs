//! C02: how the transport segments I/O is unobservable.
use std::sync::Arc;

use mc::{
    cases::{Case, CASES},
    drive::{options, run_op, Obs, Read, Session, E},
    mock::{Act, Plan},
    rt,
    scen::{self, Item},
    server::{Cfg, Server},
    wire::OkData,
    Chooser, Level,
};
use mysql_connector::Connection;

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

#[derive(PartialEq)]
struct Outcome {
    connect: Option<E>,
    obs: Vec<Vec<Obs>>,
    c2s: Vec<u8>,
    s2c: usize,
    flushes: usize,
    marks: Vec<usize>,
    calls: u64,
    /// all deviations took place
    happened: bool,
}

fn execute(case: &Case, plan: Plan) -> Result<Outcome, String> {
    let items = (case.items)();
    let mut handler = scen::handler(&items);
    let big = case.big;
    let s = Session::of(
        Server::new(
            (case.cfg)(),
            Box::new(move |cmd| match cmd {
                mc::server::Cmd::Query(x) if x == b"select @@max_allowed_packet" => {
                    vec![mc::wire::Reply::Rows {
                        cols: vec![mc::wire::Col::new("@@max_allowed_packet", mc::wire::ty::LONGLONG, 32)],
                        rows: vec![vec![mc::wire::Cell::Int(1 << 26)]],
                        end: mc::wire::End::Ok(OkData::new(0, 0)),
                    }]
                }
                mc::server::Cmd::Query(x) if big != 0 && x[0] == b'B' => {
                    vec![mc::wire::Reply::Rows {
                        cols: vec![mc::wire::Col::new("b", mc::wire::ty::LONG_BLOB, 0)],
                        rows: vec![vec![mc::wire::Cell::Bytes(vec![7; x.len()])]],
                        end: mc::wire::End::Ok(OkData::new(0, 0)),
                    }]
                }
                c => handler(c),
            }),
        ),
        plan,
    );
    async fn go(conn: Result<Connection, mysql_connector::Error>, items: &[Item], big: usize) -> (Option<E>, Vec<Vec<Obs>>) {
        let mut conn = match conn {
            Ok(x) => x,
            Err(e) => return (Some(E::of(&e)), Vec::new()),
        };
        let mut all = Vec::new();
        if big != 0 {
            let sql = "B".repeat(big);
            let mut out = Vec::new();
            match conn.query::<Vec<mysql_connector::types::Value>>(&sql).await {
                Ok(mut rs) => match rs.collect().await {
                    Ok(rows) => out.push(Obs::Row(vec![format!("{} rows", rows.len()), format!("{:?}", rows.iter().flatten().map(|v| match v {
                        mysql_connector::types::Value::Bytes(x) => mc::engine::hash(x),
                        _ => 0,
                    }).collect::<Vec<_>>())])),
                    Err(e) => out.push(Obs::Err(E::of(&e))),
                },
                Err(e) => out.push(Obs::Err(E::of(&e))),
            }
            all.push(out);
        }
        for item in items {
            let mut out = Vec::new();
            run_op(&mut conn, &item.op, &mut out).await;
            all.push(out);
        }
        (None, all)
    }
    let (connect, obs) = rt::run(async {
        if case.secure {
            let mut o = options::<true>(&s.pipe);
            if case.settings {
                o.max_allowed_packet = None;
            }
            go(Connection::connect(Arc::new(o)).await, &items, big).await
        } else {
            let mut o = options::<false>(&s.pipe);
            if case.settings {
                o.max_allowed_packet = None;
            }
            go(Connection::connect(Arc::new(o)).await, &items, big).await
        }
    })
    .map_err(|_| "the session hangs".to_owned())?;
    s.server_errors()?;
    let mut pipe = s.pipe.lock().unwrap();
    let log = s.log.lock().unwrap();
    Ok(Outcome {
        connect,
        obs,
        c2s: if case.random { vec![0; pipe.c2s.len()] } else { std::mem::take(&mut pipe.c2s) },
        s2c: pipe.s2c.len(),
        flushes: pipe.flushes,
        calls: pipe.calls,
        happened: pipe.all_happened(),
        marks: log.marks.iter().map(|x| x.at).collect(),
    })
}

fn compare(case: &Case, ideal: &Outcome, plan: Plan, ch: &mut Chooser) -> Result<(), String> {
    let text = format!("{plan:?}");
    ch.note(|| format!("{}: {text}", case.name));
    let got = execute(case, plan).map_err(|e| format!("{}: {e} with {text}", case.name))?;
    ch.steps(got.calls);
    ch.outcome(&(case.name, &got.connect, &got.obs));
    if !got.happened {
        ch.trivial();
    }
    if got.connect != ideal.connect || got.obs != ideal.obs {
        return Err(format!(
            "{}: {:?} {:?} instead of {:?} {:?} with {text}",
            case.name, got.connect, got.obs, ideal.connect, ideal.obs
        ));
    }
    if got.c2s != ideal.c2s {
        return Err(format!("{}: other bytes were sent with {text}", case.name));
    }
    Ok(())
}

fn main() {
    mc::main(
        "C02",
        Level {
            level: "fault_enumeration",
            rule: "every transport within the bounds (positions of splits, pending polls and delays), \
                   each session compared with the same session over an ideal transport: outcomes of \
                   all operations and every byte sent; a case is one transport for one session, steps are calls of the transport; it is non-trivial if every deviation took place",
            assumptions: &[
                "delays are shorter than the timeout (longer ones: C04)",
                "bytes encrypted with RSA are compared by length and by what the server decrypts",
            ],
        },
        |run| {
            let ideal: Vec<Outcome> = CASES
                .iter()
                .map(|c| execute(c, Plan::default()).expect("ideal transport"))
                .collect();
            let acts = [Act::Split, Act::Pend, Act::Delay(9_000)];
            run.space(
                "one deviation",
                "a split, pending poll or delay at every byte offset of either direction and at \
                 every flush, with and without buffering until flush; 6 sessions",
                |ch| {
                    let i = ch.choose(CASES.len());
                    let mut plan = Plan {
                        buffered: ch.flag(),
                        ..Plan::default()
                    };
                    let act = *ch.pick(&acts);
                    match ch.choose(3) {
                        0 => plan.read.push((ch.choose(ideal[i].s2c + 1), act)),
                        1 => plan.write.push((ch.choose(ideal[i].c2s.len() + 1), act)),
                        _ => plan.flush.push((ch.choose(ideal[i].flushes + 1), act)),
                    }
                    compare(&CASES[i], &ideal[i], plan, ch)
                },
            );
            run.space(
                "chunks",
                "reads and writes of at most 1..=n bytes (0: unlimited) with pending polls before \
                 each read, write or flush or none, buffered or not; 6 sessions",
                |ch| {
                    let i = ch.choose(CASES.len());
                    let r = ch.choose(24);
                    let w = ch.choose(12);
                    let bits = ch.choose(16);
                    let plan = Plan {
                        read_chunk: r,
                        write_chunk: w,
                        buffered: bits & 1 != 0,
                        pend_read: bits & 2 != 0,
                        pend_write: bits & 4 != 0,
                        pend_flush: bits & 8 != 0,
                        delay_read: if bits == 15 { 50 } else { 0 },
                        ..Plan::default()
                    };
                    compare(&CASES[i], &ideal[i], plan, ch)
                },
            );
            let pairs: &[usize] = run.by(&[0][..], &[0, 1, 2, 3, 4, 5][..]);
            run.space(
                "two deviations",
                "splits or pending polls at every pair of offsets (read and read, write and write, \
                 read and write, write and flush) of the session 'query' (thorough: of all 6 sessions)",
                |ch| {
                    let i = *ch.pick(pairs);
                    let id = &ideal[i];
                    let act = *ch.pick(&[Act::Split, Act::Pend]);
                    let mut plan = Plan {
                        buffered: ch.flag(),
                        ..Plan::default()
                    };
                    match ch.choose(4) {
                        0 => {
                            let a = ch.choose(id.s2c);
                            let b = a + 1 + ch.choose(id.s2c - a);
                            plan.read.extend([(a, act), (b, act)]);
                        }
                        1 => {
                            let a = ch.choose(id.c2s.len());
                            let b = a + 1 + ch.choose(id.c2s.len() - a);
                            plan.write.extend([(a, act), (b, act)]);
                        }
                        2 => {
                            plan.read.push((ch.choose(id.s2c), act));
                            plan.write.push((ch.choose(id.c2s.len()), act));
                        }
                        _ => {
                            plan.write.push((ch.choose(id.c2s.len()), act));
                            plan.flush.push((ch.choose(id.flushes), Act::Pend));
                        }
                    }
                    compare(&CASES[i], id, plan, ch)
                },
            );
            let width = run.by(12, 15);
            run.space(
                "windows",
                "every way to segment a window of 12 (thorough: 15) bytes around every packet header \
                 (1 before, the rest after its start), with or without pending polls at the cuts",
                |ch| {
                    let i = ch.choose(2);
                    let id = &ideal[i];
                    let m = *ch.pick(&id.marks);
                    let start = m.max(1) - 1;
                    let act = *ch.pick(&[Act::Split, Act::Pend]);
                    let bits = ch.choose(1 << width);
                    let plan = Plan {
                        read: (0..width)
                            .filter(|b| bits >> b & 1 != 0)
                            .map(|b| (start + b, act))
                            .collect(),
                        ..Plan::default()
                    };
                    compare(&CASES[i], id, plan, ch)
                },
            );
            let big = Case {
                name: "large packets",
                big: mc::wire::MAX + 20,
                cfg: Cfg::default,
                items: || vec![scen::query(0, 2, Read::All)],
                secure: false,
                random: false,
                settings: false,
            };
            let big_ideal = execute(&big, Plan::default()).expect("ideal transport");
            // offsets of the second packet of the command and of the row
            let login = big_ideal.c2s.len() - (5 + 2) - (4 + 4) - (mc::wire::MAX + 21);
            let row = *big_ideal
                .marks
                .windows(2)
                .find(|x| x[1] - x[0] > mc::wire::MAX)
                .map(|x| &x[1])
                .expect("large packet");
            let step = run.by(2, 1);
            run.space(
                "large packets",
                "one split or pending poll around the headers of continued packets",
                |ch| {
                    let act = *ch.pick(&[Act::Split, Act::Pend]);
                    let at = ch.choose(24 / step) * step;
                    let mut plan = Plan {
                        buffered: ch.flag(),
                        ..Plan::default()
                    };
                    if ch.flag() {
                        plan.read.push((row - 8 + at, act));
                    } else {
                        plan.write.push((login + mc::wire::MAX - 8 + at, act));
                    }
                    compare(&big, &big_ideal, plan, ch)
                },
            );
        },
    )
}

//! C06: packets with a wrong sequence id are never accepted.
use std::sync::Arc;

use mc::{
    cases::{Case, CASES},
    drive::{options, run_op, Obs, Op, Read, Session, E},
    mock::{Act, Plan},
    rt,
    scen::{self, Item},
    server::{Cfg, Cmd, Server},
    wire::{self, Cell, Col, End, OkData, Reply},
    Chooser, Level,
};
use mysql_connector::{types::Value, Connection};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

struct Ran {
    connect: Option<E>,
    obs: Vec<Obs>,
    marks: Vec<(usize, usize, u8)>,
    io: u64,
    rpos: usize,
}

fn big_query(n: usize) -> Item {
    Item {
        op: Op::Query("b".repeat(n), Read::All),
        replies: vec![vec![Reply::Rows {
            cols: vec![Col::new("b", wire::ty::LONG_BLOB, 0)],
            rows: vec![vec![Cell::Bytes(vec![b'r'; wire::MAX + 10])], vec![Cell::from("x")]],
            end: End::Ok(OkData::new(0, 0)),
        }]],
        stmt: 0,
    }
}

fn run(case: &Case, plan: Plan, items: &[Item], wrong: Option<(usize, u8)>) -> Result<Ran, String> {
    let mut handler = scen::handler(items);
    let mut server = Server::new(
        (case.cfg)(),
        Box::new(move |cmd| match cmd {
            Cmd::Query(x) if x == b"select @@max_allowed_packet" => {
                vec![Reply::Rows {
                    cols: vec![Col::new("@@max_allowed_packet", wire::ty::LONGLONG, 32)],
                    rows: vec![vec![Cell::Int(1 << 26)]],
                    end: End::Ok(OkData::new(0, 0)),
                }]
            }
            c => handler(c),
        }),
    );
    if let Some((at, delta)) = wrong {
        server.tamper = Some(Box::new(move |i, _, seq| {
            if i == at {
                *seq = seq.wrapping_add(delta);
            }
            None
        }));
    }
    let s = Session::of(server, plan);
    async fn go(conn: Result<Connection, mysql_connector::error::Error>, items: &[Item]) -> (Option<E>, Vec<Obs>) {
        let mut conn = match conn {
            Ok(x) => x,
            Err(e) => return (Some(E::of(&e)), Vec::new()),
        };
        let mut out = Vec::new();
        for item in items {
            run_op(&mut conn, &item.op, &mut out).await;
        }
        // rows of megabytes
        for x in &mut out {
            if let Obs::Row(r) = x {
                for v in r {
                    if v.len() > 100 {
                        *v = format!("{}", v.len());
                    }
                }
            }
        }
        (None, out)
    }
    let (connect, obs) = rt::run(async {
        if case.secure {
            let mut o = options::<true>(&s.pipe);
            if case.settings {
                o.max_allowed_packet = None;
            }
            go(Connection::connect(Arc::new(o)).await, items).await
        } else {
            let mut o = options::<false>(&s.pipe);
            if case.settings {
                o.max_allowed_packet = None;
            }
            go(Connection::connect(Arc::new(o)).await, items).await
        }
    })
    .map_err(|_| "hang".to_owned())?;
    s.server_errors()?;
    let p = s.pipe.lock().unwrap();
    let log = s.log.lock().unwrap();
    let _ = Value::Null;
    Ok(Ran {
        connect,
        obs,
        marks: log.marks.iter().map(|x| (x.at, x.len, x.seq)).collect(),
        io: p.calls,
        rpos: p.rpos,
    })
}

fn check(case: &Case, items: &[Item], ideal: &Ran, at: usize, delta: u8, plan: Plan, ch: &mut Chooser) -> Result<(), String> {
    let (start, len, seq) = ideal.marks[at];
    let text = format!(
        "{}: packet {at} with {} instead of {seq}",
        case.name,
        seq.wrapping_add(delta)
    );
    let got = run(case, plan, items, Some((at, delta))).map_err(|e| format!("{text}: {e}"))?;
    ch.steps(got.io);
    ch.outcome(&(case.name, at, &got.connect, &got.obs));
    ch.note(|| format!("{text} -> {:?} {:?}", got.connect, got.obs));
    if start >= ideal.rpos {
        // never read
        ch.trivial();
        if got.connect != ideal.connect || got.obs != ideal.obs {
            return Err(format!("{text}: a packet that nobody asked for was noticed: {:?}", got.obs));
        }
        return Ok(());
    }
    // what the client knows if the packet is never completed
    let stop = Plan {
        read: vec![(start + 4 + len - (len > 0) as usize, Act::Stall)],
        ..Plan::default()
    };
    let known = run(case, stop, items, None).map_err(|e| format!("{text}: {e}"))?;
    let fails = |e: &E| matches!(e, E::OutOfSync | E::Other(_));
    if let Some(e) = &known.connect {
        assert_eq!(*e, E::Timeout);
        return match &got.connect {
            Some(e) if fails(e) => Ok(()),
            x => Err(format!("{text}: connect returned {x:?}")),
        };
    }
    if got.connect.is_some() {
        return Err(format!("{text}: connect failed: {:?}", got.connect));
    }
    let n = known
        .obs
        .iter()
        .position(|x| matches!(x, Obs::Err(E::Timeout)))
        .expect("timeout");
    if got.obs.len() <= n || got.obs[..n] != known.obs[..n] {
        return Err(format!("{text}: {:?} instead of {:?}", got.obs, &known.obs[..n]));
    }
    for x in &got.obs[n..] {
        match x {
            Obs::Err(e) if fails(e) => {}
            x => return Err(format!("{text}: returned {x:?}, all: {:?}", got.obs)),
        }
    }
    Ok(())
}

fn main() {
    mc::main(
        "C06",
        Level {
            level: "fault_enumeration",
            rule: "every packet of the server in sessions using every part of the protocol is given every \
                   wrong sequence id; the call that reads it has to fail with a protocol error, what \
                   was returned before must be what is known without the packet, and everything after \
                   has to fail; non-trivial: the packet is read",
            assumptions: &["one wrong sequence id per session (thorough: also the following packet continues it)"],
        },
        |run_| {
            let mut cases: Vec<(&Case, Vec<Item>)> = CASES
                .iter()
                .map(|c| {
                    let mut items = (c.items)();
                    items.extend([scen::execute(90, 0), scen::query(91, 2, Read::All), scen::probe()]);
                    (c, items)
                })
                .collect();
            // without the response to the login there are no items
            let long = Case {
                name: "many rows",
                cfg: Cfg::default,
                items: Vec::new,
                secure: false,
                random: false,
                settings: false,
                big: 0,
            };
            cases.push((
                &long,
                vec![
                    scen::query(0, 300, Read::All),
                    scen::query(1, 270, Read::Next(0)),
                    scen::probe(),
                ],
            ));
            let ideal: Vec<Ran> = cases
                .iter()
                .map(|(c, items)| run(c, Plan::default(), items, None).expect("ideal"))
                .collect();
            run_.space(
                "wrong sequence ids",
                "6 sessions: every packet of the server with each of the 255 wrong sequence ids",
                |ch| {
                    let i = ch.choose(6);
                    let at = ch.choose(ideal[i].marks.len());
                    let delta = 1 + ch.choose(255) as u8;
                    check(cases[i].0, &cases[i].1, &ideal[i], at, delta, Plan::default(), ch)
                },
            );
            run_.space(
                "long result",
                "a result of 300 rows that is read and one of 270 rows that is drained: every packet \
                 with the sequence ids 1, 2, 127, 128, 254 and 255 after the right one",
                |ch| {
                    let at = ch.choose(ideal[6].marks.len());
                    let delta = *ch.pick(&[1, 2, 127, 128, 254, 255u8]);
                    check(cases[6].0, &cases[6].1, &ideal[6], at, delta, Plan::default(), ch)
                },
            );
            let large = Case {
                name: "continued packets",
                ..Case { ..CASES_LARGE }
            };
            let items = vec![big_query(wire::MAX + 5), scen::probe()];
            let id = run(&large, Plan::default(), &items, None).expect("ideal");
            run_.space(
                "continued packets",
                "a command and a row of more than 16 MB: every packet of the server, the continuation \
                 included, with 5 wrong sequence ids",
                |ch| {
                    let at = ch.choose(id.marks.len());
                    let delta = *ch.pick(&[1, 2, 128, 254, 255u8]);
                    check(&large, &items, &id, at, delta, Plan::default(), ch)
                },
            );
            if !run_.quick() {
                run_.space(
                    "chunked transport",
                    "the same over a transport that returns at most 1, 2, 3, 5 or 7 bytes at once",
                    |ch| {
                        let i = ch.choose(6);
                        let at = ch.choose(ideal[i].marks.len());
                        let delta = 1 + ch.choose(255) as u8;
                        let plan = Plan {
                            read_chunk: *ch.pick(&[1, 2, 3, 5, 7]),
                            ..Plan::default()
                        };
                        check(cases[i].0, &cases[i].1, &ideal[i], at, delta, plan, ch)
                    },
                );
            }
        },
    )
}

const CASES_LARGE: Case = Case {
    name: "",
    cfg: Cfg::default,
    items: Vec::new,
    secure: false,
    random: false,
    settings: false,
    big: 0,
};

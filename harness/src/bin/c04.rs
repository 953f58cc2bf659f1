//! C04: a silent peer times the operation out, a slow one does not.
//!
//! Built twice: with the feature `time`, and without it (spaces start with "no time") using a sleep
//! function of the user that takes twice as long, to tell it from any other clock.
use std::{cell::RefCell, future::Future, sync::Arc, time::Duration};

use mc::{
    cases::{Case, CASES},
    drive::{options, row, Obs, Op, Read, Session, StmtOp, E},
    mock::{Act, Plan, Shared},
    rt, scen,
    server::{Cfg, Cmd, Server},
    wire::{self, Col, End, OkData, Reply},
    Chooser, Level, Run,
};
use mysql_connector::{types::Value, Connection, ConnectionOptions, Error};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

const TIME: bool = cfg!(feature = "time");
/// Real duration of a configured timeout
const FACTOR: u32 = if TIME { 1 } else { 2 };
/// Resolution of timers
const TOLERANCE: Duration = Duration::from_millis(2);

#[cfg(not(feature = "time"))]
fn slow_sleep(d: Duration) -> mysql_connector::TimeoutFuture {
    Box::pin(tokio::time::sleep(d * FACTOR))
}

#[derive(Clone, Debug, PartialEq)]
struct Call {
    name: String,
    took: Duration,
    res: Result<(), E>,
}

#[derive(Default)]
struct Driver {
    calls: RefCell<Vec<Call>>,
}

impl Driver {
    async fn call<T>(&self, name: &str, f: impl Future<Output = Result<T, Error>>) -> Option<T> {
        let start = rt::now();
        let res = f.await;
        let took = rt::now() - start;
        let (res, x) = match res {
            Ok(x) => (Ok(()), Some(x)),
            Err(e) => (Err(E::of(&e)), None),
        };
        self.calls.borrow_mut().push(Call {
            name: name.to_owned(),
            took,
            res,
        });
        x
    }

    /// A call failed for another reason than an error of the server.
    fn failed(&self) -> bool {
        self.calls
            .borrow()
            .last()
            .is_some_and(|x| matches!(&x.res, Err(e) if !e.is_server()))
    }
}

type Row = Vec<Value>;

macro_rules! set {
    ($d:expr, $rs:expr, $read:expr, $out:expr) => {{
        let mut rs = match $d.call("query", $rs).await {
            Some(x) => x,
            None => return,
        };
        match $read {
            Read::Finish => {
                if let Some(p) = $d.call("finish", rs.finish()).await {
                    $out.push(Obs::Ok(mc::ok_of!(p)));
                }
            }
            Read::One => {
                if let Some(x) = $d.call("one", rs.one()).await {
                    $out.extend(x.map(|r| row(&r)));
                }
            }
            Read::All => {
                if let Some(x) = $d.call("collect", rs.collect()).await {
                    $out.extend(x.iter().map(|r| row(r)));
                }
            }
            Read::Next(n) => {
                for _ in 0..n {
                    match $d.call("next", rs.next()).await {
                        Some(Some(r)) => $out.push(row(&r)),
                        _ => break,
                    }
                }
            }
        }
    }};
}

impl Driver {
    async fn op(&self, conn: &mut Connection, op: &Op, out: &mut Vec<Obs>) {
        match op {
            Op::Query(sql, read) => set!(self, conn.query::<Row>(sql), *read, out),
            Op::Execute(sql) => {
                if let Some(p) = self.call("execute_query", conn.execute_query(sql)).await {
                    out.push(Obs::Ok(mc::ok_of!(p)));
                }
            }
            Op::Prepare(sql, ops) => {
                let mut stmt = match self.call("prepare", conn.prepare_statement(sql)).await {
                    Some(x) => x,
                    None => return,
                };
                for op in ops {
                    match op {
                        StmtOp::Query(params, read) => {
                            async { set!(self, stmt.query::<Value, Row>(params), *read, out) }.await
                        }
                        StmtOp::Execute(params) => {
                            if let Some(p) = self.call("execute", stmt.execute(params)).await {
                                out.push(Obs::Ok(mc::ok_of!(p)));
                            }
                        }
                    }
                    if self.failed() {
                        return;
                    }
                }
            }
            Op::Cleanup => {
                self.call("cleanup", conn.cleanup()).await;
            }
        }
    }
}

struct Ran {
    calls: Vec<Call>,
    out: Vec<Obs>,
    s2c: usize,
    c2s: usize,
    flushes: usize,
    marks: Vec<(usize, usize)>,
    io: u64,
    /// the planned act took place
    happened: bool,
    /// Where the first command of more than one packet begins.
    command: usize,
}

fn opts<const S: bool>(pipe: &Shared, case: &Case, timeout: Duration) -> Arc<ConnectionOptions<mc::mock::Mock<S>>> {
    let mut o = options::<S>(pipe);
    o.timeout = timeout;
    if case.settings {
        o.max_allowed_packet = None;
    }
    #[cfg(not(feature = "time"))]
    {
        o.sleep = Some(&slow_sleep);
    }
    Arc::new(o)
}

fn execute(case: &Case, plan: Plan, timeout: Duration) -> Result<Ran, String> {
    let items = (case.items)();
    let mut handler = scen::handler(&items);
    let s = Session::of(
        Server::new(
            (case.cfg)(),
            Box::new(move |cmd| match cmd {
                Cmd::Query(x) if x == b"select @@max_allowed_packet" => {
                    vec![Reply::Rows {
                        cols: vec![Col::new("@@max_allowed_packet", wire::ty::LONGLONG, 32)],
                        rows: vec![vec![wire::Cell::Int(1 << 26)]],
                        end: End::Ok(OkData::new(0, 0)),
                    }]
                }
                Cmd::Query(x) if x.first() == Some(&b'B') => {
                    vec![Reply::Rows {
                        cols: vec![Col::new("b", wire::ty::LONG_BLOB, 0)],
                        rows: vec![vec![wire::Cell::Bytes(vec![7; x.len() - 3])]],
                        end: End::Ok(OkData::new(0, 0)),
                    }]
                }
                c => handler(c),
            }),
        ),
        plan,
    );
    let d = Driver::default();
    let out = rt::run(async {
        let mut out = Vec::new();
        let conn = if case.secure {
            d.call("connect", Connection::connect(opts::<true>(&s.pipe, case, timeout))).await
        } else {
            d.call("connect", Connection::connect(opts::<false>(&s.pipe, case, timeout))).await
        };
        let Some(mut conn) = conn else { return out };
        if case.big != 0 {
            let sql = "B".repeat(case.big);
            if let Some(mut rs) = d.call("big", conn.query::<Row>(&sql)).await {
                if let Some(rows) = d.call("collect", rs.collect()).await {
                    out.push(Obs::Row(vec![format!("{}", rows.len())]));
                }
            }
        }
        for item in &items {
            if d.failed() {
                return out;
            }
            d.op(&mut conn, &item.op, &mut out).await;
        }
        if !d.failed() {
            d.call("disconnect", conn.disconnect()).await;
        }
        out
    })
    .map_err(|_| {
        format!(
            "an operation waits for more than a day after {:?}",
            d.calls.borrow().last()
        )
    })?;
    s.server_errors()?;
    let p = s.pipe.lock().unwrap();
    let log = s.log.lock().unwrap();
    Ok(Ran {
        calls: d.calls.take(),
        out,
        s2c: p.s2c.len(),
        c2s: p.c2s.len(),
        flushes: p.flushes,
        io: p.calls,
        happened: p.all_happened(),
        command: p.c2s.windows(4).take(4096).position(|x| x == [0xff, 0xff, 0xff, 0]).map_or(0, |x| x + 4),
        marks: log.marks.iter().map(|x| (x.at, x.len)).collect(),
    })
}

/// Where the transport deviates.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Place {
    Read,
    Write,
    Flush,
}

const PLACES: [Place; 3] = [Place::Read, Place::Write, Place::Flush];

fn plan_at(place: Place, at: usize, acts: &[Act], buffered: bool) -> Plan {
    let list = acts.iter().map(|x| (at, *x)).collect();
    let mut plan = Plan {
        buffered,
        ..Plan::default()
    };
    match place {
        Place::Read => plan.read = list,
        Place::Write => plan.write = list,
        Place::Flush => plan.flush = list,
    }
    plan
}

fn size(ran: &Ran, place: Place) -> usize {
    match place {
        Place::Read => ran.s2c,
        Place::Write => ran.c2s,
        Place::Flush => ran.flushes,
    }
}

/// The peer stops: `earlier` is how long the transport paused before, at the same place.
fn silent(case: &Case, ideal: &Ran, plan: Plan, timeout: Duration, earlier: Duration, ch: &mut Chooser) -> Result<(), String> {
    let text = format!("{}, timeout {timeout:?}, {plan:?}", case.name);
    let ran = execute(case, plan, timeout).map_err(|e| format!("{text}: {e}"))?;
    ch.note(|| format!("{text} -> {:?}", ran.calls));
    ch.steps(ran.io);
    ch.outcome(&(case.name, ran.calls.len(), &ran.out, ran.calls.last().map(|x| (x.took, x.name.clone()))));
    let timeout = timeout * FACTOR;
    for (i, c) in ran.calls.iter().enumerate() {
        let expected = &ideal.calls[i];
        if i + 1 < ran.calls.len() || c.res == expected.res {
            if c.res != expected.res {
                return Err(format!("{text}: {c:?} instead of {expected:?}"));
            }
            // a pause within a call that goes on
            if c.took > earlier + TOLERANCE {
                return Err(format!("{text}: {c:?} took too long"));
            }
            continue;
        }
        if c.res != Err(E::Timeout) {
            return Err(format!("{text}: {c:?} instead of a timeout"));
        }
        if c.took < timeout || c.took > timeout + earlier + TOLERANCE {
            return Err(format!(
                "{text}: {} timed out after {:?} instead of {timeout:?}",
                c.name, c.took
            ));
        }
        return Ok(());
    }
    ch.trivial();
    if ran.calls.len() != ideal.calls.len() {
        return Err(format!("{text}: {:?}", ran.calls));
    }
    Ok(())
}

fn slow(case: &Case, ideal: &Ran, plan: Plan, timeout: Duration, ch: &mut Chooser) -> Result<(), String> {
    let text = format!("{}, timeout {timeout:?}, {plan:?}", case.name);
    let ran = execute(case, plan, timeout).map_err(|e| format!("{text}: {e}"))?;
    ch.note(|| format!("{text} -> {:?}", ran.calls));
    ch.steps(ran.io);
    ch.outcome(&(case.name, ran.calls.len(), ran.calls.iter().map(|x| x.took).max()));
    if !ran.happened {
        ch.trivial();
    }
    let same = ran.calls.len() == ideal.calls.len()
        && ran.calls.iter().zip(&ideal.calls).all(|(a, b)| a.res == b.res && a.name == b.name);
    if !same || ran.out != ideal.out {
        return Err(format!(
            "{text}: {:?} {:?} instead of {:?}",
            ran.calls, ran.out, ideal.calls
        ));
    }
    Ok(())
}

fn explore(run: &mut Run) {
    let p = if TIME { "" } else { "no time: " };
    let ms = Duration::from_millis;
    let timeouts: &[Duration] = &[ms(10_000), ms(700), ms(40_000)];
    let ideal: Vec<Ran> = CASES
        .iter()
        .map(|c| execute(c, Plan::default(), timeouts[0]).expect("ideal transport"))
        .collect();
    run.space(
        &format!("{p}silent peer"),
        "6 sessions, the transport stops at every byte offset of either direction or at any flush; \
         buffered or not, timeouts of 0.7, 10 and 40 s",
        |ch| {
            let i = ch.choose(CASES.len());
            let place = *ch.pick(&PLACES);
            let at = ch.choose(size(&ideal[i], place) + 1);
            let plan = plan_at(place, at, &[Act::Stall], ch.flag());
            let timeout = *ch.pick(timeouts);
            silent(&CASES[i], &ideal[i], plan, timeout, Duration::ZERO, ch)
        },
    );
    run.space(
        &format!("{p}slow peer"),
        "6 sessions, the transport pauses at every byte offset of either direction or at any flush \
         for the timeout less 5 ms; buffered or not, timeouts of 0.7 and 10 s",
        |ch| {
            let i = ch.choose(CASES.len());
            let place = *ch.pick(&PLACES);
            let at = ch.choose(size(&ideal[i], place) + 1);
            let timeout = timeouts[ch.choose(2)];
            let delay = (timeout * FACTOR - ms(5)).as_millis() as u64;
            let plan = plan_at(place, at, &[Act::Delay(delay)], ch.flag());
            slow(&CASES[i], &ideal[i], plan, timeout, ch)
        },
    );
    run.space(
        &format!("{p}late peer"),
        "6 sessions, the transport pauses for longer than the timeout (10 s: by 5 ms or 60 s) at \
         every byte offset of either direction or at any flush",
        |ch| {
            let i = ch.choose(CASES.len());
            let place = *ch.pick(&PLACES);
            let at = ch.choose(size(&ideal[i], place) + 1);
            let delay = timeouts[0] * FACTOR + *ch.pick(&[ms(5), ms(60_000)]);
            let plan = plan_at(place, at, &[Act::Delay(delay.as_millis() as u64)], false);
            silent(&CASES[i], &ideal[i], plan, timeouts[0], Duration::ZERO, ch)
        },
    );
    run.space(
        &format!("{p}timeouts"),
        "6 sessions, the transport stops, or pauses for almost the timeout, at every packet the server sends (header or body) and \
         at every 9th byte sent; timeouts of 3 ms to 11 hours",
        |ch| {
            let timeout = *ch.pick(&[
                Duration::from_micros(2_500),
                ms(3),
                ms(50),
                ms(999),
                ms(1_000),
                ms(1_500),
                ms(30_001),
                ms(60_000),
                ms(61_000),
                ms(120_500),
                ms(301_000),
                ms(1_800_000),
                ms(4_200_000),
                ms(39_600_000),
            ]);
            let i = ch.choose(CASES.len());
            let id = &ideal[i];
            let read = ch.flag();
            let at = if read {
                let (at, len) = *ch.pick(&id.marks);
                at + *ch.pick(&[0, 4 + len / 2])
            } else {
                ch.choose(id.c2s.div_ceil(9)) * 9
            };
            let place = if read { Place::Read } else { Place::Write };
            if ch.flag() {
                silent(&CASES[i], id, plan_at(place, at, &[Act::Stall], false), timeout, Duration::ZERO, ch)
            } else {
                let delay = timeout * FACTOR;
                let delay = delay - ms(5).min(delay / 2);
                let act = Act::Delay(delay.as_millis() as u64);
                slow(&CASES[i], id, plan_at(place, at, &[act], false), timeout, ch)
            }
        },
    );
    run.space(
        &format!("{p}slow throughout"),
        "6 sessions, every packet header and every packet body, each write and each flush is delayed \
         by up to the timeout less 5 ms (two delays per session part: all combinations of header, \
         body, write and flush), then the peer stops at any packet or not at all",
        |ch| {
            let i = ch.choose(CASES.len());
            let id = &ideal[i];
            let bits = ch.choose(16);
            let stop = ch.choose(id.marks.len() + 1);
            let timeout = timeouts[0];
            let delay = Act::Delay((timeout * FACTOR - ms(5)).as_millis() as u64);
            let mut plan = Plan::default();
            for (n, (at, len)) in id.marks.iter().enumerate() {
                if n == stop {
                    plan.read.push((*at, Act::Stall));
                    break;
                }
                if bits & 1 != 0 {
                    plan.read.push((*at + 1, delay));
                }
                if bits & 2 != 0 && *len > 0 {
                    plan.read.push((*at + 4 + len / 2, delay));
                }
            }
            if bits & 4 != 0 {
                // the bodies of what is sent: between a header of 4 bytes and the next one
                plan.write.push((2, delay));
                plan.write.push((6, delay));
            }
            if bits & 8 != 0 {
                plan.flush.extend((0..id.flushes).map(|x| (x, delay)));
            }
            if stop == id.marks.len() {
                slow(&CASES[i], id, plan, timeout, ch)
            } else {
                // whatever came before, only the stop matters; the pauses may take long in sum
                silent(&CASES[i], id, plan, timeout, rt::DAY, ch)
            }
        },
    );
    let big = Case {
        name: "large packets",
        big: wire::MAX + 20,
        cfg: Cfg::default,
        items: || vec![scen::query(0, 2, Read::All)],
        secure: false,
        random: false,
        settings: false,
    };
    // The command byte makes the second one a whole number of full packets, so that an empty packet
    // ends it, in both directions.
    let mut exact = big.clone();
    exact.big = wire::MAX - 1;
    let cases = [big, exact];
    let ids: Vec<_> = cases
        .iter()
        .map(|x| execute(x, Plan::default(), timeouts[0]).expect("ideal transport"))
        .collect();
    run.space(
        &format!("{p}large packets"),
        "the transport stops or pauses at the start, in the middle or at the end of a packet of \
         16 MB, or in the packet that continues it, which may be empty, or at a flush",
        |ch| {
            let i = ch.choose(cases.len());
            let (big, id) = (&cases[i], &ids[i]);
            let row = id
                .marks
                .windows(2)
                .find(|x| x[0].1 == wire::MAX)
                .map(|x| x[1].0)
                .expect("large packet");
            let stall = ch.flag();
            let timeout = timeouts[0];
            let act = if stall {
                Act::Stall
            } else {
                Act::Delay((timeout * FACTOR - ms(5)).as_millis() as u64)
            };
            let place = *ch.pick(&PLACES);
            let at = match place {
                Place::Read => row - *ch.pick(&[wire::MAX, wire::MAX / 2, 1, 0]) + ch.choose(6),
                Place::Write => id.command + *ch.pick(&[0, wire::MAX / 2, wire::MAX - 1, wire::MAX]) + ch.choose(7),
                Place::Flush => ch.choose(id.flushes + 1),
            };
            let plan = plan_at(place, at, &[act], false);
            if stall {
                silent(big, id, plan, timeout, Duration::ZERO, ch)
            } else {
                slow(big, id, plan, timeout, ch)
            }
        },
    );
    if !run.quick() {
        run.space(
            &format!("{p}pause, then silence"),
            "6 sessions, the transport pauses at any byte offset of either direction for the timeout \
             less 5 ms and stops at any other offset (thorough)",
            |ch| {
                let i = ch.choose(CASES.len());
                let id = &ideal[i];
                let mut plan = Plan::default();
                let delay = timeouts[0] * FACTOR - ms(5);
                let act = Act::Delay(delay.as_millis() as u64);
                let a = *ch.pick(&PLACES);
                let x = ch.choose(size(id, a) + 1);
                match a {
                    Place::Read => plan.read.push((x, act)),
                    Place::Write => plan.write.push((x, act)),
                    Place::Flush => plan.flush.push((x, act)),
                }
                let b = *ch.pick(&PLACES);
                let y = ch.choose(size(id, b) + 1);
                match b {
                    Place::Read => plan.read.push((y, Act::Stall)),
                    Place::Write => plan.write.push((y, Act::Stall)),
                    Place::Flush => plan.flush.push((y, Act::Stall)),
                }
                silent(&CASES[i], id, plan, timeouts[0], delay, ch)
            },
        );
    }
}

fn main() {
    mc::main(
        "C04",
        Level {
            level: "fault_enumeration",
            rule: "every point at which the transport may stop, pause or be late within the bounds, in \
                   sessions that use every part of the protocol, under a virtual clock; checked: which \
                   call fails, with which error and after what time; an execution is non-trivial if \
                   the transport deviated where the session could notice it",
            assumptions: &[
                "the timeout applies to each header and body of a packet, each write and each flush",
                "what a user-supplied sleep function returns completes when it is polled after its time",
            ],
        },
        |run| {
            if TIME {
                let text = std::fs::read_to_string(format!(
                    "{}/evidence/C04-notime.json",
                    std::env::var("VERIF_DIR").unwrap_or("/verif".into())
                ));
                if let Some(j) = text.ok().and_then(|x| serde_json::from_str::<serde_json::Value>(&x).ok()) {
                    run.extra.insert("build_without_feature_time".into(), j["coverage"].clone());
                }
            }
            explore(run)
        },
    )
}

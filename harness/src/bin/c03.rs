//! C03: an interrupted operation never leaks its data into a later one.
use std::{
    cell::{Cell, RefCell},
    future::Future,
};

use mc::{
    drive::{self, Obs, Op, Read, Session, StmtOp, E},
    mock::{Act, Plan, Shared},
    rt,
    scen::{self, Item, Model},
    server::{Cfg, Cmd, Handler, Mark, Server},
    wire,
    Chooser, Level,
};
use mysql_connector::{types::Value, Connection, Error};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

type Row = Vec<Value>;

fn dropped() -> Obs {
    Obs::Err(E::Other("dropped".into()))
}

/// Makes the calls of a session: interrupts some of them, and lets the transport recover after
/// the first failure.
struct Driver<'a> {
    pipe: &'a Shared,
    /// (call, polls until its future is dropped)
    cuts: Vec<(usize, usize)>,
    calls: Cell<usize>,
    /// polls of every call
    polls: RefCell<Vec<usize>>,
    recover: Cell<bool>,
    interrupted: Cell<bool>,
}

impl Driver<'_> {
    async fn call<T>(&self, f: impl Future<Output = Result<T, Error>>, out: &mut Vec<Obs>) -> Option<T> {
        let i = self.calls.get();
        self.calls.set(i + 1);
        let res = match self.cuts.iter().find(|x| x.0 == i) {
            Some(cut) => match rt::polls(f, cut.1).await {
                Some(x) => x,
                None => {
                    self.interrupted.set(true);
                    out.push(dropped());
                    return None;
                }
            },
            None => {
                let (x, n) = rt::count_polls(f).await;
                self.polls.borrow_mut().push(n);
                x
            }
        };
        match res {
            Ok(x) => Some(x),
            Err(e) => {
                let e = E::of(&e);
                if !e.is_server() {
                    self.interrupted.set(true);
                    if self.recover.take() {
                        self.pipe.lock().unwrap().set_plan(Plan::default());
                    }
                }
                out.push(Obs::Err(e));
                None
            }
        }
    }
}

macro_rules! set {
    ($d:expr, $rs:expr, $read:expr, $out:expr) => {{
        let mut rs = match $d.call($rs, $out).await {
            Some(x) => x,
            None => return,
        };
        match $read {
            Read::Finish => {
                if let Some(p) = $d.call(rs.finish(), $out).await {
                    $out.push(Obs::Ok(mc::ok_of!(p)));
                }
            }
            Read::One => match $d.call(rs.one(), $out).await {
                Some(Some(r)) => {
                    $out.push(drive::row(&r));
                    $out.push(Obs::End);
                }
                Some(None) => $out.push(Obs::End),
                None => {}
            },
            Read::Next(_) | Read::All => {
                let mut n = match $read {
                    Read::Next(n) => n,
                    _ => usize::MAX,
                };
                // the same result set is used again after a failure
                let mut failures = 0;
                while n > 0 && failures < 3 {
                    n -= 1;
                    match $d.call(rs.next(), $out).await {
                        Some(Some(r)) => $out.push(drive::row(&r)),
                        Some(None) => {
                            $out.push(Obs::End);
                            break;
                        }
                        None => {
                            if $out.last().is_some_and(|x| matches!(x, Obs::Err(e) if e.is_server())) {
                                break;
                            }
                            failures += 1;
                            n = n.saturating_add(1);
                        }
                    }
                }
            }
        }
    }};
}

impl Driver<'_> {
    async fn op(&self, conn: &mut Connection, op: &Op, out: &mut Vec<Obs>) {
        match op {
            Op::Query(sql, read) => set!(self, conn.query::<Row>(sql), *read, out),
            Op::Execute(sql) => {
                if let Some(p) = self.call(conn.execute_query(sql), out).await {
                    out.push(Obs::Ok(mc::ok_of!(p)));
                }
            }
            Op::Prepare(sql, ops) => {
                let mut stmt = match self.call(conn.prepare_statement(sql), out).await {
                    Some(x) => x,
                    None => return,
                };
                out.push(Obs::Prepared);
                for op in ops {
                    match op {
                        StmtOp::Query(params, read) => {
                            async { set!(self, stmt.query::<Value, Row>(params), *read, out) }.await
                        }
                        StmtOp::Execute(params) => {
                            if let Some(p) = self.call(stmt.execute(params), out).await {
                                out.push(Obs::Ok(mc::ok_of!(p)));
                            }
                        }
                    }
                }
            }
            Op::Cleanup => {
                if let Some(p) = self.call(conn.cleanup(), out).await {
                    out.push(Obs::Drained(p.map(|p| mc::ok_of!(p))));
                }
            }
        }
    }
}

/// What was observed consists of what was expected, in order and without gaps; a failure takes the
/// place of at most one of them, a dropped call of none.
fn fits(expected: &[Obs], got: &[Obs]) -> bool {
    match got.split_first() {
        None => true,
        Some((Obs::Err(e), rest)) if !e.is_server() => {
            fits(expected, rest)
                || (*e != E::Other("dropped".into()) && !expected.is_empty() && fits(&expected[1..], rest))
        }
        Some((x, rest)) => expected.first() == Some(x) && fits(&expected[1..], rest),
    }
}

/// Expected observations of an operation split where a call of a statement starts, so a failed
/// call doesn't take the following ones with it.
fn parts(item: &Item, deprecate_eof: bool) -> (Vec<Obs>, Vec<Cmd>) {
    Model {
        deprecate_eof,
        ..Model::default()
    }
    .step(item)
}

/// All results of an operation are possible in any order of failures.
fn acceptable(item: &Item, got: &[Obs], deprecate_eof: bool) -> bool {
    if let (Op::Cleanup, [x]) = (&item.op, got) {
        // it may report the error that ends what it drains
        return matches!(x, Obs::Drained(_) | Obs::Err(_));
    }
    // every subset of the statement's calls may have failed
    fn within(lists: &[Vec<Obs>], got: &[Obs]) -> bool {
        let Some((first, rest)) = lists.split_first() else {
            return got.is_empty();
        };
        (0..=got.len()).any(|n| {
            let (a, b) = got.split_at(n);
            fits(first, a) && (n > 0) && within(rest, b)
        })
    }
    if let Op::Prepare(sql, ops) = &item.op {
        if got.first() != Some(&Obs::Prepared) {
            return got.iter().all(|x| matches!(x, Obs::Err(e) if !e.is_server()))
                || fits(&parts(item, deprecate_eof).0, got);
        }
        let lists: Vec<Vec<Obs>> = ops
            .iter()
            .zip(&item.replies[1..])
            .map(|(op, replies)| {
                let one = Item {
                    op: Op::Prepare(sql.clone(), vec![op.clone()]),
                    replies: vec![item.replies[0].clone(), replies.clone()],
                    stmt: item.stmt,
                };
                parts(&one, deprecate_eof).0[1..].to_vec()
            })
            .collect();
        // a read of no rows leaves no observation
        let lists: Vec<Vec<Obs>> = lists.into_iter().filter(|x| !x.is_empty()).collect();
        return within(&lists, &got[1..]) || (lists.is_empty() && fits(&[], &got[1..]));
    }
    fits(&parts(item, deprecate_eof).0, got)
}

struct Interrupt {
    plan: Plan,
    cuts: Vec<(usize, usize)>,
    /// content of a packet of the server: number, variant
    garble: Option<(usize, usize)>,
}

const GARBLES: usize = 16;

/// Makes a packet undecodable (mostly).
fn garble(data: &mut Vec<u8>, how: usize) {
    let n = data.len();
    match how {
        0 => data.clear(),
        1 => data.truncate(1),
        2 => data.truncate(n / 2),
        3 => data.truncate(n.saturating_sub(1)),
        4 => data.push(0),
        5..=9 => {
            if let Some(x) = data.first_mut() {
                *x = [0x00, 0xFB, 0xFC, 0xFE, 0xFF][how - 5];
            }
        }
        10 => *data = vec![0xFE, 0, 0],
        11 => *data = vec![0xFF, 0x10],
        12 => data.iter_mut().for_each(|x| *x = 0xFF),
        // zeros are a valid answer to a preparation
        13 if data.first() == Some(&0) => data.truncate(2),
        13 => data.iter_mut().for_each(|x| *x = 0),
        14 => data.iter_mut().for_each(|x| *x = 0xFE),
        _ => data.iter_mut().for_each(|x| *x = 0x80),
    }
}

/// Like `scen::handler`, but the answer to an execution depends on its parameters, not on how many
/// there were before.
fn handler(items: &[Item]) -> Handler {
    let items = items.to_vec();
    let mut rest = scen::handler(&items);
    Box::new(move |cmd| match cmd {
        Cmd::Execute { stmt, params } => {
            let item = items.iter().find(|x| x.stmt == *stmt).expect("statement");
            let j = match params.first() {
                Some((_, _, wire::Cell::Int(x))) => (*x - (*stmt as i128 - 100) * 10) as usize,
                _ => 0,
            };
            item.replies[1 + j].clone()
        }
        c => rest(c),
    })
}

struct Ran {
    got: Vec<Vec<Obs>>,
    calls: usize,
    polls: Vec<usize>,
    s2c: usize,
    c2s: usize,
    flushes: usize,
    /// bytes used by the connection phase
    start: (usize, usize, usize, usize),
    marks: Vec<Mark>,
    io: u64,
    interrupted: bool,
    errors: Option<String>,
    cmds: Vec<Cmd>,
}

fn run(items: &[Item], deprecate_eof: bool, it: &Interrupt) -> Result<Ran, String> {
    let cfg = Cfg {
        caps: scen::caps(deprecate_eof),
        ..Cfg::default()
    };
    let mut server = Server::new(cfg, handler(items));
    if let Some((at, how)) = it.garble {
        server.tamper = Some(Box::new(move |i, data, _| {
            if i == at {
                garble(data, how);
            }
            None
        }));
    }
    let s = Session::of(server, Plan::default());
    let mut start = (0, 0, 0, 0);
    let (got, driver_calls, polls, interrupted) = rt::run(async {
        let mut conn = s.connect().await.expect("connect");
        {
            let mut p = s.pipe.lock().unwrap();
            start = (p.rpos, p.c2s.len(), p.flushes, s.log.lock().unwrap().marks.len());
            p.set_plan(it.plan.clone());
        }
        let d = Driver {
            pipe: &s.pipe,
            cuts: it.cuts.clone(),
            calls: Cell::new(0),
            polls: RefCell::default(),
            recover: Cell::new(it.cuts.is_empty()),
            interrupted: Cell::new(false),
        };
        let mut got = Vec::new();
        for item in items {
            let mut out = Vec::new();
            d.op(&mut conn, &item.op, &mut out).await;
            got.push(out);
        }
        (got, d.calls.get(), d.polls.take(), d.interrupted.get())
    })
    .map_err(|_| "the session hangs".to_owned())?;
    let p = s.pipe.lock().unwrap();
    let errors = s.server_errors().err();
    let log = s.log.lock().unwrap();
    Ok(Ran {
        got,
        calls: driver_calls,
        polls,
        s2c: p.s2c.len(),
        c2s: p.c2s.len(),
        flushes: p.flushes,
        start,
        marks: log.marks.clone(),
        io: p.calls,
        interrupted,
        errors,
        cmds: log.cmds(),
    })
}

fn check(name: &str, items: &[Item], deprecate_eof: bool, it: Interrupt, ch: &mut Chooser) -> Result<(), String> {
    let ran = run(items, deprecate_eof, &it)?;
    let what = format!(
        "{name}: {:?} dropped {:?} garbled {:?}",
        it.plan, it.cuts, it.garble
    );
    ch.note(|| format!("{what} -> {:?}", ran.got));
    ch.steps(ran.io);
    ch.outcome(&(name, deprecate_eof, &ran.got));
    if !ran.interrupted {
        ch.trivial();
    }
    // the server got only whole commands, in order
    let issued: Vec<(usize, Cmd)> = items
        .iter()
        .enumerate()
        .flat_map(|(i, item)| parts(item, deprecate_eof).1.into_iter().map(move |c| (i, c)))
        .collect();
    let mut at = 0;
    // operation of every command that the server got
    let mut of = Vec::new();
    for c in &ran.cmds {
        match issued[at..]
            .iter()
            .position(|x| scen::same_cmds(std::slice::from_ref(&x.1), std::slice::from_ref(c)))
        {
            Some(n) => {
                of.push(issued[at + n].0);
                at += n + 1;
            }
            None => {
                return Err(format!(
                    "{what}: the server received {:?}, but the commands were {issued:?}",
                    ran.cmds
                ))
            }
        }
    }
    // operation that the garbled packet answers
    let garbled = it
        .garble
        .and_then(|(n, _)| ran.marks.get(n))
        .and_then(|x| of.get(x.cmd.wrapping_sub(1)).copied());
    for (i, (item, got)) in items.iter().zip(&ran.got).enumerate() {
        if !acceptable(item, got, deprecate_eof) {
            // the garbled answer itself may look like another one
            if garbled == Some(i) {
                continue;
            }
            return Err(format!(
                "{what}: operation {i}, {:?}, returned {got:?}, all: {:?}",
                item.op, ran.got
            ));
        }
    }
    match ran.errors {
        Some(e) => Err(format!("{what}: the server received something invalid: {e}")),
        None => Ok(()),
    }
}

/// Sessions whose first operations get interrupted.
fn sessions() -> Vec<(&'static str, Vec<Item>)> {
    let followers = |mut items: Vec<Item>| {
        items.extend([
            scen::execute(50, 0),
            scen::query(51, 2, Read::All),
            scen::prepare(52, 1, 1, &[(2, Some(Read::All)), (0, None)]),
            scen::cleanup(),
            scen::query(53, 5, Read::Finish),
        ]);
        items
    };
    vec![
        ("rows", followers(vec![scen::query(0, 2, Read::All)])),
        ("finish", followers(vec![scen::query(0, 11, Read::Finish)])),
        ("one", followers(vec![scen::query(0, 2, Read::One)])),
        ("execute", followers(vec![scen::execute(0, 0)])),
        ("several results", followers(vec![scen::query(0, 5, Read::Next(1))])),
        ("unread rows", followers(vec![scen::query(0, 2, Read::Next(1)), scen::cleanup()])),
        ("unread result", followers(vec![scen::execute(0, 6), scen::query(1, 2, Read::Next(2))])),
        (
            "statement",
            followers(vec![scen::prepare(
                0,
                2,
                2,
                &[(2, Some(Read::All)), (0, None), (5, Some(Read::Next(1))), (11, Some(Read::Finish))],
            )]),
        ),
        ("statements", followers(vec![scen::prepare(0, 0, 1, &[(2, Some(Read::One))]), scen::prepare(1, 1, 0, &[(0, None)])])),
        ("error", followers(vec![scen::query(0, 1, Read::All), scen::query(1, 4, Read::All)])),
        ("errors", followers(vec![scen::execute(0, 9), scen::query(1, 8, Read::Next(0)), scen::prepare_fails(2)])),
    ]
}

fn main() {
    mc::main(
        "C03",
        Level {
            level: "fault_enumeration",
            rule: "every interruption within the bounds (dropped future, stalled, failing or ending \
                   transport, undecodable packet) of every session; the operations that follow are \
                   compared with what the server answers to them, and the server with the commands \
                   that were issued; an execution is non-trivial if a call was interrupted",
            assumptions: &[
                "the server numbers its packets as the protocol demands",
                "an interrupted call may consume a row only by reporting an error for it",
            ],
        },
        |run| {
            let list = sessions();
            let pend = |read_chunk: usize, write_chunk: usize, buffered: bool| Plan {
                pend_read: true,
                pend_write: true,
                pend_flush: true,
                read_chunk,
                write_chunk,
                buffered,
                ..Plan::default()
            };
            let ideal: Vec<[Ran; 2]> = list
                .iter()
                .map(|(name, items)| {
                    [false, true].map(|d| {
                        let none = Interrupt { plan: Plan::default(), cuts: Vec::new(), garble: None };
                        let ran = self::run(items, d, &none).expect(name);
                        for (item, got) in items.iter().zip(&ran.got) {
                            assert!(acceptable(item, got, d), "{name}: {item:?} {got:?}");
                        }
                        ran
                    })
                })
                .collect();
            run.space(
                "dropped futures",
                "11 sessions with and without DEPRECATE_EOF, transport pending before every read, \
                 write and flush, which transfer everything at once, 1 or 3 bytes, buffered or not: \
                 every call dropped after every number of polls; used again afterwards",
                |ch| {
                    let i = ch.choose(list.len());
                    let d = ch.flag();
                    let (r, w) = *ch.pick(&[(0, 0), (1, 1), (3, 2)]);
                    let plan = pend(r, w, ch.flag());
                    let none = Interrupt { plan: plan.clone(), cuts: Vec::new(), garble: None };
                    // the number of polls is that of the uninterrupted call
                    let call = ch.choose(ideal[i][d as usize].calls);
                    let polls = {
                        thread_local! {
                            static CACHE: RefCell<(u64, Vec<usize>)> = const { RefCell::new((0, Vec::new())) };
                        }
                        let key = mc::engine::hash(&(i, d, &plan));
                        let hit = CACHE.with(|c| c.borrow().0 == key);
                        if !hit {
                            let polls = self::run(&list[i].1, d, &none)?.polls;
                            CACHE.with(|c| *c.borrow_mut() = (key, polls));
                        }
                        CACHE.with(|c| c.borrow().1[call])
                    };
                    let k = ch.choose(polls);
                    check(list[i].0, &list[i].1, d, Interrupt { plan, cuts: vec![(call, k)], garble: None }, ch)
                },
            );
            run.space(
                "failing transport",
                "11 sessions with and without DEPRECATE_EOF: the transport stalls (until the timeout), \
                 fails once or ends at every byte offset of either direction or at any flush, and \
                 works again afterwards; buffered or not",
                |ch| {
                    let i = ch.choose(list.len());
                    let d = ch.flag();
                    let id = &ideal[i][d as usize];
                    let act = *ch.pick(&[Act::Stall, Act::Fail, Act::Eof]);
                    let mut plan = Plan { buffered: ch.flag(), ..Plan::default() };
                    match ch.choose(3) {
                        0 => plan.read.push((id.start.0 + ch.choose(id.s2c - id.start.0), act)),
                        1 => plan.write.push((id.start.1 + ch.choose(id.c2s - id.start.1), act)),
                        _ => plan.flush.push((id.start.2 + ch.choose(id.flushes - id.start.2), act)),
                    }
                    check(list[i].0, &list[i].1, d, Interrupt { plan, cuts: Vec::new(), garble: None }, ch)
                },
            );
            run.space(
                "undecodable packets",
                "11 sessions with and without DEPRECATE_EOF: every packet of the server replaced by \
                 one of 16 malformed variants",
                |ch| {
                    let i = ch.choose(list.len());
                    let d = ch.flag();
                    let id = &ideal[i][d as usize];
                    let at = id.start.3 + ch.choose(id.marks.len() - id.start.3);
                    let how = ch.choose(GARBLES);
                    check(
                        list[i].0,
                        &list[i].1,
                        d,
                        Interrupt { plan: Plan::default(), cuts: Vec::new(), garble: Some((at, how)) },
                        ch,
                    )
                },
            );
            // leftovers whose sequence ids are those of a new response
            let long: Vec<Item> = vec![scen::query(0, 600, Read::All), scen::execute(50, 0), scen::query(51, 2, Read::All)];
            let calls = {
                let none = Interrupt { plan: pend(0, 0, false), cuts: Vec::new(), garble: None };
                self::run(&long, true, &none).expect("long").polls
            };
            run.space(
                "wrapped sequence ids",
                "a result of 600 rows, every call dropped after every number of polls, or stalled or \
                 failing before any packet, with leftovers of any sequence id",
                |ch| {
                    let call = ch.choose(calls.len());
                    let k = ch.choose(calls[call] + 2);
                    let mut it = Interrupt { plan: pend(0, 0, false), cuts: Vec::new(), garble: None };
                    if k < calls[call] {
                        it.cuts.push((call, k));
                    } else {
                        // the start of a row
                        let act = [Act::Stall, Act::Fail][k - calls[call]];
                        it.plan = Plan { read: vec![(200 + call * 17, act)], ..Plan::default() };
                    }
                    check("long", &long, true, it, ch)
                },
            );
            if !run.quick() {
                run.space(
                    "two dropped futures",
                    "the same as 'dropped futures' with whole transfers, two calls dropped",
                    |ch| {
                        let i = ch.choose(list.len());
                        let d = ch.flag();
                        let plan = pend(0, 0, ch.flag());
                        let n = ideal[i][d as usize].calls;
                        let a = ch.choose(n);
                        let b = a + 1 + ch.choose(n - a);
                        let cuts = vec![(a, ch.choose(12)), (b, ch.choose(12))];
                        check(list[i].0, &list[i].1, d, Interrupt { plan, cuts, garble: None }, ch)
                    },
                );
                run.space(
                    "undecodable packet and dropped future",
                    "the same as 'undecodable packets', with one call dropped",
                    |ch| {
                        let i = ch.choose(list.len());
                        let d = ch.flag();
                        let id = &ideal[i][d as usize];
                        let at = id.start.3 + ch.choose(id.marks.len() - id.start.3);
                        let how = ch.choose(GARBLES);
                        let call = ch.choose(id.calls);
                        let k = ch.choose(10);
                        check(
                            list[i].0,
                            &list[i].1,
                            d,
                            Interrupt { plan: pend(0, 0, false), cuts: vec![(call, k)], garble: Some((at, how)) },
                            ch,
                        )
                    },
                );
            }
        },
    )
}

//! C27: prepared statements do not accumulate on the server.
use std::{
    future::Future,
    pin::{pin, Pin},
    task::{Context, Poll},
};

use mc::{
    drive::{run_op, Op, Read, Session, StmtOp, E},
    mock::Plan,
    rt,
    scen::{self, Item},
    server::{Cfg, Cmd, Server},
    wire::{cap, Cell, ErrData, OkData, Reply},
    Chooser, Level,
};
use mysql_connector::{
    macros::*,
    model::{ActiveModel, ActiveReference, ActiveValue, HasActiveModel, UpdateModel},
    types::Value,
    Connection,
};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

/// The one in use, and at most one that is not closed yet.
const LIMIT: usize = 2;

fn judge(s: &Session, ch: &mut Chooser) -> Result<(), String> {
    let log = s.log.lock().unwrap();
    ch.steps(log.events.len() as u64);
    ch.state(&(log.prepared, log.most_open));
    if log.most_open > LIMIT {
        return Err(format!(
            "{} statements were prepared, {} of them were open at once",
            log.prepared, log.most_open
        ));
    }
    Ok(())
}

const OPERATIONS: usize = 21;
const FEW: [usize; 9] = [0, 1, 2, 4, 7, 9, 13, 15, 18];

fn operation(i: usize, k: usize) -> Item {
    let p = |params, cols, ops: &[(usize, Option<Read>)]| {
        let mut item = scen::prepare(i, params, cols, ops);
        // all bytes of the id matter
        item.stmt = item.stmt.wrapping_mul(0x0101_0101);
        if let Reply::Prepared { id, .. } = &mut item.replies[0][0] {
            *id = item.stmt;
        }
        item
    };
    match k {
        0 => p(0, 0, &[]),
        1 => p(1, 0, &[(0, None)]),
        2 => p(1, 2, &[(2, Some(Read::All))]),
        3 => p(0, 2, &[(2, Some(Read::Next(0)))]),
        4 => p(2, 2, &[(2, Some(Read::Next(1)))]),
        5 => p(1, 2, &[(2, Some(Read::One))]),
        6 => p(1, 2, &[(5, Some(Read::Finish))]),
        7 => p(1, 2, &[(11, Some(Read::Next(1)))]),
        8 => p(1, 2, &[(2, Some(Read::Next(1))), (0, None), (5, Some(Read::All))]),
        9 => p(1, 0, &[(1, None)]),
        10 => p(1, 2, &[(4, Some(Read::All))]),
        11 => p(1, 2, &[(4, Some(Read::Next(0)))]),
        12 => p(9, 9, &[(0, None), (0, None)]),
        13 => scen::prepare_fails(i),
        14 => scen::query(i, 2, Read::All),
        15 => scen::query(i, 5, Read::Next(1)),
        16 => scen::query(i, 1, Read::All),
        17 => scen::execute(i, 0),
        18 => scen::execute(i, 1),
        19 => scen::cleanup(),
        _ => {
            // the number of values is wrong
            let mut item = p(2, 0, &[(0, None)]);
            if let Op::Prepare(_, ops) = &mut item.op {
                *ops = vec![StmtOp::Execute(vec![Value::Int(1)]), StmtOp::Query(vec![], Read::All)];
            }
            item
        }
    }
}

fn session(items: &[Item], deprecate_eof: bool, plan: Plan) -> Session {
    let cfg = Cfg {
        caps: if deprecate_eof { cap::DEFAULT } else { cap::DEFAULT & !cap::DEPRECATE_EOF },
        ..Cfg::default()
    };
    Session::of(Server::new(cfg, scen::handler(items)), plan)
}

/// Runs all operations one after another.
fn check(items: &[Item], deprecate_eof: bool, ch: &mut Chooser) -> Result<(), String> {
    let s = session(items, deprecate_eof, Plan::default());
    let mut all = Vec::new();
    rt::run(async {
        let mut conn = s.connect().await.map_err(|e| format!("connect: {e:?}"))?;
        for item in items {
            let mut got = Vec::new();
            run_op(&mut conn, &item.op, &mut got).await;
            all.push(got);
        }
        Ok(())
    })
    .unwrap_or_else(|_| Err("hangs".to_owned()))?;
    ch.outcome(&all);
    ch.note(|| format!("{:?} -> {all:?}", items.iter().map(|x| &x.op).collect::<Vec<_>>()));
    let wanted = items.iter().filter(|x| matches!(x.replies.first().and_then(|r| r.first()), Some(Reply::Prepared { .. }))).count();
    let prepared = s.log.lock().unwrap().prepared;
    if prepared != wanted {
        return Err(format!("{prepared} of {wanted} statements were prepared: {all:?}"));
    }
    s.server_errors()?;
    judge(&s, ch)
}

/// Gives up after so many polls.
struct Cut<'a, F: ?Sized>(Pin<&'a mut F>, usize);

impl<F: Future + ?Sized> Future for Cut<'_, F> {
    type Output = bool;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<bool> {
        if self.1 == 0 {
            return Poll::Ready(false);
        }
        self.1 -= 1;
        self.0.as_mut().poll(cx).map(|_| true)
    }
}

/// The `at`-th operation is given up after `polls` polls. What is still possible then (C03) must
/// not leave statements behind. Returns whether it was interrupted.
fn interrupted(items: &[Item], at: usize, polls: usize, ch: &mut Chooser) -> Result<bool, String> {
    let plan = Plan {
        pend_read: true,
        pend_write: true,
        pend_flush: true,
        ..Plan::default()
    };
    let s = session(items, true, Plan::default());
    let mut all = Vec::new();
    let mut done = true;
    rt::run(async {
        let mut conn = s.connect().await.map_err(|e| format!("connect: {e:?}"))?;
        s.pipe.lock().unwrap().set_plan(plan);
        for (i, item) in items.iter().enumerate() {
            let mut got = Vec::new();
            let polls = if i == at { polls } else { usize::MAX };
            done &= Cut(pin!(run_op(&mut conn, &item.op, &mut got)), polls).await;
            all.push(got);
        }
        Ok(())
    })
    .unwrap_or_else(|_| Err("hangs".to_owned()))?;
    ch.outcome(&all);
    ch.note(|| format!("operation {at} given up after {polls} polls -> {all:?}"));
    s.server_errors()?;
    judge(&s, ch)?;
    Ok(!done)
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "m", primary = "id", auto_increment = "true")]
pub struct M {
    pub id: u32,
    pub a: u32,
    pub b: Option<u32>,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "r", primary = "id", auto_increment = "true")]
pub struct R {
    pub id: u32,
    pub m: M,
}

const MODEL_OPERATIONS: usize = 7;

async fn model_op(conn: &mut Connection, op: usize) -> Result<u64, E> {
    let m = |a| {
        let mut x = <M as HasActiveModel>::ActiveModel::default();
        x.a = ActiveValue::Set(a);
        x
    };
    let res = match op {
        0 => m(1).insert(conn).await,
        // refused
        1 => m(13).insert(conn).await,
        2 | 3 => {
            let mut r = <R as HasActiveModel>::ActiveModel::default();
            r.m = ActiveReference::Insert(m(if op == 2 { 1 } else { 13 }));
            r.insert(conn).await
        }
        4 | 5 => {
            let mut u = UpdateModel::<M>::new(5);
            u.a = ActiveValue::Set(if op == 4 { 1 } else { 13 });
            u.update(conn).await.map(|()| 0)
        }
        _ => conn.execute_query("delete from `m`").await.map(|_| 0),
    };
    res.map_err(|e| E::of(&e))
}

/// Inserts and updates of models prepare statements, too.
fn models(ops: &[usize], ch: &mut Chooser) -> Result<(), String> {
    let mut n = 0;
    let handler = Box::new(move |cmd: &Cmd| match cmd {
        Cmd::Prepare(x) => {
            n += 1;
            vec![Reply::Prepared {
                id: n,
                params: x.iter().filter(|c| **c == b'?').count(),
                cols: Vec::new(),
            }]
        }
        Cmd::Execute { params, .. } if params.iter().any(|x| x.2 == Cell::Int(13)) => {
            vec![Reply::Err(ErrData::new(1062, "23000", "Duplicate entry"))]
        }
        Cmd::Execute { .. } => vec![Reply::Ok(OkData::new(1, n as u64))],
        _ => vec![Reply::Ok(OkData::new(0, 0))],
    });
    let s = Session::of(Server::new(Cfg::default(), handler), Plan::default());
    let mut all = Vec::new();
    rt::run(async {
        let mut conn = s.connect().await.map_err(|e| format!("connect: {e:?}"))?;
        for op in ops {
            all.push(model_op(&mut conn, *op).await);
        }
        Ok::<_, String>(())
    })
    .unwrap_or_else(|_| Err("hangs".to_owned()))?;
    ch.outcome(&all);
    ch.note(|| format!("{ops:?} -> {all:?}"));
    s.server_errors()?;
    judge(&s, ch)
}

fn main() {
    mc::main(
        "C27",
        Level {
            level: "model_checking",
            rule: "every history of the stated operations and length is executed on the real client against the \
                   reference server, which counts the statements that are open; states are the numbers of prepared \
                   and of open statements",
            assumptions: &["two statements that are open at once are no accumulation: the one in use, and the one before"],
        },
        |run| {
            let (long, rounds) = run.by((3, 4), (4, 4));
            run.space(
                "cycles",
                &format!(
                    "every sequence of up to {long} of {OPERATIONS} operations (statements that are not executed, executed, queried and \
                     read in part or not at all, refused, of the wrong number of values; queries), {rounds} times; with DEPRECATE_EOF, \
                     up to length 2 also without"
                ),
                |ch| {
                    let n = 1 + ch.choose(long);
                    let ops: Vec<usize> = (0..n).map(|_| ch.choose(OPERATIONS)).collect();
                    let items: Vec<Item> = (0..n * rounds).map(|i| operation(i, ops[i % n])).collect();
                    check(&items, n > 2 || ch.flag(), ch)
                },
            );
            let depth = run.by(5, 6);
            run.space(
                "sequences",
                &format!("every sequence of {depth} of 9 operations"),
                |ch| {
                    let items: Vec<Item> = (0..depth).map(|i| operation(i, *ch.pick(&FEW))).collect();
                    check(&items, true, ch)
                },
            );
            run.space(
                "interrupted",
                "one of three operations (two of them any of 21), with three more preparations after them, is dropped after each number of polls of a transport on which every step is pending first",
                |ch| {
                    let at = ch.choose(3);
                    let (a, b) = (ch.choose(OPERATIONS), ch.choose(OPERATIONS));
                    let mut items = vec![operation(0, a), operation(1, b)];
                    items.insert(at.min(1), operation(2, 4));
                    items.extend((3..6).map(|i| operation(i, 1)));
                    let mut polls = 1;
                    while interrupted(&items, at, polls, ch)? {
                        polls += 1;
                    }
                    Ok(())
                },
            );
            let n = run.by(6, 7);
            run.space(
                "models",
                &format!("every sequence of {n} inserts and updates of models, with and without a reference, accepted or refused, and queries"),
                |ch| {
                    let ops: Vec<usize> = (0..n).map(|_| ch.choose(MODEL_OPERATIONS)).collect();
                    models(&ops, ch)
                },
            );
        },
    )
}

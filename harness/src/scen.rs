//! Sessions: sequences of operations, the results the server answers with, and what the reference
//! model says the client has to observe.
use std::{collections::BTreeMap, future::Future, sync::Mutex};

use mysql_connector::{types::Value, Connection};

use crate::{
    drive::{expect_read, run_op, Obs, Op, Read, Rest, Session, StmtOp, E},
    engine::Chooser,
    mock::Plan,
    rt,
    server::{Cfg, Cmd, Handler, Log},
    wire::{cap, ty, Cell, Col, End, ErrData, OkData, Reply},
};

pub const SHAPES: usize = 12;

/// Results of one command; everything in them is unique to `tag`.
pub fn replies(shape: usize, tag: &str) -> Vec<Reply> {
    let seed: u64 = tag.bytes().fold(7, |a, b| a * 31 + b as u64) % 200;
    let ok = |n: u64| {
        let mut x = OkData::new(seed + n, 300 + seed + n);
        x.warnings = n as u16 + 1;
        x.info = format!("{tag}-info{n}");
        Reply::Ok(x)
    };
    let err = |n: u16| ErrData::new(1000 + seed as u16 * 10 + n, "HY000", &format!("{tag}-err{n}"));
    let rows = |r: usize, n: usize, end: Option<ErrData>| {
        let cols = vec![
            Col::new("name", ty::VAR_STRING, 0),
            Col::new("n", ty::LONGLONG, 0),
        ];
        let rows = (0..n)
            .map(|i| match i % 3 {
                0 => vec![
                    Cell::from(format!("{tag}r{r}i{i}").as_str()),
                    Cell::Int(i as i128),
                ],
                1 => vec![Cell::Null, Cell::Int(-(seed as i128) - i as i128)],
                _ => vec![Cell::from(""), Cell::Null],
            })
            .collect();
        let end = match end {
            Some(e) => End::Err(e),
            None => {
                let mut x = OkData::new(0, 0);
                x.warnings = 10 + r as u16;
                End::Ok(x)
            }
        };
        Reply::Rows { cols, rows, end }
    };
    match shape {
        0 => vec![ok(0)],
        1 => vec![Reply::Err(err(0))],
        2 => vec![rows(0, 2, None)],
        3 => vec![rows(0, 0, None)],
        4 => vec![rows(0, 1, Some(err(0)))],
        5 => vec![rows(0, 2, None), rows(1, 1, None)],
        6 => vec![ok(0), rows(1, 1, None), ok(1)],
        7 => vec![rows(0, 1, None), Reply::Err(err(1))],
        8 => vec![rows(0, 1, None), rows(1, 1, Some(err(1)))],
        9 => vec![ok(0), Reply::Err(err(1))],
        10 => vec![rows(0, 0, Some(err(0)))],
        11 => vec![rows(0, 1, None), ok(1), rows(2, 3, None)],
        // more rows than sequence ids
        n => vec![rows(0, n, None)],
    }
}

pub const READS: [Read; 6] = [
    Read::All,
    Read::Next(0),
    Read::Next(1),
    Read::Next(2),
    Read::One,
    Read::Finish,
];

/// One operation of a session with what the server answers.
#[derive(Clone, Debug)]
pub struct Item {
    pub op: Op,
    /// replies to the query, or to the preparation and the executions
    pub replies: Vec<Vec<Reply>>,
    pub stmt: u32,
}

pub fn query(i: usize, shape: usize, read: Read) -> Item {
    let sql = format!("q{i}");
    Item {
        replies: vec![replies(shape, &sql)],
        op: Op::Query(sql, read),
        stmt: 0,
    }
}

pub fn execute(i: usize, shape: usize) -> Item {
    let sql = format!("x{i}");
    Item {
        replies: vec![replies(shape, &sql)],
        op: Op::Execute(sql),
        stmt: 0,
    }
}

/// `None` executes, `Some` queries.
pub fn prepare(i: usize, params: usize, cols: usize, ops: &[(usize, Option<Read>)]) -> Item {
    let sql = format!("p{i}");
    let stmt = 100 + i as u32;
    let mut all = vec![vec![Reply::Prepared {
        id: stmt,
        params,
        cols: (0..cols)
            .map(|c| Col::new(&format!("c{c}"), ty::VAR_STRING, 0))
            .collect(),
    }]];
    let mut list = Vec::new();
    for (j, (shape, read)) in ops.iter().enumerate() {
        all.push(replies(*shape, &format!("{sql}e{j}")));
        let values = (0..params)
            .map(|p| match p % 2 {
                0 => Value::Int((i * 10 + j) as i32),
                _ => Value::Bytes(format!("v{i}.{j}").into_bytes()),
            })
            .collect();
        list.push(match read {
            Some(r) => StmtOp::Query(values, *r),
            None => StmtOp::Execute(values),
        });
    }
    Item {
        op: Op::Prepare(sql, list),
        replies: all,
        stmt,
    }
}

pub fn prepare_fails(i: usize) -> Item {
    let sql = format!("p{i}");
    Item {
        replies: vec![vec![Reply::Err(ErrData::new(
            1064,
            "42000",
            &format!("{sql} is wrong"),
        ))]],
        op: Op::Prepare(sql, Vec::new()),
        stmt: 0,
    }
}

pub fn cleanup() -> Item {
    Item {
        op: Op::Cleanup,
        replies: Vec::new(),
        stmt: 0,
    }
}

/// Server side of a session.
pub fn handler(items: &[Item]) -> Handler {
    let mut by_text: BTreeMap<Vec<u8>, Vec<Reply>> = BTreeMap::new();
    let mut by_stmt: BTreeMap<u32, Vec<Vec<Reply>>> = BTreeMap::new();
    for item in items {
        match &item.op {
            Op::Query(sql, _) | Op::Execute(sql) | Op::Prepare(sql, _) => {
                by_text.insert(sql.clone().into_bytes(), item.replies[0].clone());
                let mut rest = item.replies[1..].to_vec();
                rest.reverse();
                if matches!(item.op, Op::Prepare(..)) && !rest.is_empty() {
                    by_stmt.insert(item.stmt, rest);
                }
            }
            Op::Cleanup => {}
        }
    }
    Box::new(move |cmd| match cmd {
        Cmd::Query(x) | Cmd::Prepare(x) => by_text.get(x).cloned().unwrap_or_else(|| {
            vec![Reply::Err(ErrData::new(1064, "42000", "unknown query"))]
        }),
        Cmd::Execute { stmt, .. } => by_stmt
            .get_mut(stmt)
            .and_then(|x| x.pop())
            .unwrap_or_else(|| vec![Reply::Err(ErrData::new(1243, "HY000", "unknown statement"))]),
        _ => Vec::new(),
    })
}

/// The reference model of a client.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Model {
    pub rest: Rest,
    /// A command that can't have rows returned some, so the connection can't be used any more.
    pub dead: bool,
    pub deprecate_eof: bool,
}

fn param_cells(values: &[Value]) -> Vec<Cell> {
    values
        .iter()
        .map(|v| match v {
            Value::Null => Cell::Null,
            Value::Int(x) => Cell::Int(*x as i128),
            Value::Bytes(x) => Cell::Bytes(x.clone()),
            x => panic!("{x:?}"),
        })
        .collect()
}

impl Model {
    fn execute(&mut self, replies: &[Reply], out: &mut Vec<Obs>) {
        match &replies[0] {
            Reply::Rows { .. } => {
                out.push(Obs::Err(E::Other(String::new())));
                self.dead = true;
            }
            _ => {
                let (obs, rest) = expect_read(replies, Read::Finish, self.deprecate_eof);
                out.extend(obs);
                self.rest = rest;
            }
        }
    }

    /// Expected observations of an operation, and the commands it sends.
    pub fn step(&mut self, item: &Item) -> (Vec<Obs>, Vec<Cmd>) {
        let mut out = Vec::new();
        let mut cmds = Vec::new();
        match &item.op {
            Op::Cleanup => match self.rest.drain(self.deprecate_eof) {
                Err(e) => out.push(Obs::Err(E::server(&e))),
                Ok(x) => out.push(Obs::Drained(x)),
            },
            Op::Query(sql, read) => {
                // a new command drops what remains of the last one
                let _ = self.rest.drain(self.deprecate_eof);
                cmds.push(Cmd::Query(sql.clone().into_bytes()));
                let (obs, rest) = expect_read(&item.replies[0], *read, self.deprecate_eof);
                out.extend(obs);
                self.rest = rest;
            }
            Op::Execute(sql) => {
                let _ = self.rest.drain(self.deprecate_eof);
                cmds.push(Cmd::Query(sql.clone().into_bytes()));
                self.execute(&item.replies[0], &mut out);
            }
            Op::Prepare(sql, ops) => {
                let _ = self.rest.drain(self.deprecate_eof);
                cmds.push(Cmd::Prepare(sql.clone().into_bytes()));
                match &item.replies[0][0] {
                    Reply::Err(e) => {
                        out.push(Obs::Err(E::server(e)));
                        return (out, cmds);
                    }
                    Reply::Prepared { params, .. } => {
                        out.push(Obs::Prepared);
                        for (op, replies) in ops.iter().zip(&item.replies[1..]) {
                            let (values, read) = match op {
                                StmtOp::Query(v, r) => (v, Some(*r)),
                                StmtOp::Execute(v) => (v, None),
                            };
                            if self.dead || values.len() != *params {
                                out.push(Obs::Err(E::Other(String::new())));
                                continue;
                            }
                            let _ = self.rest.drain(self.deprecate_eof);
                            cmds.push(Cmd::Execute {
                                stmt: item.stmt,
                                params: param_cells(values)
                                    .into_iter()
                                    .map(|c| (0, false, c))
                                    .collect(),
                            });
                            match read {
                                Some(r) => {
                                    let (obs, rest) = expect_read(replies, r, self.deprecate_eof);
                                    out.extend(obs);
                                    self.rest = rest;
                                }
                                None => self.execute(replies, &mut out),
                            }
                        }
                    }
                    _ => unreachable!(),
                }
            }
        }
        (out, cmds)
    }
}

/// Errors that are not the server's are equal.
pub fn same(expected: &[Obs], got: &[Obs]) -> bool {
    expected.len() == got.len()
        && expected.iter().zip(got).all(|(a, b)| match (a, b) {
            (Obs::Err(a), Obs::Err(b)) => {
                if a.is_server() || b.is_server() {
                    a == b
                } else {
                    true
                }
            }
            (a, b) => a == b,
        })
}

/// Same commands, whatever types the parameters were sent with.
pub fn same_cmds(a: &[Cmd], b: &[Cmd]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(a, b)| match (a, b) {
            (
                Cmd::Execute { stmt: s, params: p },
                Cmd::Execute {
                    stmt: t,
                    params: q,
                },
            ) => s == t && p.len() == q.len() && p.iter().zip(q).all(|(x, y)| x.2 == y.2),
            (a, b) => a == b,
        })
}

/// An operation that only one response can answer.
pub fn probe() -> Item {
    query(99, 2, Read::All)
}

pub fn caps(deprecate_eof: bool) -> u32 {
    if deprecate_eof {
        cap::DEFAULT
    } else {
        cap::DEFAULT & !cap::DEPRECATE_EOF
    }
}

/// Makes all operations and compares with the model. `settled` ends as soon as the server received
/// what was sent before disconnecting.
pub async fn talk(
    mut conn: Connection,
    items: &[Item],
    deprecate_eof: bool,
    log: &Mutex<Log>,
    settled: impl Future<Output = ()>,
    seen: &Mutex<Vec<Vec<Obs>>>,
    ch: &mut Chooser<'_>,
) -> Result<(), String> {
    let mut model = Model {
        deprecate_eof,
        ..Model::default()
    };
    let mut cmds = Vec::new();
    for (i, item) in items.iter().enumerate() {
        let before = model.clone();
        let (expected, sent) = model.step(item);
        let mut got = Vec::new();
        run_op(&mut conn, &item.op, &mut got).await;
        seen.lock().unwrap().push(got.clone());
        ch.steps(got.len() as u64 + 1);
        ch.state(&format!("{model:?}"));
        if before.dead {
            if !same(&expected, &got) && !got.iter().all(|x| matches!(x, Obs::Err(e) if !e.is_server())) {
                return Err(format!(
                    "operation {i} on a connection that lost track: {:?} returned {got:?}",
                    item.op
                ));
            }
            continue;
        }
        cmds.extend(sent);
        if !same(&expected, &got) {
            return Err(format!(
                "operation {i}, {:?}, returned {got:?} instead of {expected:?}",
                item.op
            ));
        }
        let log = log.lock().unwrap().cmds();
        if !same_cmds(&cmds, &log) {
            return Err(format!(
                "after operation {i}, {:?}, the server has got {log:?} instead of {cmds:?}",
                item.op
            ));
        }
    }
    // whatever was left of the last result
    let bye = conn.disconnect().await.map_err(|e| E::of(&e));
    settled.await;
    if !model.dead {
        cmds.push(Cmd::Quit);
        if bye.is_err() {
            return Err(format!("disconnecting returned {bye:?}"));
        }
        let log = log.lock().unwrap().cmds();
        if !same_cmds(&cmds, &log) {
            return Err(format!(
                "after disconnecting, the server has got {log:?} instead of {cmds:?}"
            ));
        }
    }
    Ok(())
}

/// Runs all operations over an ideal transport and compares with the model.
pub fn check(items: &[Item], deprecate_eof: bool, ch: &mut Chooser) -> Result<(), String> {
    let cfg = Cfg {
        caps: caps(deprecate_eof),
        ..Cfg::default()
    };
    let session = Session::new(cfg, Plan::default(), handler(items));
    let seen = Mutex::new(Vec::new());
    let res = rt::run(async {
        let conn = session
            .connect()
            .await
            .map_err(|e| format!("connect: {e:?}"))?;
        talk(conn, items, deprecate_eof, &session.log, async {}, &seen, ch).await
    })
    .unwrap_or_else(|_| Err("the session hangs".to_owned()));
    let seen = seen.into_inner().unwrap();
    ch.outcome(&seen);
    ch.note(|| {
        let ops: Vec<String> = items.iter().map(|x| format!("{:?}", x.op)).collect();
        format!("{ops:?} -> {seen:?}")
    });
    res?;
    session.server_errors()
}

//! C25: no server input can crash, hang or exhaust the client.
use std::{
    sync::{Arc, Mutex},
    time::Duration,
};

use mc::{
    cases::{self, CASES},
    drive::{options, run_op, Op, Read, StmtOp, TIMEOUT},
    mock::{Mock, Peer, Pipe, Plan, Shared},
    rsa, rt,
    scen::{self, Item},
    server::{Cfg, Cmd, Handler, Plugin, Server},
    sql::{self, Db, SharedDb, Table},
    wire::{cap, ty, Cell, Col, End, ErrData, OkData, Reply, UNSIGNED},
    Chooser, Level, Run,
};
use mysql_connector::{
    macros::{ActiveModel, FromQueryResult, IntoQuery, Model, ModelData},
    model::{ActiveModel as _, IntoQuery as _, Model as _},
    types::Value,
    Connection, ConnectionOptions,
};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "child", primary = "id", auto_increment = "true")]
pub struct Child {
    pub id: u32,
    pub b: Option<i8>,
}

#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "parent", primary = "id", auto_increment = "true")]
pub struct Parent {
    pub id: u32,
    pub a: String,
    pub c: Option<Vec<u8>>,
    pub d: chrono::NaiveDateTime,
    pub e: Option<chrono::NaiveDate>,
    pub f: f64,
    pub child: Child,
}


fn model_db() -> Db {
    let mut db = Db::new();
    let cols = [
        ("id", ty::LONG, UNSIGNED),
        ("a", ty::VAR_STRING, 0),
        ("c", ty::BLOB, 0),
        ("d", ty::DATETIME, 0),
        ("e", ty::DATE, 0),
        ("f", ty::DOUBLE, 0),
        ("child", ty::LONG, UNSIGNED),
    ];
    let mut t = Table::new("parent", cols.iter().map(|c| Col::of("parent", c.0, c.1, c.2)).collect());
    for (i, c) in [Cell::Null, Cell::Bytes(vec![0, 255])].into_iter().enumerate() {
        t.rows.push(vec![
            Cell::Int(i as i128 + 1),
            Cell::from("text"),
            c,
            Cell::DateTime(2024, 2, 29, 23, 59, 59, 999999 * i as u32),
            Cell::Date(2024, 2, 29),
            Cell::F64(1.5),
            Cell::Int(2),
        ]);
    }
    db.tables.push(t);
    let mut t = Table::new(
        "child",
        vec![Col::of("child", "id", ty::LONG, UNSIGNED), Col::of("child", "b", ty::TINY, 0)],
    );
    t.auto = Some(0);
    t.rows.push(vec![Cell::Int(2), Cell::Int(-1)]);
    db.tables.push(t);
    db
}

/// Results with a column of every type.
fn all_types() -> Vec<Reply> {
    let list = [
        (ty::DECIMAL, 0, Cell::from("1.50")),
        (ty::TINY, 0, Cell::Int(-1)),
        (ty::TINY, UNSIGNED, Cell::Int(255)),
        (ty::SHORT, 0, Cell::Int(-300)),
        (ty::SHORT, UNSIGNED, Cell::Int(65535)),
        (ty::LONG, 0, Cell::Int(-70000)),
        (ty::LONG, UNSIGNED, Cell::Int(70000)),
        (ty::FLOAT, 0, Cell::F32(1.5)),
        (ty::DOUBLE, 0, Cell::F64(-2.5)),
        (ty::TIMESTAMP, 0, Cell::DateTime(2024, 2, 29, 1, 2, 3, 0)),
        (ty::LONGLONG, 0, Cell::Int(-(1 << 40))),
        (ty::LONGLONG, UNSIGNED, Cell::Int(1 << 40)),
        (ty::INT24, 0, Cell::Int(-5)),
        (ty::INT24, UNSIGNED, Cell::Int(5)),
        (ty::DATE, 0, Cell::Date(2024, 12, 31)),
        (ty::TIME, 0, Cell::Time(true, 1, 2, 3, 4, 5)),
        (ty::DATETIME, 0, Cell::DateTime(2024, 1, 2, 3, 4, 5, 6)),
        (ty::YEAR, UNSIGNED, Cell::Int(2024)),
        (ty::BIT, UNSIGNED, Cell::Bytes(vec![1, 2])),
        (ty::JSON, 0, Cell::from("{}")),
        (ty::NEWDECIMAL, 0, Cell::from("-0.5")),
        (ty::ENUM, 0, Cell::from("e")),
        (ty::BLOB, 0, Cell::Bytes(vec![0, 255])),
        (ty::VAR_STRING, 0, Cell::from("text")),
        (ty::STRING, 0, Cell::from("")),
        (ty::GEOMETRY, 0, Cell::Bytes(vec![1])),
    ];
    vec![Reply::Rows {
        cols: list.iter().enumerate().map(|(i, x)| Col::new(&format!("c{i}"), x.0, x.1)).collect(),
        rows: vec![
            list.iter().map(|x| x.2.clone()).collect(),
            list.iter().map(|_| Cell::Null).collect(),
            list.iter().enumerate().map(|(i, x)| if i % 2 == 0 { x.2.clone() } else { Cell::Null }).collect(),
        ],
        end: End::Ok(OkData::new(0, 0)),
    }]
}

enum Work {
    Items(fn() -> Vec<Item>),
    /// as text or from a statement
    Types(bool),
    Models(bool),
    /// rows of one value, converted into everything
    Values(bool),
}

struct Kind {
    name: &'static str,
    cfg: fn() -> Cfg,
    secure: bool,
    settings: bool,
    work: Work,
}

fn kinds() -> Vec<Kind> {
    let mut out: Vec<Kind> = CASES
        .iter()
        .map(|c| Kind {
            name: c.name,
            cfg: c.cfg,
            secure: c.secure,
            settings: c.settings,
            work: Work::Items(c.items),
        })
        .collect();
    let simple = |name, work| Kind {
        name,
        cfg: Cfg::default,
        secure: false,
        settings: false,
        work,
    };
    out.push(simple("all types as text", Work::Types(false)));
    out.push(simple("all types from a statement", Work::Types(true)));
    out.push(simple("models as text", Work::Models(false)));
    out.push(simple("models from a statement", Work::Models(true)));
    out
}

/// How long operations took, and what became of them.
struct Watch {
    pipe: Shared,
    longest: Duration,
    /// longer than two timeouts for every packet that came and one
    late: Option<Duration>,
    failed: usize,
    ended: usize,
}

impl Watch {
    fn new(pipe: &Shared) -> Self {
        Self {
            pipe: pipe.clone(),
            longest: Duration::ZERO,
            late: None,
            failed: 0,
            ended: 0,
        }
    }

    async fn time<T>(&mut self, f: impl std::future::Future<Output = T>) -> T {
        let start = rt::now();
        let from = self.pipe.lock().unwrap().rpos;
        let x = f.await;
        let time = start.elapsed();
        self.longest = self.longest.max(time);
        let pipe = self.pipe.lock().unwrap();
        let (mut at, mut packets) = (0, 0);
        while let Some(h) = pipe.s2c.get(at..at + 4) {
            if at >= from && at < pipe.rpos {
                packets += 1;
            }
            at += 4 + u32::from_le_bytes([h[0], h[1], h[2], 0]) as usize;
        }
        if time > 2 * TIMEOUT * (packets + 1) {
            self.late = Some(time);
        }
        x
    }

    async fn op<T, E: std::fmt::Debug>(&mut self, f: impl std::future::Future<Output = Result<T, E>>) -> Option<T> {
        let res = self.time(f).await;
        self.ended += 1;
        if let Err(e) = &res {
            // errors have to be presentable as well
            let _ = format!("{e:?}");
            self.failed += 1;
        }
        res.ok()
    }
}

async fn work(conn: &mut Connection, kind: &Work, w: &mut Watch) {
    match kind {
        Work::Items(items) => {
            for item in items().iter().chain([&scen::probe()]) {
                let mut out = Vec::new();
                // every packet of an operation may come just in time
                w.time(run_op(conn, &item.op, &mut out)).await;
                w.ended += 1;
            }
        }
        Work::Types(binary) => {
            let read = vec![StmtOp::Query(Vec::new(), Read::All)];
            let op = match binary {
                true => Op::Prepare("types".into(), read),
                false => Op::Query("types".into(), Read::All),
            };
            let mut out = Vec::new();
            w.time(run_op(conn, &op, &mut out)).await;
            w.ended += 1;
        }
        Work::Values(binary) => {
            let rows = match binary {
                true => {
                    w.op(async {
                        let mut stmt = conn.prepare_statement("v").await?;
                        let mut rs = stmt.query::<Value, Vec<Value>>(&[]).await?;
                        rs.collect().await
                    })
                    .await
                }
                false => {
                    w.op(async {
                        let mut rs = conn.query::<Vec<Value>>("v").await?;
                        rs.collect().await
                    })
                    .await
                }
            };
            for v in rows.into_iter().flatten().flatten() {
                macro_rules! all {
                    ($($t:ty),*) => { $(
                        let x: Result<$t, _> = v.clone().try_into();
                        let _ = format!("{x:?}");
                    )* };
                }
                all!(i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, bool, String, Vec<u8>);
                all!(mysql_connector::types::Hex, chrono::NaiveDate, chrono::NaiveDateTime, chrono::Duration);
                let _ = format!("{v} {v:?}");
            }
        }
        Work::Models(binary) => {
            let sql = Parent::build_query();
            if *binary {
                w.op(async {
                    let mut stmt = conn.prepare_statement(&sql).await?;
                    let mut rs = stmt.query::<Value, Parent>(&[]).await?;
                    rs.collect().await
                })
                .await;
                w.op(async {
                    let mut a = Child::active_model();
                    a.b = mysql_connector::model::ActiveValue::Set(Some(1));
                    a.insert(conn).await
                })
                .await;
                w.op(async {
                    let mut u = mysql_connector::model::UpdateModel::<Child>::new(2);
                    u.b = mysql_connector::model::ActiveValue::Set(None);
                    u.update(conn).await
                })
                .await;
            } else {
                w.op(async {
                    let mut rs = conn.query::<Parent>(&sql).await?;
                    rs.collect().await
                })
                .await;
                w.op(async {
                    let mut rs = conn.query::<Child>(&Child::build_query()).await?;
                    rs.one().await
                })
                .await;
            }
        }
    }
}

fn handler(kind: &Kind) -> Handler {
    match kind.work {
        Work::Items(items) => {
            let mut items = items();
            items.push(scen::probe());
            let mut h = scen::handler(&items);
            Box::new(move |cmd| match cmd {
                Cmd::Query(x) if x == b"select @@max_allowed_packet" => vec![Reply::Rows {
                    cols: vec![Col::new("@@max_allowed_packet", ty::LONGLONG, 32)],
                    rows: vec![vec![Cell::Int(1 << 26)]],
                    end: End::Ok(OkData::new(0, 0)),
                }],
                c => h(c),
            })
        }
        Work::Types(_) => Box::new(|cmd| match cmd {
            Cmd::Prepare(_) => vec![Reply::Prepared {
                id: 1,
                params: 0,
                cols: vec![Col::new("c", ty::LONG, 0)],
            }],
            Cmd::Query(_) | Cmd::Execute { .. } => all_types(),
            _ => Vec::new(),
        }),
        Work::Values(_) => unreachable!(),
        Work::Models(_) => {
            let db: SharedDb = Arc::new(Mutex::new(model_db()));
            let mut s = sql::Session::new(&db);
            Box::new(move |cmd| s.answer(cmd))
        }
    }
}

/// What becomes of a packet to the client.
#[derive(Clone, Debug)]
enum Change {
    Byte(usize, u8),
    Cut(usize),
    /// the header promises the whole packet, or something else
    Stop(usize, u32),
    /// a byte becomes these
    Splice(usize, Vec<u8>),
    Append(Vec<u8>),
    Replace(Vec<u8>),
    Before(Vec<u8>),
    Drop,
    Twice,
}

fn packet(seq: u8, data: &[u8], out: &mut Vec<u8>) {
    out.extend_from_slice(&(data.len() as u32).to_le_bytes()[..3]);
    out.push(seq);
    out.extend_from_slice(data);
}

struct Seen {
    packets: Vec<Vec<u8>>,
    watch: Watch,
    connected: bool,
    received: usize,
    peak: usize,
    promised: usize,
    reads: u64,
}

fn session(kind: &Kind, changes: Vec<(usize, Change)>, plan: Plan) -> Result<Seen, String> {
    rt::run(async {}).ok();
    let packets: Arc<Mutex<Vec<Vec<u8>>>> = Arc::default();
    let mut server = Server::new((kind.cfg)(), handler(kind));
    let p = packets.clone();
    let mut late = 0u8;
    let mut last = 0u8;
    server.tamper = Some(Box::new(move |i, data, seq| {
        p.lock().unwrap().push(data.clone());
        let old = *seq;
        if old < last {
            late = 0;
        }
        last = old;
        *seq = seq.wrapping_add(late);
        for (at, c) in &changes {
            if *at != i {
                continue;
            }
            match c {
                Change::Byte(n, x) => data[*n] = *x,
                Change::Cut(n) => data.truncate(*n),
                Change::Stop(n, len) => {
                    let mut out = len.to_le_bytes()[..3].to_vec();
                    out.push(*seq);
                    out.extend_from_slice(&data[..*n]);
                    return Some(out);
                }
                Change::Splice(n, x) => _ = data.splice(*n..*n + 1, x.iter().copied()),
                Change::Append(x) => data.extend_from_slice(x),
                Change::Replace(x) => *data = x.clone(),
                Change::Before(x) => {
                    let mut out = Vec::new();
                    packet(*seq, x, &mut out);
                    late = late.wrapping_add(1);
                    *seq = seq.wrapping_add(1);
                    packet(*seq, data, &mut out);
                    return Some(out);
                }
                Change::Drop => {
                    late = late.wrapping_sub(1);
                    return Some(Vec::new());
                }
                Change::Twice => {
                    let mut out = Vec::new();
                    packet(*seq, data, &mut out);
                    late = late.wrapping_add(1);
                    *seq = seq.wrapping_add(1);
                    packet(*seq, data, &mut out);
                    return Some(out);
                }
            }
        }
        None
    }));
    let mut seen = drive(Box::new(server), kind.secure, kind.settings, &kind.work, plan)?;
    seen.packets = std::mem::take(&mut *packets.lock().unwrap());
    Ok(seen)
}

/// The client's side of a session with anybody.
fn drive(peer: Box<dyn Peer>, secure: bool, settings: bool, what: &Work, plan: Plan) -> Result<Seen, String> {
    let pipe = Arc::new(Mutex::new(Pipe::new(peer, plan)));
    let mark = mc::engine::alloc_mark();
    async fn go<const S: bool>(mut o: ConnectionOptions<Mock<S>>, settings: bool, what: &Work, pipe: &Shared) -> (bool, Watch) {
        let mut w = Watch::new(pipe);
        if settings {
            o.max_allowed_packet = None;
        }
        let Some(mut conn) = w.op(Connection::connect(Arc::new(o))).await else {
            return (false, w);
        };
        work(&mut conn, what, &mut w).await;
        w.op(conn.disconnect()).await;
        (true, w)
    }
    let (connected, watch) = rt::run(async {
        match secure {
            true => go(options::<true>(&pipe), settings, what, &pipe).await,
            false => go(options::<false>(&pipe), settings, what, &pipe).await,
        }
    })
    .map_err(|_| "the session hangs".to_owned())?;
    let peak = mc::engine::alloc_peak(mark);
    let pipe = pipe.lock().unwrap();
    // what headers promise as the client sees them
    let mut promised = 0;
    let mut at = 0;
    while let Some(h) = pipe.s2c.get(at..at + 4) {
        let len = u32::from_le_bytes([h[0], h[1], h[2], 0]) as usize;
        promised = promised.max(len);
        at += 4 + len;
    }
    Ok(Seen {
        packets: Vec::new(),
        watch,
        connected,
        received: pipe.s2c.len(),
        peak,
        promised,
        reads: pipe.calls,
    })
}

/// Memory that does not depend on what is received.
const BASE: usize = 64 << 10;
/// Memory per byte received.
const FACTOR: usize = 64;

/// `now`: everything that comes comes at once.
fn judge(name: &str, text: &str, seen: &Seen, now: bool, ch: &mut Chooser) -> Result<(), String> {
    // an operation waits at most once for nothing
    if now && seen.watch.longest > 2 * TIMEOUT {
        return Err(format!("{text}: an operation took {:?}", seen.watch.longest));
    }
    if let Some(x) = seen.watch.late {
        return Err(format!("{text}: an operation took {x:?}"));
    }
    let limit = BASE + FACTOR * seen.received + 3 * seen.promised;
    if seen.peak > limit {
        return Err(format!("{text}: {} bytes of memory for {} bytes received", seen.peak, seen.received));
    }
    ch.steps(seen.reads);
    ch.state(&(seen.connected, seen.watch.failed, seen.watch.ended, seen.packets.len()));
    ch.outcome(&(name, seen.connected, seen.watch.failed, seen.watch.longest, seen.packets.len()));
    Ok(())
}

fn check(kind: &Kind, change: Vec<(usize, Change)>, ch: &mut Chooser) -> Result<(), String> {
    let text = format!("{}: {change:?}", kind.name);
    let text = &text[..text.floor_char_boundary(600)];
    ch.note(|| text.to_owned());
    let seen = session(kind, change, Plan::default()).map_err(|e| format!("{text}: {e}"))?;
    judge(kind.name, text, &seen, true, ch)
}

/// Answers with packets one after the other, whatever the client sends.
struct Script {
    first: Vec<u8>,
    /// answers to the packets of the client
    answers: std::collections::VecDeque<Vec<Vec<u8>>>,
    buf: Vec<u8>,
}

impl Peer for Script {
    fn open(&mut self, out: &mut Vec<u8>) {
        packet(0, &self.first, out);
    }

    fn recv(&mut self, bytes: &[u8], out: &mut Vec<u8>) {
        self.buf.extend_from_slice(bytes);
        while self.buf.len() >= 4 {
            let len = u32::from_le_bytes([self.buf[0], self.buf[1], self.buf[2], 0]) as usize;
            if self.buf.len() < 4 + len {
                return;
            }
            let mut seq = self.buf[3];
            self.buf.drain(..4 + len);
            for p in self.answers.pop_front().unwrap_or_default() {
                seq = seq.wrapping_add(1);
                packet(seq, &p, out);
            }
        }
    }
}

fn scripted(
    name: &str,
    first: Vec<u8>,
    answers: Vec<Vec<Vec<u8>>>,
    secure: bool,
    what: &Work,
    ch: &mut Chooser,
) -> Result<(), String> {
    let text = format!("{name}: {answers:?}");
    let text = &text[..text.floor_char_boundary(600)];
    ch.note(|| text.to_owned());
    let peer = Script {
        first,
        answers: answers.into(),
        buf: Vec::new(),
    };
    let seen = drive(Box::new(peer), secure, false, what, Plan::default()).map_err(|e| format!("{text}: {e}"))?;
    judge(name, text, &seen, true, ch)
}

fn hostile_lengths() -> Vec<Vec<u8>> {
    vec![
        vec![],
        vec![0xFB],
        vec![0xFC],
        vec![0xFC, 0xFF],
        vec![0xFC, 0, 0],
        vec![0xFC, 0xFF, 0xFF],
        vec![0xFD, 0xFF, 0xFF],
        vec![0xFD, 0xFF, 0xFF, 0xFF],
        vec![0xFE, 0xFF],
        vec![0xFE, 0, 0, 0, 0, 0, 0, 0, 0],
        vec![0xFE, 0, 0, 0, 0, 0, 0, 0, 0x80],
        vec![0xFE, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F],
        vec![0xFE, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF],
        vec![0xFE, 0xF0, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF],
        vec![0xFE, 0, 0, 0, 0, 1, 0, 0, 0],
        vec![0, 0],
        vec![0xC3, 0x28],
    ]
}

fn dictionary() -> Vec<Vec<u8>> {
    let text = |head: &[u8], text: &str, tail: &[u8]| [head, text.as_bytes(), tail].concat();
    let ok = |flags: u16| {
        let mut x = OkData::new(1, 2);
        x.status |= flags;
        x
    };
    let mut out: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![1],
        vec![2],
        ok(0).encode(0),
        ok(8).encode(0),
        ok(0x4000).encode(0),
        ok(0x4008).encode(0xFE),
        ok(0).encode(0xFE),
        vec![0, 0xFB, 0xFB, 0, 0, 0, 0],
        vec![0, 0, 0, 2, 0, 0, 0, 0xFE],
        vec![0xFE],
        vec![0xFE, 0, 0, 2, 0],
        vec![0xFE, 0, 0, 8, 0],
        vec![0xFE, 0, 0],
        ErrData::new(1064, "42000", "wrong").encode(),
        ErrData {
            code: 1040,
            state: None,
            msg: "Too many connections".into(),
        }
        .encode(),
        vec![0xFF],
        vec![0xFF, 1],
        vec![0xFF, 1, 2],
        vec![0xFF, 1, 2, b'#'],
        vec![0xFF, 1, 2, b'#', b'4', b'2'],
        vec![0xFF, 1, 2, 0xC3, 0x28],
        vec![0xFF, 1, 2, b'#', 0xC3, 0x28, 0, 0, 0],
        vec![0xFF, 0xFF, 0xFF, 1, 2, 0, 0, 1, 0xFA],
        vec![0xFB],
        text(&[0xFB], "/etc/passwd", &[]),
        text(&[0xFE], "mysql_native_password", &[0]),
        text(&[0xFE], "mysql_native_password", &[]),
        text(&[0xFE], "mysql_native_password", &[&[0][..], &[7; 20], &[0]].concat()),
        text(&[0xFE], "caching_sha2_password", &[0]),
        text(&[0xFE], "caching_sha2_password", &[&[0][..], &[7; 20], &[0]].concat()),
        text(&[0xFE], "caching_sha2_password", &[&[0][..], &[7; 300]].concat()),
        text(&[0xFE], "mysql_clear_password", &[0]),
        text(&[0xFE], "mysql_old_password", &[0]),
        text(&[0xFE], "unknown", &[0, 1, 2]),
        vec![0xFE, 0],
        vec![0xFE, 0xC3, 0x28, 0, 1],
        vec![1, 0],
        vec![1, 1],
        vec![1, 2],
        vec![1, 3],
        vec![1, 4],
        vec![1, 4, 4],
        vec![1, 3, 3],
        text(&[1], "-----BEGIN PUBLIC KEY-----", &[]),
        text(&[1], "-----BEGIN PUBLIC KEY-----\nAA==\n-----END PUBLIC KEY-----", &[]),
        [&[1][..], cases::key().pem_pkcs8().as_bytes()].concat(),
        vec![0xFB, 0xFB],
        vec![5],
        vec![0, 0, 0],
        vec![0, 0xFF, 0xFF],
        vec![0, 1, 0, 0, 0, 0xFF, 0xFF, 0, 0, 0, 0, 0],
        vec![0, 1, 0, 0, 0, 0, 0, 0xFF, 0xFF, 0, 0, 0],
        vec![0, 1, 0, 0, 0, 0xFF, 0xFF, 0xFF, 0xFF, 1, 0xFF, 0xFF],
        vec![0, 1, 0, 0, 0, 1, 0, 0, 0, 0],
        Col::new("c", ty::LONG, 0).encode(),
        Col::new("c", ty::NULL, 0).encode(),
        Col::new("c", 200, 0xFFFF).encode(),
        vec![0; 300],
        vec![0xFF; 300],
        vec![0xFE; 9],
        vec![1; 40],
    ];
    out.extend(hostile_lengths().into_iter().filter(|x| x.len() > 1));
    out
}

/// All changes of a packet.
fn changes(data: &[u8], values: &[u8], xor: &[u8]) -> Vec<Change> {
    let mut out = Vec::new();
    let n = data.len();
    for i in 0..n {
        out.push(Change::Cut(i));
        out.push(Change::Stop(i, n as u32));
        let mut seen = vec![data[i]];
        let near = xor.iter().map(|x| data[i] ^ x).chain([data[i].wrapping_add(1), data[i].wrapping_sub(1)]);
        for x in values.iter().copied().chain(near) {
            if !seen.contains(&x) {
                seen.push(x);
                out.push(Change::Byte(i, x));
            }
        }
        out.extend(hostile_lengths().into_iter().map(|x| Change::Splice(i, x)));
    }
    for len in [0, 1, n as u32 - 1, n as u32 + 1, 1 << 16, 0xFF_FFFE, 0xFF_FFFF] {
        if len != n as u32 {
            out.push(Change::Stop(n, len));
        }
    }
    for x in dictionary() {
        out.push(Change::Replace(x.clone()));
        out.push(Change::Before(x.clone()));
        out.push(Change::Append(x));
    }
    out.push(Change::Replace(Cfg::default().greeting()));
    out.push(Change::Drop);
    out.push(Change::Twice);
    out
}

/// Every sequence of packets of the login.
fn logins(run: &mut Run) {
    let versions = ["8.0.36", "", "5.5.5-10.4.2-MariaDB-log", "1", "1.2", "a.b.c", "99999.1.1", "8.0.36é", "....", "-1.0.0", "5.5.5-"];
    let plugins: [&[u8]; 8] = [
        b"mysql_native_password\0",
        b"caching_sha2_password\0",
        b"mysql_clear_password\0",
        b"mysql_native_password",
        b"unknown\0",
        b"\0",
        b"",
        b"\xC3\x28\0",
    ];
    let rests = [0usize, 1, 7, 8, 12, 13, 14, 20, 21, 40, 247, 255, 256, 300];
    let lens: Vec<u8> = match run.quick() {
        true => vec![0, 1, 7, 8, 9, 20, 21, 22, 127, 128, 135, 136, 254, 255],
        false => (0..=255).collect(),
    };
    run.space(
        "greetings",
        "every combination of parts of the greeting: version, capabilities, length of the nonce as told and as it is, plugin",
        |ch| {
            let mut g = vec![*ch.pick(&[10u8, 9, 0])];
            g.extend_from_slice(ch.pick(&versions).as_bytes());
            g.push(0);
            g.extend_from_slice(&[1, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 0]);
            let mut caps = cap::DEFAULT;
            for c in [cap::PLUGIN_AUTH, cap::SECURE_CONNECTION] {
                if ch.flag() {
                    caps &= !c;
                }
            }
            g.extend_from_slice(&(caps as u16).to_le_bytes());
            g.extend_from_slice(&[45, 2, 0]);
            g.extend_from_slice(&((caps >> 16) as u16).to_le_bytes());
            g.push(*ch.pick(&lens));
            g.extend_from_slice(&[0; 10]);
            g.extend((0..*ch.pick(&rests)).map(|x| x as u8 | 1));
            g.extend_from_slice(ch.pick(&plugins));
            let name = format!("greeting {g:?}");
            scripted(&name, g, vec![vec![vec![0, 0, 0, 2, 0, 0, 0]]], false, &Work::Types(false), ch)
        },
    );
    let strange = ['é', '€', '😀', '٣', '\u{2028}', '.', '-', '9', '+'];
    run.space(
        "versions",
        "three versions with every two characters replaced by strange ones",
        |ch| {
            let mut version: Vec<char> = ch.pick(&["8.0.36-log", "5.5.5-10.4.2-MariaDB", "5.5.5-10.4.2-5-MariaDB-log"]).chars().collect();
            for _ in 0..2 {
                let at = ch.choose(version.len());
                version[at] = *ch.pick(&strange);
            }
            let first = Cfg {
                version: version.into_iter().collect(),
                ..Cfg::default()
            }
            .greeting();
            scripted("versions", first, vec![vec![vec![0, 0, 0, 2, 0, 0, 0]]], false, &Work::Types(false), ch)
        },
    );
    let mut alphabet: Vec<Vec<u8>> = Vec::new();
    for plugin in ["mysql_native_password", "caching_sha2_password", "mysql_clear_password", "other"] {
        for n in [0usize, 1, 19, 20, 21, 255] {
            let mut p = vec![0xFE];
            p.extend_from_slice(plugin.as_bytes());
            p.push(0);
            p.extend((0..n).map(|x| x as u8));
            alphabet.push(p);
        }
    }
    let key = cases::key().pem_pkcs8();
    for x in [&b"\x01"[..], b"\x01\x00", b"\x01\x02", b"\x01\x03", b"\x01\x04", b"\x01\x03\x03", b"\x01\x04\x04", b"\x01\x05", b"", b"\xFE", b"\xFF", b"\xFF\x01\x02", b"\xFF\x01\x02#28000no", b"\0\0\0\x02\0\0\0", b"\0", b"\xFB", b"\x02", b"\x01-----BEGIN PUBLIC KEY-----\nMA==\n-----END PUBLIC KEY-----\n"] {
        alphabet.push(x.to_vec());
    }
    alphabet.push([&[1][..], key.as_bytes()].concat());
    alphabet.push([&[1][..], cases::key().pem_pkcs1().as_bytes()].concat());
    let depth = run.by(3, 4);
    run.space(
        "login conversations",
        "every sequence of up to three (thorough: four) packets of an alphabet of 44 as answers to the client's packets, for every first \
         plugin, with and without encryption",
        |ch| {
            let secure = ch.flag();
            let plugin = *ch.pick(&[Plugin::Native, Plugin::Sha2]);
            let first = Cfg { plugin, ..Cfg::default() }.greeting();
            let n = 1 + ch.choose(depth);
            let answers = (0..n).map(|_| vec![ch.pick(&alphabet).clone()]).collect();
            scripted("login", first, answers, secure, &Work::Types(false), ch)
        },
    );
    run.space(
        "public keys",
        "every cut and every byte of a public key replaced by some values, in both formats",
        |ch| {
            let mut key = match ch.flag() {
                true => cases::key().pem_pkcs8(),
                false => cases::key().pem_pkcs1(),
            }
            .into_bytes();
            let at = ch.choose(key.len());
            match ch.choose(12) {
                0 => key.truncate(at),
                1 => _ = key.remove(at),
                2 => key.insert(at, b'A'),
                n => key[at] = [0, b'\n', b'A', b'/', b'=', b'-', 0x80, 0xFF, b'z'][n - 3],
            }
            let first = Cfg { plugin: Plugin::Sha2, ..Cfg::default() }.greeting();
            let answers = vec![vec![vec![1, 4]], vec![[&[1][..], &key].concat()], vec![vec![0, 0, 0, 2, 0, 0, 0]]];
            scripted("key", first, answers, false, &Work::Types(false), ch)
        },
    );
    let parts: [&[u8]; 12] = [&[], &[0], &[1], &[3], &[0x7F; 2], &[0xFF; 8], &[0; 64], &[0xFF; 64], &[1; 65], &[0xFF; 256], &[1; 520], &[0, 0x80]];
    run.space("numbers of keys", "every pair of moduli and exponents out of a list, in both formats", |ch| {
        let n = num(*ch.pick(&parts));
        let e = num(*ch.pick(&parts));
        let text = match ch.flag() {
            true => rsa::pem("PUBLIC KEY", &rsa::pkcs8(&n, &e)),
            false => rsa::pem("RSA PUBLIC KEY", &rsa::pkcs1(&n, &e)),
        };
        let first = Cfg { plugin: Plugin::Sha2, ..Cfg::default() }.greeting();
        let answers = vec![vec![vec![1, 4]], vec![[&[1][..], text.as_bytes()].concat()], vec![vec![0, 0, 0, 2, 0, 0, 0]]];
        scripted("numbers", first, answers, false, &Work::Types(false), ch)
    });
}

fn num(x: &[u8]) -> num::BigUint {
    num::BigUint::from_bytes_be(x)
}

/// Every sequence of packets of an answer.
fn results(run: &mut Run) {
    let ok = |status: u16, head: u8| {
        let mut x = OkData::new(1, 2);
        x.status = status;
        x.encode(head)
    };
    let alphabet: Vec<Vec<u8>> = vec![
        ok(2, 0),
        ok(10, 0),
        ok(2, 0xFE),
        ok(10, 0xFE),
        vec![0xFE, 0, 0, 2, 0],
        vec![0xFE, 0, 0, 10, 0],
        ErrData::new(1, "HY000", "no").encode(),
        vec![0xFF, 1],
        vec![],
        vec![0],
        vec![1],
        vec![2],
        vec![0xFB],
        vec![0xFD, 0xFF, 0xFF, 0xFF],
        vec![0xFE, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF],
        Col::new("c", ty::LONG, 0).encode(),
        Col::new("c", ty::VAR_STRING, 0).encode(),
        vec![1, b'7'],
        vec![0, 0, 7, 0, 0, 0],
        vec![0, 4],
        vec![0, 9, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0],
        vec![0, 9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
        vec![0, 9, 0, 0, 0, 0xFF, 0xFF, 0xFF, 0xFF, 0, 0, 0],
    ];
    let depth = run.by(4, 5);
    for (name, eof, what) in [
        ("answers to a query", false, Work::Types(false)),
        ("answers to a query, with EOF packets", true, Work::Types(false)),
        ("answers to a preparation", false, Work::Types(true)),
        ("answers to a preparation, with EOF packets", true, Work::Types(true)),
        ("answers to a query that is not read", false, Work::Items(|| vec![scen::query(0, 2, Read::Next(0)), scen::execute(1, 0)])),
    ] {
        let first = Cfg {
            caps: scen::caps(!eof),
            ..Cfg::default()
        }
        .greeting();
        let depth = if matches!(what, Work::Types(_)) { depth } else { depth - 1 };
        run.space(
            name,
            "every sequence of up to four (thorough: five) packets of an alphabet of 23 as the answer to the first command and the next ones",
            |ch| {
                let n = ch.choose(depth + 1);
                let mut list: Vec<Vec<u8>> = (0..n).map(|_| ch.pick(&alphabet).clone()).collect();
                let mut answers = vec![vec![ok(2, 0)]];
                if matches!(what, Work::Types(true)) {
                    // what is left belongs to the execution
                    let at = ch.choose(list.len() + 1);
                    let rest = list.split_off(at);
                    answers.push(list);
                    answers.push(rest);
                } else {
                    answers.push(list);
                }
                answers.extend((0..3).map(|_| vec![ok(2, 0)]));
                scripted(name, first.clone(), answers, false, &what, ch)
            },
        );
    }
}

/// Contents of values.
fn values(run: &mut Run) {
    let types = [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 242, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255];
    let special: [&[u8]; 10] = [b"0", b"9", b"-", b":", b".", b" ", b"e", "é".as_bytes(), b"\xFF", b"\0"];
    let forms: Vec<&[u8]> = vec![
        b"2024-02-29",
        b"0000-00-00",
        b"2024-02-29 23:59:59",
        b"2024-02-29 23:59:59.123456",
        b"0000-00-00 00:00:00.000000",
        b"-838:59:59.000001",
        b"838:59:59",
        b"00:00:00",
        b"1:2:3.4",
        b"18446744073709551615",
        b"-9223372036854775808",
        b"-1.5e-300",
        b"1.7976931348623157E308",
        b"4294967295:99:99.9999999",
        b"nan",
        b"0x1F",
    ];
    let value = |binary: bool, t: u8, flags: u16, content: Vec<u8>, ch: &mut Chooser| -> Result<(), String> {
        let name = format!("type {t}, flags {flags}, binary {binary}");
        let col = Col::new("c", t, flags).encode();
        let row = if binary { [&[0, 0][..], &content].concat() } else { content };
        let mut end = OkData::new(0, 0);
        end.status = 2;
        let result = vec![vec![1], col, row, end.encode(0xFE)];
        let mut answers = vec![vec![vec![0, 0, 0, 2, 0, 0, 0]]];
        if binary {
            answers.push(vec![vec![0, 9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]]);
        }
        answers.push(result);
        let first = Cfg {
            caps: scen::caps(true),
            ..Cfg::default()
        }
        .greeting();
        scripted(&name, first, answers, false, &Work::Values(binary), ch)
    };
    let lenenc = |x: &[u8]| {
        let mut out = Vec::new();
        mc::wire::put_lenenc(&mut out, x.len() as u64);
        out.extend_from_slice(x);
        out
    };
    let quick = run.quick();
    run.each(
        "short texts",
        "columns of every type x every text of up to three characters out of ten",
        types.len(),
        |i, ch| {
            let n = ch.choose(if quick { 4 } else { 5 });
            let text: Vec<u8> = (0..n).flat_map(|_| ch.pick(&special).to_vec()).collect();
            value(false, types[i], 0, lenenc(&text), ch)
        },
    );
    run.each(
        "changed texts",
        "columns of every type x texts of every form, cut everywhere, or with a character (thorough: two) removed, inserted or replaced",
        types.len(),
        |i, ch| {
            let mut text = ch.pick(&forms).to_vec();
            let changes = if quick { 1 } else { 2 };
            for k in 0..changes {
                // fewer characters for the second change
                let special = if k == 0 { &special[..] } else { &special[1..3] };
                let at = ch.choose(text.len() + 1);
                match ch.choose(2 + 2 * special.len()) {
                    0 => text.truncate(at),
                    1 if at < text.len() => _ = text.remove(at),
                    1 => break,
                    n if n < 2 + special.len() => _ = text.splice(at..at, special[n - 2].iter().copied()),
                    n if at < text.len() => _ = text.splice(at..at + 1, special[n - 2 - special.len()].iter().copied()),
                    _ => break,
                }
            }
            value(false, types[i], if ch.flag() { UNSIGNED } else { 0 }, lenenc(&text), ch)
        },
    );
    let datetime: [u8; 12] = [11, 0xE8, 7, 2, 29, 23, 59, 59, 0x3F, 0x42, 0x0F, 0];
    let time: [u8; 13] = [12, 1, 34, 0, 0, 0, 22, 59, 59, 0x3F, 0x42, 0x0F, 0];
    run.each(
        "binary values",
        "columns of every type x every length of up to 14 bytes with several contents, and temporal values of every length with every \
         byte replaced by every value",
        types.len(),
        |i, ch| {
            let flags = if ch.flag() { UNSIGNED } else { 0 };
            let content = match ch.choose(3) {
                0 => {
                    let n = ch.choose(15);
                    let len = *ch.pick(&[0u8, 1, 2, 4, 7, 8, 11, 12, 13, 0x80, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF]);
                    let byte = *ch.pick(&[0u8, 1, 0x7F, 0x80, 0xFF]);
                    [&[len][..], &vec![byte; n]].concat()
                }
                n => {
                    let (form, lens): (&[u8], &[u8]) = match n {
                        1 => (&datetime, &[0, 4, 7, 11]),
                        _ => (&time, &[0, 8, 12]),
                    };
                    let len = *ch.pick(lens);
                    let mut x = form[..len as usize + 1].to_vec();
                    x[0] = len;
                    let at = ch.choose(x.len());
                    x[at] = ch.choose(256) as u8;
                    if !quick {
                        let at = ch.choose(x.len());
                        x[at] = *ch.pick(&[0, 0x80, 0xFF]);
                    }
                    x
                }
            };
            value(true, types[i], flags, content, ch)
        },
    );
}

/// A peer that sends slowly.
fn slow(run: &mut Run, kinds: &[Kind]) {
    let delays = [1u64, 10, 100, 500, 999, 1000, 1001, 1900, 2400, 2499, 2500, 2501, 2600, 3300, 3400, 4900, 5100, 9900, 9999, 10000, 10001, 20000];
    run.each(
        "slow packets",
        "every session with the bytes coming one, two, three, five or 50 at a time with every delay of a list in between",
        kinds.len(),
        |i, ch| {
            let kind = &kinds[i];
            let plan = Plan {
                delay_read: *ch.pick(&delays),
                read_chunk: *ch.pick(&[1, 2, 3, 5, 50]),
                ..Plan::default()
            };
            let text = format!("{}: {} bytes every {} ms", kind.name, plan.read_chunk, plan.delay_read);
            ch.note(|| text.clone());
            let seen = session(kind, Vec::new(), plan).map_err(|e| format!("{text}: {e}"))?;
            judge(kind.name, &text, &seen, false, ch)
        },
    );
}

/// Two packets are not what they should be.
fn twice(run: &mut Run, kinds: &[Kind]) {
    let quick = run.quick();
    for kind in kinds.iter().take(if quick { 2 } else { 10 }) {
        let base = session(kind, Vec::new(), Plan::default()).expect("a session");
        let few: Vec<Vec<u8>> = dictionary().into_iter().step_by(if quick { 4 } else { 2 }).collect();
        let change = |p: &[u8], ch: &mut Chooser| {
            let n = ch.choose(3 * few.len() + 4);
            let x = few[n / 3 % few.len()].clone();
            match n {
                n if n >= 3 * few.len() => match n - 3 * few.len() {
                    0 => Change::Drop,
                    1 => Change::Twice,
                    2 => Change::Cut(p.len() / 2),
                    _ => Change::Cut(p.len().saturating_sub(1)),
                },
                n if n % 3 == 0 => Change::Replace(x),
                n if n % 3 == 1 => Change::Before(x),
                _ => Change::Append(x),
            }
        };
        run.each(
            &format!("two changes: {}", kind.name),
            "every pair of packets, each replaced by, preceded by or extended by a packet of the dictionary, lost, twice or cut",
            base.packets.len(),
            |i, ch| {
                let second = i + 1 + ch.choose(base.packets.len().saturating_sub(i + 1).min(if quick { 3 } else { 2 }).max(1));
                let mut list = vec![(i, change(&base.packets[i], ch))];
                if let Some(p) = base.packets.get(second) {
                    list.push((second, change(p, ch)));
                }
                check(kind, list, ch)
            },
        );
    }
}

fn main() {
    mc::main(
        "C25",
        Level {
            level: "exploration",
            rule: "every change of a bounded set of changes of every packet of every session, against the real client: no panic, no \
                   endless loop, no operation that waits for more than two timeouts, no memory out of proportion",
            assumptions: &["changes of one packet, or of two from a smaller set, of the sessions listed"],
        },
        |run| {
            let kinds = kinds();
            let few = [0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 0x20, 0x7F, 0x80, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF];
            let all: Vec<u8> = (0..=255).collect();
            let quick = run.quick();
            let bytes: &[u8] = if quick { &few } else { &all };
            let xor = [0x80, 0x20, 0x01];
            for kind in &kinds {
                let base = session(kind, Vec::new(), Plan::default()).expect("a session");
                if std::env::var("SHOW").is_ok() {
                    eprintln!("{}: connected {} failed {} ended {} packets {} received {} peak {}", kind.name, base.connected, base.watch.failed, base.watch.ended, base.packets.len(), base.received, base.peak);
                }
                let list: Vec<(usize, Change)> = base
                    .packets
                    .iter()
                    .enumerate()
                    .flat_map(|(i, p)| changes(p, bytes, &xor).into_iter().map(move |c| (i, c)))
                    .collect();
                run.each(
                    kind.name,
                    "every packet: every cut, every byte replaced by every value, every byte replaced by every hostile length, every \
                     length in the header, every packet of a dictionary before, instead of and after it, lost, twice",
                    list.len(),
                    |i, ch| check(kind, vec![list[i].clone()], ch),
                );
            }
            logins(run);
            results(run);
            values(run);
            slow(run, &kinds);
            twice(run, &kinds);
        },
    )
}

//! Migrators on a reference database, with faults.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    future::Future,
    io,
    pin::Pin,
    sync::{
        atomic::{AtomicUsize, Ordering::SeqCst},
        Arc, Mutex,
    },
};

use mysql_connector::{
    error::{ProtocolError, RuntimeError},
    pool::{AsyncPool, AsyncPoolTrait},
    Connection, Error, Migration, MigrationList, Migrator, Version,
};

use crate::{
    drive::{self, Session},
    mock::{MockOptions, Plan},
    server::{Cfg, Cmd, Server},
    sql::{self, Db, SharedDb, Table},
    wire::{self, ty, Cell, Col, End, ErrData, Reply, UNSIGNED},
};

pub type Pool = AsyncPool<Connection, crate::mock::Mock<false>, 1>;
/// Version and name
pub type Key = ((u16, u16, u16), &'static str);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Step {
    Up(usize),
    Down(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum When {
    Before,
    After,
}

/// How a step fails.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    Io,
    /// a statement of the step is refused by the server
    Server(u16),
    Timeout,
    Runtime,
}

/// What any statement can be refused with.
pub const CODES: [u16; 12] = [1028, 1040, 1053, 1114, 1142, 1205, 1213, 1290, 1317, 1836, 1927, 3024];
/// What else a statement of a step may be refused with.
pub const STEP_CODES: [u16; 24] = [
    1004, 1005, 1006, 1007, 1008, 1017, 1044, 1046, 1049, 1050, 1051, 1054, 1060, 1061, 1062, 1064, 1068, 1091, 1146, 1176, 1216,
    1217, 1360, 1826,
];

fn refusal(code: u16) -> ErrData {
    let state = match code {
        1040 => "08004",
        1050 => "42S01",
        1051 | 1146 => "42S02",
        1060 => "42S21",
        1062 => "23000",
        1213 => "40001",
        1317 => "70100",
        1044 | 1046 | 1049 | 1054 | 1061 | 1064 | 1068 | 1091 | 1142 | 1176 => "42000",
        _ => "HY000",
    };
    sql::err(code, state, "refused")
}

#[derive(Default)]
struct Steps {
    /// that began
    log: Vec<Step>,
    /// whose up step ended well at least once
    done: BTreeSet<usize>,
    fail: Option<(usize, When, Why)>,
    failed: usize,
}

thread_local! {
    static STEPS: RefCell<Steps> = RefCell::default();
    static LISTS: RefCell<BTreeMap<Vec<Key>, &'static List>> = const { RefCell::new(BTreeMap::new()) };
}

struct Mig {
    id: usize,
    name: &'static str,
}

impl Mig {
    async fn step(&self, pool: &dyn AsyncPoolTrait<Connection>, step: Step) -> Result<(), Error> {
        let fail = STEPS.with(|s| {
            let mut s = s.borrow_mut();
            s.log.push(step);
            let n = s.log.len() - 1;
            s.fail.filter(|x| x.0 == n)
        });
        let when = fail.map(|x| x.1);
        let error = || async {
            STEPS.with(|s| s.borrow_mut().failed += 1);
            match fail.unwrap().2 {
                Why::Io => Error::io_invalid_data(io::Error::from(io::ErrorKind::Other)),
                Why::Timeout => Error::Protocol(ProtocolError::Io(io::ErrorKind::TimedOut.into())),
                Why::Runtime => Error::Runtime(RuntimeError::ParameterCountMismatch),
                Why::Server(code) => match pool.get().await {
                    Ok(mut conn) => conn.execute_query(&format!("{REFUSED}{code}")).await.expect_err("refused"),
                    Err(e) => e,
                },
            }
        };
        if when == Some(When::Before) {
            return Err(error().await);
        }
        let sql = match step {
            Step::Up(i) => format!("replace into `steps` (`id`) values ({i})"),
            Step::Down(i) => format!("delete from `steps` where `id` = {i}"),
        };
        pool.get().await?.execute_query(&sql).await?;
        if when == Some(When::After) {
            return Err(error().await);
        }
        if let Step::Up(i) = step {
            STEPS.with(|s| s.borrow_mut().done.insert(i));
        }
        Ok(())
    }
}

impl Migration for Mig {
    fn name(&self) -> &'static str {
        self.name
    }
    fn up<'a>(
        &'a self,
        pool: &'a dyn AsyncPoolTrait<Connection>,
    ) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> {
        Box::pin(self.step(pool, Step::Up(self.id)))
    }
    fn down<'a>(
        &'a self,
        pool: &'a dyn AsyncPoolTrait<Connection>,
    ) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> {
        Box::pin(self.step(pool, Step::Down(self.id)))
    }
}

/// Migrations in order.
pub struct List {
    pub keys: Vec<Key>,
    pub lists: &'static [MigrationList],
    /// all versions, with or without migrations
    pub versions: Vec<(u16, u16, u16)>,
}

/// `empty`: versions without migrations
pub fn list(keys: &[Key], empty: &[(u16, u16, u16)]) -> &'static List {
    let mut id: Vec<Key> = keys.to_vec();
    id.extend(empty.iter().map(|v| (*v, "\0")));
    if let Some(x) = LISTS.with(|l| l.borrow().get(&id).copied()) {
        return x;
    }
    let mut versions: Vec<_> = id.iter().map(|x| x.0).collect();
    versions.sort();
    versions.dedup();
    let lists: Vec<MigrationList> = versions
        .iter()
        .map(|v| {
            let all: Vec<&'static dyn Migration> = keys
                .iter()
                .enumerate()
                .filter(|x| x.1 .0 == *v)
                .map(|(id, x)| &*Box::leak(Box::new(Mig { id, name: x.1 })) as &'static dyn Migration)
                .collect();
            MigrationList {
                version: Version(v.0, v.1, v.2),
                migrations: Vec::leak(all),
            }
        })
        .collect();
    let list: &'static List = Box::leak(Box::new(List {
        keys: keys.to_vec(),
        lists: Vec::leak(lists),
        versions,
    }));
    LISTS.with(|l| l.borrow_mut().insert(id, list));
    list
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Up,
    UpTo((u16, u16, u16)),
    DownTo((u16, u16, u16)),
    To((u16, u16, u16)),
    OneDown,
    /// another migrator takes over
    New,
}

/// What a call does to a set of applied migrations.
pub fn model(list: &List, applied: &mut BTreeSet<usize>, call: Call) -> (Vec<Step>, bool) {
    let mut steps = Vec::new();
    let n = list.keys.len();
    let up = |applied: &mut BTreeSet<usize>, max: Option<(u16, u16, u16)>, steps: &mut Vec<Step>| {
        for i in 0..n {
            if max.is_none_or(|v| list.keys[i].0 <= v) && applied.insert(i) {
                steps.push(Step::Up(i));
            }
        }
    };
    let down = |applied: &mut BTreeSet<usize>, v: (u16, u16, u16), steps: &mut Vec<Step>| {
        for i in (0..n).rev() {
            if list.keys[i].0 > v && applied.remove(&i) {
                steps.push(Step::Down(i));
            }
        }
    };
    let mut any = true;
    match call {
        Call::Up => up(applied, None, &mut steps),
        Call::UpTo(v) => up(applied, Some(v), &mut steps),
        Call::DownTo(v) => down(applied, v, &mut steps),
        Call::To(v) => {
            up(applied, Some(v), &mut steps);
            down(applied, v, &mut steps);
        }
        Call::OneDown => match applied.pop_last() {
            Some(i) => steps.push(Step::Down(i)),
            None => any = false,
        },
        Call::New => (),
    }
    (steps, any)
}

pub async fn make(m: &mut Migrator<'_>, call: Call) -> Result<bool, Error> {
    let v = |x: (u16, u16, u16)| Version(x.0, x.1, x.2);
    match call {
        Call::Up => m.up().await.map(|_| true),
        Call::UpTo(x) => m.up_to_version(Some(v(x))).await.map(|_| true),
        Call::DownTo(x) => m.down_to_version(v(x)).await.map(|_| true),
        Call::To(x) => m.to_version(v(x)).await.map(|_| true),
        Call::OneDown => m.one_down().await,
        Call::New => Ok(true),
    }
}

/// What happens to a statement.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// an error instead of executing it
    Error(u16),
    LostBefore,
    LostAfter,
    /// it is executed, but there is no answer
    Silence,
    /// an error or the end of the connection after this many rows of its result
    ErrorWithin(usize),
    LostWithin(usize),
}

pub const FAULTS: [Fault; 4] = [Fault::Error(1205), Fault::LostBefore, Fault::LostAfter, Fault::Silence];

/// Statements that are refused with the error given.
const REFUSED: &str = "refuse ";

pub struct World {
    pub db: SharedDb,
    sessions: Mutex<Vec<Session>>,
    /// of all connections
    statements: AtomicUsize,
    fault: Mutex<Option<(usize, Fault)>>,
    refuse: Mutex<Option<usize>>,
    connects: AtomicUsize,
    happened: AtomicUsize,
    plan: Mutex<Plan>,
    violations: Mutex<Vec<String>>,
    keys: Vec<Key>,
    initial: BTreeSet<usize>,
}

fn recorded(db: &Db, keys: &[Key]) -> Result<BTreeSet<usize>, String> {
    let mut out = BTreeSet::new();
    let Some(t) = db.table("migrations") else {
        return Ok(out);
    };
    let at = |x: &str| t.index(x).ok_or_else(|| format!("no column {x} in `migrations`"));
    let (a, b, c, n) = (at("version_0")?, at("version_1")?, at("version_2")?, at("name")?);
    for row in &t.rows {
        let num = |x: &Cell| match x {
            Cell::Int(x) => Some(*x as u16),
            Cell::Bytes(x) => std::str::from_utf8(x).ok()?.parse().ok(),
            _ => None,
        };
        let found = keys.iter().position(|k| {
            num(&row[a]) == Some(k.0 .0)
                && num(&row[b]) == Some(k.0 .1)
                && num(&row[c]) == Some(k.0 .2)
                && row[n] == Cell::from(k.1)
        });
        match found {
            Some(i) => {
                if !out.insert(i) {
                    return Err(format!("{:?} is recorded twice", keys[i]));
                }
            }
            None => return Err(format!("{row:?} is recorded")),
        }
    }
    Ok(out)
}

impl World {
    /// `table`: whether the table of migrations exists (it does if there are initial ones).
    pub fn new(list: &List, initial: &BTreeSet<usize>, table: bool, reversed: bool) -> Arc<Self> {
        STEPS.with(|s| *s.borrow_mut() = Steps::default());
        let mut db = Db::new();
        let mut steps = Table::new("steps", vec![Col::of("steps", "id", ty::LONG, UNSIGNED)]);
        steps.unique.push(vec![0]);
        steps.rows.extend(initial.iter().map(|i| vec![Cell::Int(*i as i128)]));
        db.tables.push(steps);
        if table || !initial.is_empty() {
            let cols = ["version_0", "version_1", "version_2"]
                .iter()
                .map(|x| Col::of("migrations", x, ty::SHORT, UNSIGNED))
                .chain([
                    Col::of("migrations", "name", ty::VAR_STRING, 0),
                    Col::of("migrations", "applied_at", ty::DATETIME, 0),
                ])
                .collect();
            let mut t = Table::new("migrations", cols);
            t.unique.push(vec![0, 1, 2, 3]);
            for i in initial {
                let ((a, b, c), name) = list.keys[*i];
                t.rows.push(vec![
                    Cell::Int(a as i128),
                    Cell::Int(b as i128),
                    Cell::Int(c as i128),
                    Cell::from(name),
                    sql::default(),
                ]);
            }
            if reversed {
                t.rows.reverse();
            }
            db.tables.push(t);
        }
        Arc::new(Self {
            db: Arc::new(Mutex::new(db)),
            sessions: Mutex::default(),
            statements: AtomicUsize::new(0),
            fault: Mutex::default(),
            refuse: Mutex::default(),
            connects: AtomicUsize::new(0),
            happened: AtomicUsize::new(0),
            plan: Mutex::default(),
            violations: Mutex::default(),
            keys: list.keys.clone(),
            initial: initial.clone(),
        })
    }

    pub fn pool(self: &Arc<Self>) -> Pool {
        let w = self.clone();
        let connector = MockOptions(Some(Arc::new(move || {
            let i = w.connects.fetch_add(1, SeqCst);
            if *w.refuse.lock().unwrap() == Some(i) {
                w.happened.fetch_add(1, SeqCst);
                return Err(io::ErrorKind::ConnectionRefused.into());
            }
            let mut session = sql::Session::new(&w.db);
            let world = Arc::downgrade(&w);
            let handler = move |cmd: &Cmd| {
                // the world outlives the pool's connections except while both are dropped
                let Some(world) = world.upgrade() else {
                    return session.answer(cmd);
                };
                if !matches!(cmd, Cmd::Query(_) | Cmd::Execute { .. }) {
                    return session.answer(cmd);
                }
                if let Cmd::Query(x) = cmd {
                    if let Some(code) = std::str::from_utf8(x).ok().and_then(|x| x.strip_prefix(REFUSED)) {
                        return vec![Reply::Err(refusal(code.parse().unwrap()))];
                    }
                }
                let n = world.statements.fetch_add(1, SeqCst);
                let fault = world.fault.lock().unwrap().filter(|x| x.0 == n).map(|x| x.1);
                if fault.is_some() {
                    world.happened.fetch_add(1, SeqCst);
                }
                match fault {
                    Some(Fault::Error(code)) => return vec![Reply::Err(refusal(code))],
                    Some(Fault::LostBefore) => return vec![Reply::Close],
                    _ => (),
                }
                let res = session.answer(cmd);
                world.look();
                match fault {
                    Some(Fault::LostAfter) => vec![Reply::Close],
                    Some(Fault::Silence) => vec![Reply::Silence],
                    Some(Fault::ErrorWithin(n) | Fault::LostWithin(n)) => {
                        let mut res = res;
                        let Some(Reply::Rows { rows, end, .. }) = res.first_mut() else {
                            return vec![Reply::Close];
                        };
                        rows.truncate(n);
                        *end = End::Err(refusal(1317));
                        if let Some(Fault::LostWithin(_)) = fault {
                            let mut packets = wire::render(&res, false, Cfg::default().caps);
                            packets.pop();
                            return vec![Reply::Packets(packets), Reply::Close];
                        }
                        res
                    }
                    _ => res,
                }
            };
            let s = Session::of(Server::new(Cfg::default(), Box::new(handler)), w.plan.lock().unwrap().clone());
            let pipe = s.pipe.clone();
            w.sessions.lock().unwrap().push(s);
            Ok(pipe)
        })));
        AsyncPool::new(Arc::new(drive::options_for::<false>(connector)))
    }

    /// After every statement.
    fn look(&self) {
        let db = self.db.lock().unwrap();
        let res = recorded(&db, &self.keys).and_then(|all| {
            STEPS.with(|s| {
                let s = s.borrow();
                match all.iter().find(|x| !self.initial.contains(x) && !s.done.contains(x)) {
                    Some(i) => Err(format!("{:?} is recorded although its up step did not end", self.keys[*i])),
                    None => Ok(()),
                }
            })
        });
        if let Err(e) = res {
            self.violations.lock().unwrap().push(e);
        }
    }

    pub fn set_fault(&self, at: usize, fault: Fault) {
        *self.fault.lock().unwrap() = Some((at, fault));
    }

    pub fn set_refuse(&self, at: usize) {
        *self.refuse.lock().unwrap() = Some(at);
    }

    pub fn set_step(&self, at: usize, when: When, why: Why) {
        STEPS.with(|s| s.borrow_mut().fail = Some((at, when, why)));
    }

    /// Everything is pending once.
    pub fn slow(&self) {
        let plan = Plan {
            pend_read: true,
            pend_write: true,
            pend_flush: true,
            ..Plan::default()
        };
        for s in self.sessions.lock().unwrap().iter() {
            s.pipe.lock().unwrap().set_plan(plan.clone());
        }
        *self.plan.lock().unwrap() = plan;
    }

    /// No more faults.
    pub fn recover(&self) {
        *self.fault.lock().unwrap() = None;
        *self.refuse.lock().unwrap() = None;
        *self.plan.lock().unwrap() = Plan::default();
        STEPS.with(|s| s.borrow_mut().fail = None);
        for s in self.sessions.lock().unwrap().iter() {
            s.pipe.lock().unwrap().set_plan(Plan::default());
        }
    }

    pub fn connects(&self) -> usize {
        self.connects.load(SeqCst)
    }

    /// A record that something else left.
    pub fn insert(&self, at: usize, v: (u16, u16, u16), name: &str) {
        let mut db = self.db.lock().unwrap();
        let t = db.tables.iter_mut().find(|x| x.name == "migrations").expect("the table");
        t.rows.insert(
            at,
            vec![
                Cell::Int(v.0 as i128),
                Cell::Int(v.1 as i128),
                Cell::Int(v.2 as i128),
                Cell::from(name),
                sql::default(),
            ],
        );
    }

    /// All records as they are.
    pub fn rows(&self) -> String {
        format!("{:?}", self.db.lock().unwrap().table("migrations").map(|t| t.rows.clone()))
    }

    /// How many faults happened.
    pub fn happened(&self) -> usize {
        self.happened.load(SeqCst) + STEPS.with(|s| s.borrow().failed)
    }

    pub fn statements(&self) -> usize {
        self.statements.load(SeqCst)
    }

    /// The steps since the last call.
    pub fn steps(&self) -> Vec<Step> {
        STEPS.with(|s| std::mem::take(&mut s.borrow_mut().log))
    }

    pub fn recorded(&self) -> Result<BTreeSet<usize>, String> {
        recorded(&self.db.lock().unwrap(), &self.keys)
    }

    /// What the steps did.
    pub fn effects(&self) -> BTreeSet<usize> {
        let db = self.db.lock().unwrap();
        db.table("steps")
            .unwrap()
            .rows
            .iter()
            .map(|r| match &r[0] {
                Cell::Int(x) => *x as usize,
                Cell::Bytes(x) => String::from_utf8_lossy(x).parse().unwrap(),
                x => panic!("{x:?}"),
            })
            .collect()
    }

    pub fn check(&self) -> Result<(), String> {
        if let Some(x) = self.violations.lock().unwrap().first() {
            return Err(x.clone());
        }
        for s in self.sessions.lock().unwrap().iter() {
            s.server_errors()?;
        }
        Ok(())
    }

    pub fn log(&self) -> String {
        self.db.lock().unwrap().statements.join("\n")
    }
}

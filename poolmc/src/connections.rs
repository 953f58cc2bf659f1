//! Connections that go through a pool after something went wrong with them.
use std::{
    sync::{
        atomic::{AtomicUsize, Ordering::SeqCst},
        Arc, Mutex,
    },
};

use mc::{
    drive::{self, Obs, Read, Session},
    mock::{Act, MockOptions, Plan},
    rt,
    scen::{self, Item},
    server::{Cfg, Server},
    Chooser,
};
use mysql_connector::{
    pool::{AsyncPool, AsyncPoolTrait},
    Connection,
};

type Stream = mc::mock::Mock<false>;

/// Servers for all connections of a pool.
struct World {
    sessions: Mutex<Vec<Session>>,
    items: Vec<Item>,
    /// the transport of the first connection, and of the second
    plans: Mutex<Vec<Plan>>,
    connects: AtomicUsize,
    refuse: usize,
    caps: u32,
}

impl World {
    fn new(items: Vec<Item>, plans: Vec<Plan>, refuse: usize, deprecate_eof: bool) -> Arc<Self> {
        Arc::new(Self {
            sessions: Mutex::default(),
            items,
            plans: Mutex::new(plans),
            connects: AtomicUsize::new(0),
            refuse,
            caps: scen::caps(deprecate_eof),
        })
    }

    fn connector(self: &Arc<Self>) -> MockOptions {
        let w = self.clone();
        MockOptions(Some(Arc::new(move || {
            let i = w.connects.fetch_add(1, SeqCst);
            if i < w.refuse {
                return Err(std::io::ErrorKind::ConnectionRefused.into());
            }
            let plan = {
                let mut p = w.plans.lock().unwrap();
                match p.is_empty() {
                    true => Plan::default(),
                    false => p.remove(0),
                }
            };
            let cfg = Cfg {
                caps: w.caps,
                ..Cfg::default()
            };
            let s = Session::of(Server::new(cfg, scen::handler(&w.items)), plan);
            let pipe = s.pipe.clone();
            w.sessions.lock().unwrap().push(s);
            Ok(pipe)
        })))
    }

    /// From now on all transports work.
    fn recover(&self) {
        for s in self.sessions.lock().unwrap().iter() {
            s.pipe.lock().unwrap().set_plan(Plan::default());
        }
    }

    fn errors(&self) -> Result<(), String> {
        for s in self.sessions.lock().unwrap().iter() {
            s.server_errors()?;
        }
        Ok(())
    }
}

fn items() -> Vec<Item> {
    vec![
        scen::query(0, 2, Read::All),
        scen::query(0, 3, Read::Next(1)),
        scen::query(0, 8, Read::All),
        scen::query(0, 11, Read::Next(1)),
        scen::query(0, 11, Read::One),
        scen::query(0, 4, Read::Finish),
        scen::query(0, 1, Read::Next(0)),
        scen::execute(0, 0),
        scen::execute(0, 2),
        scen::execute(0, 6),
        scen::prepare(0, 2, 1, &[(2, Some(Read::All)), (0, None)]),
        scen::prepare(0, 1, 1, &[(11, Some(Read::Next(1)))]),
        scen::prepare_fails(0),
    ]
}

#[derive(Clone, Debug)]
enum Fault {
    None,
    Read(usize, Act),
    Write(usize, Act),
    Flush(usize, Act),
    /// the future of the operation is dropped after so many polls
    Cancel(usize),
}

impl Fault {
    fn plan(&self) -> Plan {
        let mut p = Plan::default();
        match *self {
            Fault::Read(at, a) => p.read.push((at, a)),
            Fault::Write(at, a) => p.write.push((at, a)),
            Fault::Flush(at, a) => p.flush.push((at, a)),
            Fault::Cancel(_) => {
                p.read_chunk = 3;
                p.write_chunk = 3;
                p.pend_read = true;
                p.pend_write = true;
                p.pend_flush = true;
            }
            Fault::None => (),
        }
        p
    }
}

#[derive(Clone, Debug, Default)]
struct Sizes {
    /// after the handshake, and in the end
    s2c: (usize, usize),
    c2s: (usize, usize),
    flushes: (usize, usize),
    polls: usize,
    connect_polls: usize,
}

async fn probe(conn: &mut Connection) -> Vec<Obs> {
    let mut out = Vec::new();
    drive::run_op(conn, &scen::probe().op, &mut out).await;
    out
}

fn measure(item: &Item, slow: bool, deprecate_eof: bool) -> Sizes {
    let mut s = Sizes::default();
    let plan = match slow {
        true => Fault::Cancel(0).plan(),
        false => Plan::default(),
    };
    let w = World::new(vec![item.clone(), scen::probe()], vec![plan], 0, deprecate_eof);
    let pool = AsyncPool::<Connection, Stream, 1>::new(Arc::new(drive::options_for::<false>(w.connector())));
    let _ = rt::run(async {
        let (conn, n) = rt::count_polls(pool.get()).await;
        s.connect_polls = n;
        let mut conn = conn.expect("connect");
        {
            let list = w.sessions.lock().unwrap();
            let p = list[0].pipe.lock().unwrap();
            s.s2c.0 = p.s2c.len();
            s.c2s.0 = p.c2s.len();
            s.flushes.0 = p.flushes;
        }
        let mut out = Vec::new();
        let ((), n) = rt::count_polls(drive::run_op(&mut conn, &item.op, &mut out)).await;
        s.polls = n;
        let list = w.sessions.lock().unwrap();
        let p = list[0].pipe.lock().unwrap();
        s.s2c.1 = p.s2c.len();
        s.c2s.1 = p.c2s.len();
        s.flushes.1 = p.flushes;
    });
    s
}

/// An operation with a fault on a connection of the pool, then others get connections of the pool.
fn exchange<const N: usize>(item: &Item, fault: &Fault, deprecate_eof: bool, ideal: &[Obs], ch: &mut Chooser) -> Result<(), String> {
    let w = World::new(vec![item.clone(), scen::probe()], vec![fault.plan()], 0, deprecate_eof);
    let pool = AsyncPool::<Connection, Stream, N>::new(Arc::new(drive::options_for::<false>(w.connector())));
    let mut first = Vec::new();
    let res = rt::run(async {
        {
            let mut conn = pool.get().await.map_err(|e| format!("connect: {e:?}"))?;
            match fault {
                Fault::Cancel(n) => {
                    let _ = rt::polls(drive::run_op(&mut conn, &item.op, &mut first), *n).await;
                }
                _ => drive::run_op(&mut conn, &item.op, &mut first).await,
            }
        }
        w.recover();
        let mut all = Vec::new();
        for i in 0..N {
            match pool.get().await {
                Ok(x) => all.push(x),
                Err(e) => return Err(format!("connection {i} cannot be obtained: {e:?}")),
            }
        }
        for (i, conn) in all.iter_mut().enumerate() {
            let got = probe(conn).await;
            if got != ideal {
                return Err(format!("the next operation on connection {i} returned {got:?}"));
            }
        }
        Ok(())
    })
    .unwrap_or_else(|_| Err("hangs".to_owned()));
    res.and_then(|_| w.errors())
        .map_err(|e| format!("pool of {N}, {:?} with {fault:?} returned {first:?}: {e}", item.op))?;
    ch.outcome(&(first, w.connects.load(SeqCst)));
    Ok(())
}

/// Creations of connections fail or are cancelled.
fn create<const N: usize>(faults: &[Fault], refuse: usize, deprecate_eof: bool, ideal: &[Obs]) -> Result<(), String> {
    let w = World::new(vec![scen::probe()], faults.iter().map(|x| x.plan()).collect(), refuse, deprecate_eof);
    let pool = AsyncPool::<Connection, Stream, N>::new(Arc::new(drive::options_for::<false>(w.connector())));
    rt::run(async {
        for i in 0..refuse {
            if pool.get().await.is_ok() {
                return Err(format!("get {i} returned a connection although it was refused"));
            }
        }
        for (i, f) in faults.iter().enumerate() {
            match f {
                Fault::Cancel(n) => {
                    let _ = rt::polls(pool.get(), *n).await;
                }
                f => match pool.get().await {
                    Err(_) => (),
                    // the fault lies behind
                    Ok(mut c) => {
                        w.recover();
                        let got = probe(&mut c).await;
                        if got != ideal {
                            return Err(format!("get {i} with {f:?}: the connection returns {got:?}"));
                        }
                    }
                },
            }
            w.recover();
        }
        // those that were not used up
        w.plans.lock().unwrap().clear();
        let mut all = Vec::new();
        for i in 0..N {
            match pool.get().await {
                Ok(x) => all.push(x),
                Err(e) => return Err(format!("connection {i} cannot be obtained: {e:?}")),
            }
        }
        for (i, conn) in all.iter_mut().enumerate() {
            let got = probe(conn).await;
            if got != ideal {
                return Err(format!("operation on connection {i} returned {got:?}"));
            }
        }
        Ok(())
    })
    .unwrap_or_else(|_| Err("hangs".to_owned()))
    .and_then(|_| w.errors())
    .map_err(|e| format!("pool of {N}, creations with {refuse} refused, then {faults:?}: {e}"))
}

pub fn spaces(run: &mut mc::Run) {
    let items = items();
    let items = &items;
    let sizes: Vec<[[Sizes; 2]; 2]> = items
        .iter()
        .map(|x| [false, true].map(|d| [false, true].map(|slow| measure(x, slow, d))))
        .collect();
    let sizes = &sizes;
    let ideal = {
        let w = World::new(vec![scen::probe()], vec![], 0, true);
        let pool = AsyncPool::<Connection, Stream, 1>::new(Arc::new(drive::options_for::<false>(w.connector())));
        rt::run(async { probe(&mut pool.get().await.expect("connect")).await })
            .map_err(|_| "hangs")
            .unwrap()
    };
    let ideal = &ideal;
    let acts = [Act::Eof, Act::Fail, Act::Reset, Act::Stall];
    run.space(
        "connections after faults",
        "13 operations with one failure (end, error, lasting error, stall until the timeout) at every byte of either direction and every \
         flush, or dropped after every number of polls, then the connection goes back and all of the pool is used",
        |ch| {
            let i = ch.choose(items.len());
            let d = ch.flag();
            let s = &sizes[i][d as usize][0];
            let fault = match ch.choose(5) {
                0 => Fault::None,
                1 => Fault::Read(s.s2c.0 + ch.choose(s.s2c.1 - s.s2c.0 + 1), *ch.pick(&acts)),
                2 => Fault::Write(s.c2s.0 + ch.choose(s.c2s.1 - s.c2s.0 + 1), *ch.pick(&acts)),
                3 => Fault::Flush(s.flushes.0 + ch.choose(s.flushes.1 - s.flushes.0 + 1), *ch.pick(&acts)),
                _ => Fault::Cancel(1 + ch.choose(sizes[i][d as usize][1].polls)),
            };
            match ch.choose(2) {
                0 => exchange::<1>(&items[i], &fault, d, ideal, ch),
                _ => exchange::<2>(&items[i], &fault, d, ideal, ch),
            }
        },
    );
    run.space(
        "creations with faults",
        "one or two creations, each with a failure at every byte of the handshake (pairs: every 3rd and every 11th), dropped after every number of \
         polls or refused, then all of the pool is used",
        |ch| {
            let d = ch.flag();
            let refuse = ch.choose(3);
            let n = 1 + ch.choose(2);
            let s = &sizes[0][d as usize];
            let mut faults = Vec::new();
            for k in 0..n {
                let every = if n == 1 { 1 } else { [3, 11][k] };
                let kind = ch.choose(4);
                let max = [s[0].s2c.0, s[0].c2s.0, s[0].flushes.0, s[1].connect_polls][kind];
                let at = every * ch.choose(max / every + 1);
                faults.push(match kind {
                    0 => Fault::Read(at, *ch.pick(&acts)),
                    1 => Fault::Write(at, *ch.pick(&acts)),
                    2 => Fault::Flush(at, *ch.pick(&acts)),
                    _ => Fault::Cancel(at + 1),
                });
            }
            match ch.choose(2) {
                0 => create::<1>(&faults, refuse, d, ideal),
                _ => create::<2>(&faults, refuse, d, ideal),
            }
        },
    );
}

//! Histories of several threads on a synchronous pool.
use std::{cell::RefCell, rc::Rc};

use mc::Chooser;
use mysql_connector::pool::{PoolItem, SyncPool, SyncPoolContent, VecPoolCtx};

use crate::sched::{self, Bounds, Stop};

#[derive(Default)]
struct Ledger {
    held: Vec<Option<usize>>,
    dropped: Vec<usize>,
    violations: Vec<String>,
    log: Vec<String>,
}

type Shared = Rc<RefCell<Ledger>>;

/// Something that has to be reset.
struct Item {
    id: usize,
    left: Vec<u8>,
    ledger: Shared,
}

struct Ctx(Shared);

impl std::fmt::Debug for Ctx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Ctx")
    }
}

impl SyncPoolContent for Item {
    type Ctx = Ctx;

    fn new(ctx: &Ctx) -> Self {
        let mut l = ctx.0.borrow_mut();
        l.held.push(None);
        l.dropped.push(0);
        Item {
            id: l.held.len() - 1,
            left: Vec::new(),
            ledger: ctx.0.clone(),
        }
    }

    fn reset(&mut self, _: &Ctx) {
        // others run in the middle of it
        crossbeam::mc::point();
        self.left.clear();
        crossbeam::mc::point();
    }
}

impl Drop for Item {
    fn drop(&mut self) {
        if sched::killed() {
            return;
        }
        let mut l = self.ledger.borrow_mut();
        l.dropped[self.id] += 1;
        if l.dropped[self.id] > 1 || l.held[self.id].is_some() {
            let text = format!("item {} is dropped {} times, held by {:?}", self.id, l.dropped[self.id], l.held[self.id]);
            l.violations.push(text);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Use,
    Two,
}

fn got(ledger: &Shared, x: &mut Item) {
    let mut l = ledger.borrow_mut();
    let t = sched::current();
    let id = x.id;
    l.log.push(format!("thread {t} gets item {id}"));
    if let Some(o) = l.held[id] {
        l.violations.push(format!("thread {t} gets item {id}, which thread {o} holds"));
    }
    if l.dropped[id] > 0 {
        l.violations.push(format!("thread {t} gets item {id}, which was dropped"));
    }
    l.held[id] = Some(t);
    if !x.left.is_empty() {
        l.violations.push(format!("item {id} still contains {:?}", x.left));
    }
    x.left = vec![t as u8];
}

fn put(ledger: &Shared, x: &mut Item) {
    let mut l = ledger.borrow_mut();
    let t = sched::current();
    let id = x.id;
    l.log.push(format!("thread {t} returns item {id}"));
    if x.left != [t as u8] || l.held[id] != Some(t) {
        let text = format!("item {id} of thread {t} contains {:?}, it is held by {:?}", x.left, l.held[id]);
        l.violations.push(text);
    }
    l.held[id] = None;
}

fn threads<const N: usize>(programs: &[Vec<Op>], bounds: &Bounds, ch: &mut Chooser) -> Result<(), String> {
    let ledger: Shared = Default::default();
    let pool = Box::into_raw(Box::new(SyncPool::<Item, N>::new(Ctx(ledger.clone()))));
    // Safety: freed below, only after all threads ended
    let shared: &'static SyncPool<Item, N> = unsafe { &*pool };
    let list = programs
        .iter()
        .map(|p| {
            let p = p.clone();
            let ledger = ledger.clone();
            Box::new(move || {
                for op in p {
                    let mut x = shared.get();
                    got(&ledger, &mut x);
                    crossbeam::mc::point();
                    if op == Op::Two {
                        let mut y = shared.get();
                        got(&ledger, &mut y);
                        crossbeam::mc::point();
                        put(&ledger, &mut x);
                        drop(x);
                        x = y;
                    }
                    put(&ledger, &mut x);
                    drop(x);
                }
            }) as Box<dyn FnOnce()>
        })
        .collect();
    let mut trace = Vec::new();
    let stop = sched::run(list, bounds, ch, &mut trace);
    let report = |text: String| {
        Err(format!(
            "pool of {N}, threads {programs:?}: {text}\nschedule {trace:?}\n{}",
            ledger.borrow().log.join("\n")
        ))
    };
    let first = ledger.borrow().violations.first().cloned();
    if let Some(x) = first {
        return report(x);
    }
    match stop {
        Ok(()) => (),
        Err(Stop::Panic(i, text)) => return report(format!("thread {i} panics: {text}")),
        Err(Stop::Deadlock(l)) => return report(format!("threads {l:?} are blocked")),
        Err(Stop::Endless) => return report("no end".into()),
    }
    let idle = ledger.borrow().dropped.iter().filter(|x| **x == 0).count();
    if idle > N {
        return report(format!("{idle} items are kept in a pool of {N}"));
    }
    drop(unsafe { Box::from_raw(pool) });
    let lost = ledger.borrow().dropped.iter().position(|x| *x != 1);
    if let Some(i) = lost {
        return report(format!("item {i} was dropped {} times", ledger.borrow().dropped[i]));
    }
    let first = ledger.borrow().violations.first().cloned();
    if let Some(x) = first {
        return report(x);
    }
    ch.outcome(&ledger.borrow().log);
    Ok(())
}

/// Buffers, one thread.
fn buffers<const N: usize>(depth: usize, ch: &mut Chooser) -> Result<(), String> {
    let (cap, init) = *ch.pick(&[(8, 4), (8, 8), (8, 0), (0, 0), (100, 16)]);
    let pool = SyncPool::<Vec<u8>, N>::new(VecPoolCtx {
        size_cap: cap,
        init_size: init,
    });
    let mut held: Vec<(PoolItem<Vec<u8>>, Vec<u8>)> = Vec::new();
    let mut log = Vec::new();
    for i in 0..depth {
        let n = ch.choose(1 + held.len());
        if n == 0 {
            let mut x = pool.get();
            log.push("get".to_owned());
            if !x.is_empty() {
                return Err(format!("cap {cap}, init {init}, {log:?}: a buffer arrives with {:?}", &x[..]));
            }
            if x.capacity() > cap.max(init) {
                return Err(format!("cap {cap}, init {init}, {log:?}: a buffer arrives with capacity {}", x.capacity()));
            }
            let size = *ch.pick(&[0, 1, 7, 9, 200]);
            let data: Vec<u8> = (0..size).map(|k| (i * 31 + k) as u8).collect();
            x.extend_from_slice(&data);
            log.push(format!("fill {size}"));
            held.push((x, data));
        } else {
            let (x, data) = held.remove(n - 1);
            log.push(format!("put {}", n - 1));
            if x[..] != data[..] {
                return Err(format!("cap {cap}, init {init}, {log:?}: a buffer contains {:?} instead of {data:?}", &x[..]));
            }
            let bytes: &Vec<u8> = x.as_ref();
            if bytes != &data {
                return Err(format!("cap {cap}, init {init}, {log:?}: as_ref"));
            }
            drop(x);
        }
        // all of them are different memory
        for (a, (x, data)) in held.iter().enumerate() {
            if x[..] != data[..] {
                return Err(format!("cap {cap}, init {init}, {log:?}: buffer {a} contains {:?}", &x[..]));
            }
        }
    }
    Ok(())
}

/// What is left in a buffer is dropped, and only once.
fn contents<const N: usize>(depth: usize, ch: &mut Chooser) -> Result<(), String> {
    struct Live(Rc<()>);
    let live = Rc::new(());
    let mut log = Vec::new();
    {
        let pool = SyncPool::<Vec<Live>, N>::new(VecPoolCtx {
            size_cap: 2,
            init_size: 1,
        });
        let mut held: Vec<PoolItem<Vec<Live>>> = Vec::new();
        for _ in 0..depth {
            let n = ch.choose(1 + held.len());
            if n == 0 {
                let mut x = pool.get();
                let size = ch.choose(4);
                if !x.is_empty() {
                    return Err(format!("{log:?}: a vector arrives with {} elements", x.len()));
                }
                x.extend((0..size).map(|_| Live(live.clone())));
                log.push(format!("get and fill {size}"));
                held.push(x);
            } else {
                log.push(format!("put {}", n - 1));
                held.remove(n - 1);
            }
            let want: usize = held.iter().map(|x| x.len()).sum();
            if Rc::strong_count(&live) - 1 != want {
                return Err(format!("{log:?}: {} elements live instead of {want}", Rc::strong_count(&live) - 1));
            }
            held.iter().flat_map(|x| x.iter()).for_each(|x| assert!(Rc::ptr_eq(&x.0, &live)));
        }
    }
    match Rc::strong_count(&live) {
        1 => Ok(()),
        n => Err(format!("{log:?}: {} elements are never dropped", n - 1)),
    }
}

/// Many buffers of any size at once.
fn many<const N: usize, T: Clone + PartialEq + 'static>(fill: &T, quick: bool, ch: &mut Chooser) -> Result<(), String> {
    let (cap, init) = *ch.pick(&[(0, 0), (1, 1), (63, 64), (64, 64), (1024, 16), (1024, 1024), (4096, 1024), (65536, 1024), (4 << 20, 1024)]);
    let sizes = [0, 1, init, init + 1, cap / 2, cap.max(1) - 1, cap, cap + 1, 2 * cap, 2 * cap + 1];
    let big = cap > 5000;
    let count = *ch.pick(&[1, 2, N, N + 1, 2 * N + 1]);
    let bytes = cap * count * std::mem::size_of::<T>();
    if bytes > if quick { 1 << 18 } else { 1 << 22 } && (count > 2 || N > 2 || std::mem::size_of::<T>() > 1) {
        ch.trivial();
        return Ok(());
    }
    let shift = ch.choose(sizes.len());
    let reversed = ch.flag();
    let what = format!(
        "pool of {N} buffers (elements of {} bytes, cap {cap}, initially {init}), {count} at once, filled with {} and so on, {}",
        std::mem::size_of::<T>(),
        sizes[shift],
        if reversed { "last returned first" } else { "first returned first" }
    );
    let pool = SyncPool::<Vec<T>, N>::new(VecPoolCtx {
        size_cap: cap,
        init_size: init,
    });
    for round in 0..3 {
        let mut held: Vec<PoolItem<Vec<T>>> = Vec::new();
        for i in 0..count {
            let mut x = pool.get();
            if !x.is_empty() {
                return Err(format!("{what}: buffer {i} of round {round} arrives with {} elements", x.len()));
            }
            if x.capacity() > cap.max(init) {
                return Err(format!("{what}: buffer {i} of round {round} arrives with capacity {}", x.capacity()));
            }
            let size = sizes[(shift + i * (round + 1)) % if big { 10.min(count * 3) } else { 10 }];
            x.resize(size, fill.clone());
            held.push(x);
        }
        ch.steps(count as u64);
        let mut places: Vec<_> = held.iter().filter(|x| x.capacity() > 0).map(|x| x.as_ptr()).collect();
        places.sort_unstable();
        let n = places.len();
        places.dedup();
        if n != places.len() {
            return Err(format!("{what}: two buffers share their memory"));
        }
        while let Some(x) = if reversed { held.pop() } else { (!held.is_empty()).then(|| held.remove(0)) } {
            if x.iter().any(|x| x != fill) {
                return Err(format!("{what}: a buffer has changed"));
            }
            drop(x);
        }
    }
    Ok(())
}

pub fn spaces(run: &mut mc::Run) {
    let quick = run.quick();
    for (count, max, preemptions) in [(2, 2, run.by(3, 6)), (3, 1, run.by(3, 5)), (3, 2, run.by(1, 2)), (4, 1, run.by(2, 3))] {
        let bounds = Bounds {
            preemptions,
            steps: 1000,
        };
        run.space(
            &format!("{count} threads, up to {max} operations each"),
            &format!("pools of 1 and 2, use of one or two items, all schedules with up to {preemptions} preemptions"),
            |ch| {
                let n = 1 + ch.choose(2);
                let programs: Vec<Vec<Op>> = (0..count)
                    .map(|_| {
                        let len = 1 + ch.choose(max);
                        (0..len).map(|_| *ch.pick(&[Op::Use, Op::Two])).collect()
                    })
                    .collect();
                if n == 1 {
                    threads::<1>(&programs, &bounds, ch)
                } else {
                    threads::<2>(&programs, &bounds, ch)
                }
            },
        );
    }
    let depth = if quick { 6 } else { 7 };
    run.space(
        "buffers",
        &format!("all sequences of {depth} gets and returns of buffers with different fillings, caps and initial sizes"),
        |ch| match ch.choose(3) {
            0 => buffers::<1>(depth, ch),
            1 => buffers::<2>(depth, ch),
            _ => buffers::<3>(depth, ch),
        },
    );
    run.space(
        "contents",
        &format!("all sequences of {depth} gets and returns of vectors whose elements are counted"),
        |ch| match ch.choose(2) {
            0 => contents::<1>(depth, ch),
            _ => contents::<2>(depth, ch),
        },
    );
    run.space(
        "many buffers",
        "three rounds of getting, filling and returning 1 to 2N+1 buffers (elements of 1 and 12 bytes) in pools of N = 1-257, with sizes around \
         the cap and the initial size, caps up to 4 MiB",
        |ch| {
            let sizes = [1, 2, 8, 16, 17, 32, 33, 63, 64, 65, 128, 257];
            let n = *ch.pick(&sizes);
            let wide = ch.flag();
            macro_rules! sizes {
                ($($n:literal)*) => { match n {
                    $($n => if wide { many::<$n, [u32; 3]>(&[7; 3], quick, ch) } else { many::<$n, u8>(&7, quick, ch) },)*
                    _ => unreachable!()
                } };
            }
            sizes!(1 2 8 16 17 32 33 63 64 65 128 257)
        },
    );
}

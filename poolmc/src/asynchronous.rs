//! Histories of several threads on an asynchronous pool.
use std::{
    cell::RefCell,
    future::Future,
    pin::Pin,
    rc::Rc,
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

use mc::Chooser;
use mysql_connector::pool::{AsyncPool, AsyncPoolContent, AsyncPoolContentError, AsyncPoolTrait};

use crate::sched::{self, Bounds, Stop};

/// What a thread does with the pool. Items are always returned in the end.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Op {
    /// gets an item and returns it
    Get,
    /// returns it as one that is not usable any more
    Break,
    /// loses interest after so many polls
    Cancel(u8),
    /// polls a second time with another waker, and is woken only through the last
    Rewake,
    /// gets two items at once
    Two,
    /// waits for one of two gets and drops the other
    Race,
}

pub const OPS: [Op; 5] = [Op::Get, Op::Break, Op::Cancel(1), Op::Cancel(2), Op::Rewake];

/// How a creation ends.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Make {
    Now,
    Later,
    Fail,
    FailLater,
}

#[derive(Default)]
struct Ledger {
    made: usize,
    creating: usize,
    /// by item
    items: Vec<ItemState>,
    /// creations that failed: the thread and whether it was told
    failures: Vec<(usize, bool)>,
    makes: Vec<Make>,
    n: usize,
    /// the pool is being dropped
    closing: bool,
    violations: Vec<(&'static str, String)>,
    log: Vec<String>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum ItemState {
    Idle,
    Held(usize),
    Gone,
    Dropped,
}

impl Ledger {
    fn broken(&mut self, property: &'static str, text: String) {
        if !sched::killed() {
            self.violations.push((property, text));
        }
    }
    fn in_use(&self) -> usize {
        self.creating + self.items.iter().filter(|x| matches!(x, ItemState::Idle | ItemState::Held(_))).count()
    }
    fn check(&mut self) {
        let used = self.in_use();
        if used > self.n {
            self.broken("C19", format!("{used} items are held, idle or being created in a pool of {}", self.n));
        }
    }
}

type Shared = Rc<RefCell<Ledger>>;

pub struct Item {
    id: usize,
    usable: bool,
    ledger: Shared,
}

impl Drop for Item {
    fn drop(&mut self) {
        let mut l = self.ledger.borrow_mut();
        match l.items[self.id] {
            ItemState::Dropped => {
                let id = self.id;
                l.broken("C19", format!("item {id} is dropped twice"));
            }
            ItemState::Held(t) => {
                let id = self.id;
                l.broken("C19", format!("item {id} is dropped while thread {t} holds it"));
            }
            ItemState::Idle if !l.closing => {
                let (id, n) = (self.id, l.n);
                l.broken("C19", format!("item {id}, returned to a pool of {n}, is dropped"));
            }
            _ => (),
        }
        l.items[self.id] = ItemState::Dropped;
    }
}

pub struct Ctx(Shared);

impl std::fmt::Debug for Ctx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Ctx")
    }
}

impl AsyncPoolContentError for Item {
    type Error = usize;
}

struct Creation {
    ledger: Shared,
    make: Option<Make>,
    polled: bool,
    /// the thread that runs it
    thread: usize,
    ended: bool,
}

impl AsyncPoolContent<()> for Item {
    type Ctx = Ctx;

    fn new<'a>(ctx: &'a Ctx) -> Pin<Box<dyn Future<Output = Result<Self, usize>> + 'a>> {
        {
            let mut l = ctx.0.borrow_mut();
            l.creating += 1;
            l.check();
        }
        Box::pin(Creation {
            ledger: ctx.0.clone(),
            make: None,
            polled: false,
            thread: sched::current(),
            ended: false,
        })
    }

    fn is_usable(&self) -> bool {
        self.usable
    }
}

impl Future for Creation {
    type Output = Result<Item, usize>;

    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        assert!(!self.ended, "polled after completion");
        let make = match self.make {
            Some(x) => x,
            None => {
                let list = self.ledger.borrow().makes.clone();
                let make = match list.len() {
                    1 => list[0],
                    n if self.thread != usize::MAX => list[mc::ask(n)],
                    _ => Make::Now,
                };
                self.make = Some(make);
                make
            }
        };
        if matches!(make, Make::Later | Make::FailLater) && !self.polled {
            self.polled = true;
            // it is ready as soon as this thread waits
            sched::unscheduled(|| cx.waker().wake_by_ref());
            return Poll::Pending;
        }
        self.ended = true;
        let ledger = self.ledger.clone();
        let mut l = ledger.borrow_mut();
        l.creating -= 1;
        l.made += 1;
        Poll::Ready(match make {
            Make::Now | Make::Later => {
                let id = l.items.len();
                l.items.push(ItemState::Idle);
                l.check();
                Ok(Item {
                    id,
                    usable: true,
                    ledger: ledger.clone(),
                })
            }
            _ => {
                l.failures.push((self.thread, false));
                Err(l.failures.len() - 1)
            }
        })
    }
}

impl Drop for Creation {
    fn drop(&mut self) {
        if !self.ended {
            self.ledger.borrow_mut().creating -= 1;
        }
    }
}

struct Flag {
    woken: AtomicBool,
    /// how often it was awake when it was to sleep
    spun: AtomicUsize,
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        crossbeam::mc::point();
        self.woken.store(true, SeqCst);
    }
}

fn flag() -> (Arc<Flag>, Waker) {
    let f = Arc::new(Flag {
        woken: AtomicBool::new(false),
        spun: AtomicUsize::new(0),
    });
    let w = Waker::from(f.clone());
    (f, w)
}

impl Flag {
    /// Others run meanwhile.
    fn wait(&self) {
        if self.woken.load(SeqCst) && self.spun.fetch_add(1, SeqCst) >= 1 {
            // one that never sleeps must not keep the others from running
            sched::spin();
        }
        sched::block(&|| self.woken.load(SeqCst));
        self.woken.store(false, SeqCst);
    }
}

type Pool<const N: usize> = AsyncPool<Item, (), N>;

fn got(ledger: &Shared, item: &Item) {
    let mut l = ledger.borrow_mut();
    let t = sched::current();
    let id = item.id;
    l.log.push(format!("thread {t} gets item {id}"));
    match l.items[id] {
        ItemState::Idle => (),
        ItemState::Gone => l.broken("C21", format!("item {id}, which is not usable any more, is handed out")),
        x => l.broken("C19", format!("thread {t} gets item {id}, which is {x:?}")),
    }
    l.items[id] = ItemState::Held(t);
    l.check();
}

fn failed(ledger: &Shared, e: usize) {
    let mut l = ledger.borrow_mut();
    let t = sched::current();
    l.log.push(format!("thread {t} gets error {e}"));
    match l.failures.get_mut(e) {
        Some(x) if x.0 == t && !x.1 => x.1 = true,
        other => {
            let other = format!("{other:?}");
            l.broken("C21", format!("thread {t} gets error {e}, which is {other}"));
        }
    }
}

/// Marks the item before it is returned.
fn put(ledger: &Shared, item: &mut Item, usable: bool) {
    let mut l = ledger.borrow_mut();
    let t = sched::current();
    let id = item.id;
    l.log.push(format!("thread {t} returns item {id}{}", if usable { "" } else { " broken" }));
    if l.items[id] != ItemState::Held(t) {
        let x = l.items[id];
        l.broken("C19", format!("thread {t} holds item {id}, which is {x:?}"));
    }
    item.usable = usable;
    l.items[id] = if usable { ItemState::Idle } else { ItemState::Gone };
}

fn step<const N: usize>(pool: &'static Pool<N>, ledger: &Shared, op: Op) {
    let (flag_a, waker_a) = flag();
    let mut cx = Context::from_waker(&waker_a);
    let wait_for = |mut fut: Pin<Box<dyn Future<Output = Result<mysql_connector::pool::PoolItem<'static, Item>, usize>>>>| {
        let (flag, waker) = flag();
        loop {
            match fut.as_mut().poll(&mut Context::from_waker(&waker)) {
                Poll::Ready(x) => return x,
                Poll::Pending => flag.wait(),
            }
        }
    };
    let mut fut = pool.get();
    let res = match op {
        Op::Get | Op::Break => wait_for(fut),
        Op::Two => {
            let first = wait_for(fut);
            let first = match first {
                Ok(mut x) => {
                    got(ledger, &mut x);
                    Some(x)
                }
                Err(e) => {
                    failed(ledger, e);
                    None
                }
            };
            let second = wait_for(pool.get());
            if let Some(mut x) = first {
                put(ledger, &mut x, true);
                drop(x);
            }
            second
        }
        Op::Rewake => match fut.as_mut().poll(&mut cx) {
            Poll::Ready(x) => x,
            Poll::Pending => wait_for(fut),
        },
        Op::Cancel(n) => {
            let mut left = n;
            loop {
                match fut.as_mut().poll(&mut cx) {
                    Poll::Ready(x) => break x,
                    Poll::Pending => {
                        left -= 1;
                        if left == 0 {
                            ledger.borrow_mut().log.push(format!("thread {} cancels", sched::current()));
                            drop(fut);
                            return;
                        }
                        flag_a.wait();
                    }
                }
            }
        }
        Op::Race => {
            let mut other = pool.get();
            loop {
                if let Poll::Ready(x) = fut.as_mut().poll(&mut cx) {
                    drop(other);
                    break x;
                }
                if let Poll::Ready(x) = other.as_mut().poll(&mut cx) {
                    drop(fut);
                    break x;
                }
                flag_a.wait();
            }
        }
    };
    match res {
        Ok(mut x) => {
            got(ledger, &x);
            put(ledger, &mut x, op != Op::Break);
            drop(x);
        }
        Err(e) => failed(ledger, e),
    }
}

fn explore<const N: usize>(
    property: &str,
    programs: &[&[Op]],
    makes: &[Make],
    bounds: &Bounds,
    ch: &mut Chooser,
) -> Result<(), String> {
    let ledger: Shared = Rc::new(RefCell::new(Ledger {
        n: N,
        makes: makes.to_vec(),
        ..Ledger::default()
    }));
    let pool: *mut Pool<N> = Box::into_raw(Box::new(Pool::<N>::new(Ctx(ledger.clone()))));
    // Safety: freed below, only after all threads ended
    let shared: &'static Pool<N> = unsafe { &*pool };
    let threads = programs
        .iter()
        .map(|p| {
            let p = p.to_vec();
            let ledger = ledger.clone();
            Box::new(move || {
                for op in p {
                    step(shared, &ledger, op);
                }
            }) as Box<dyn FnOnce()>
        })
        .collect();
    let mut trace = Vec::new();
    let p: *mut Chooser = ch;
    // Safety: the scheduler and the threads use it in turns
    let stop = mc::scoped(unsafe { &mut *p }, || sched::run(threads, bounds, unsafe { &mut *p }, &mut trace));
    let report = |text: String| {
        let l = ledger.borrow();
        format!("pool of {N}, threads {programs:?}: {text}\nschedule {trace:?}\n{}", l.log.join("\n"))
    };
    let mine = |list: &[(&'static str, String)]| list.iter().find(|x| x.0 == property).map(|x| x.1.clone());
    if let Some(x) = mine(&ledger.borrow().violations) {
        return Err(report(x));
    }
    match stop {
        Ok(()) => (),
        Err(Stop::Panic(i, text)) => return Err(report(format!("thread {i} panics: {text}"))),
        Err(Stop::Deadlock(list)) => {
            return match property {
                "C20" => Err(report(format!("threads {list:?} are never woken"))),
                _ => Ok(()),
            }
        }
        Err(Stop::Endless) => {
            return match property {
                "C20" => Err(report("no end".into())),
                _ => Ok(()),
            }
        }
    }
    if let Some((t, _)) = ledger.borrow().failures.iter().find(|x| !x.1) {
        // the getter may have been cancelled in between
        let cancelling = programs[*t].iter().any(|x| matches!(x, Op::Cancel(_) | Op::Race));
        if property == "C21" && !cancelling {
            return Err(report(format!("the error of a creation of thread {t} was not reported to it")));
        }
    }
    // all of its capacity is there
    let before = ledger.borrow().items.iter().filter(|x| **x == ItemState::Idle).count();
    let made = ledger.borrow().made;
    ledger.borrow_mut().makes = vec![Make::Now];
    let pool = unsafe { Box::from_raw(pool) };
    let mut cx = Context::from_waker(Waker::noop());
    let mut all = Vec::new();
    for i in 0..N {
        match pool.get().as_mut().poll(&mut cx) {
            Poll::Ready(Ok(x)) => {
                got(&ledger, &x);
                all.push(x);
            }
            other => {
                let text = format!("afterwards only {i} items can be obtained: {:?}", other.map(|x| x.map(|_| ())));
                return match property {
                    "C21" => Err(report(text)),
                    // the pool is not in the state the rest relies on
                    _ => Ok(()),
                };
            }
        }
    }
    let new = ledger.borrow().made - made;
    if property == "C19" && new + before > N {
        return Err(report(format!("{before} items were idle, but {new} were created to obtain {N}")));
    }
    {
        let mut more = pool.get();
        if more.as_mut().poll(&mut cx).is_ready() && property == "C19" {
            return Err(report(format!("item {} of {N} can be obtained", N + 1)));
        }
    }
    for x in &mut all {
        put(&ledger, x, true);
    }
    drop(all);
    ledger.borrow_mut().closing = true;
    drop(pool);
    if property == "C19" {
        if let Some(i) = ledger.borrow().items.iter().position(|x| *x != ItemState::Dropped) {
            return Err(report(format!("item {i} is lost")));
        }
    }
    if let Some(x) = mine(&ledger.borrow().violations) {
        return Err(report(x));
    }
    ch.outcome(&ledger.borrow().log);
    Ok(())
}

/// All sequences of operations up to a length.
fn programs(ops: &[Op], max: usize) -> Vec<Vec<Op>> {
    let mut all: Vec<Vec<Op>> = Vec::new();
    let mut last: Vec<Vec<Op>> = vec![Vec::new()];
    for _ in 0..max {
        last = last
            .iter()
            .flat_map(|p| {
                ops.iter().map(|o| {
                    let mut p = p.clone();
                    p.push(*o);
                    p
                })
            })
            .collect();
        all.extend(last.clone());
    }
    all
}

/// All multisets of `threads` of these programs.
fn teams(programs: &[Vec<Op>], threads: usize) -> Vec<Vec<Vec<Op>>> {
    fn rec(programs: &[Vec<Op>], from: usize, left: usize, cur: &mut Vec<Vec<Op>>, out: &mut Vec<Vec<Vec<Op>>>) {
        if left == 0 {
            out.push(cur.clone());
            return;
        }
        for i in from..programs.len() {
            cur.push(programs[i].clone());
            rec(programs, i, left - 1, cur, out);
            cur.pop();
        }
    }
    let mut out = Vec::new();
    rec(programs, 0, threads, &mut Vec::new(), &mut out);
    out
}

/// One thread with everything a pool can hold, and more getters than that.
struct Crowd {
    waiters: usize,
    /// of the waiters, every one for which this holds loses interest
    cancel: usize,
    /// of the items, which are returned unusable
    broken: usize,
    /// creations that fail or are dropped before
    failures: usize,
    make: Make,
    first_last: bool,
}

const SIZES: [usize; 26] =
    [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1025];

fn crowd<const N: usize>(property: &str, c: &Crowd, ch: &mut Chooser) -> Result<(), String> {
    let ledger: Shared = Rc::new(RefCell::new(Ledger {
        n: N,
        ..Ledger::default()
    }));
    let pool = Box::into_raw(Box::new(Pool::<N>::new(Ctx(ledger.clone()))));
    // Safety: freed below; if there is a violation, never
    let pool: &'static Pool<N> = unsafe { &*pool };
    type Fut = Pin<Box<dyn Future<Output = Result<mysql_connector::pool::PoolItem<'static, Item>, usize>>>>;
    let report = |text: String| {
        Err(format!(
            "pool of {N}, {} getters wait, cancelled: pattern {}, broken: pattern {}, failures before: {}, {:?}, order {}: {text}",
            c.waiters, c.cancel, c.broken, c.failures, c.make, c.first_last
        ))
    };
    let pattern = |kind: usize, i: usize, n: usize| match kind {
        0 => false,
        1 => i % 2 == 0,
        2 => i + 1 != n,
        3 => i != 0,
        _ => true,
    };
    let mut noop = Context::from_waker(Waker::noop());
    // creations that end without an item
    let mut pending: Vec<Fut> = Vec::new();
    for i in 0..c.failures {
        ledger.borrow_mut().makes = vec![[Make::Fail, Make::Later, Make::FailLater][i % 3]];
        let mut fut: Fut = pool.get();
        match fut.as_mut().poll(&mut noop) {
            Poll::Ready(Err(e)) => failed(&ledger, e),
            Poll::Pending if i % 2 == 0 && pending.len() < N - 1 => pending.push(fut),
            Poll::Pending => drop(fut),
            Poll::Ready(Ok(_)) => return Ok(()),
        }
    }
    drop(pending);
    ledger.borrow_mut().makes = vec![c.make];
    let mut items = Vec::new();
    for i in 0..N {
        let mut fut: Fut = pool.get();
        let mut res = fut.as_mut().poll(&mut noop);
        if res.is_pending() {
            res = fut.as_mut().poll(&mut noop);
        }
        match res {
            Poll::Ready(Ok(x)) => {
                got(&ledger, &x);
                items.push(x)
            }
            _ if property == "C21" => return report(format!("only {i} items can be obtained")),
            _ => return Ok(()),
        }
    }
    let mut waiters: Vec<Option<(Fut, Arc<Flag>, Waker)>> = Vec::new();
    for _ in 0..c.waiters {
        let (f, w) = flag();
        let mut fut: Fut = pool.get();
        match fut.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Pending => waiters.push(Some((fut, f, w))),
            _ if property == "C19" => return report("one item more can be obtained".into()),
            _ => return Ok(()),
        }
    }
    for i in 0..c.waiters {
        if pattern(c.cancel, i, c.waiters) {
            waiters[i] = None;
        }
    }
    let mut number = 0;
    loop {
        if !items.is_empty() {
            let mut x = if c.first_last { items.remove(0) } else { items.pop().unwrap() };
            put(&ledger, &mut x, !pattern(c.broken, number, N));
            number += 1;
            drop(x);
        }
        // each of those that were woken looks for an item, and keeps it until others returned theirs
        let mut progress = !items.is_empty();
        for w in waiters.iter_mut() {
            let Some((fut, f, waker)) = w else { continue };
            if !f.woken.swap(false, SeqCst) {
                continue;
            }
            progress = true;
            if let Poll::Ready(res) = fut.as_mut().poll(&mut Context::from_waker(waker)) {
                *w = None;
                match res {
                    Ok(x) => {
                        got(&ledger, &x);
                        items.push(x);
                    }
                    Err(e) => failed(&ledger, e),
                }
            }
        }
        ch.steps(1);
        if !progress {
            break;
        }
    }
    let waiting = waiters.iter().flatten().count();
    if waiting > 0 {
        return match property {
            "C20" => report(format!("{waiting} getters are never woken although all items were returned")),
            _ => Ok(()),
        };
    }
    drop(waiters);
    ledger.borrow_mut().makes = vec![Make::Now];
    for i in 0..N {
        match (pool.get() as Fut).as_mut().poll(&mut noop) {
            Poll::Ready(Ok(x)) => {
                got(&ledger, &x);
                items.push(x)
            }
            _ if property == "C21" => return report(format!("afterwards only {i} items can be obtained")),
            _ => return Ok(()),
        }
    }
    for x in &mut items {
        put(&ledger, x, true);
    }
    drop(items);
    ledger.borrow_mut().closing = true;
    drop(unsafe { Box::from_raw(pool as *const Pool<N> as *mut Pool<N>) });
    if let Some(x) = ledger.borrow().violations.iter().find(|x| x.0 == property) {
        return report(x.1.clone());
    }
    ch.outcome(&(N, ledger.borrow().made));
    Ok(())
}

pub fn crowds(run: &mut mc::Run, property: &'static str) {
    let sizes: &[usize] = &SIZES;
    let quick = run.quick();
    run.space(
        "large pools, many getters",
        &format!(
            "one thread that takes all items of pools of {sizes:?} while 0-1000 getters wait, of which some lose interest; \
             the items are returned in both orders, usable or not; failed and dropped creations before"
        ),
        |ch| {
            let n = *ch.pick(sizes);
            let c = Crowd {
                waiters: *ch.pick(&[0, 1, 2, 3, 17, 33, 65, 129, 257, 1000]),
                cancel: ch.choose(4),
                broken: ch.choose(5),
                failures: *ch.pick(&[0, 1, 7]) * n,
                make: *ch.pick(&[Make::Now, Make::Later]),
                first_last: ch.flag(),
            };
            if quick && (n > 40 || c.waiters > 40) && (c.failures > n || c.make == Make::Later || c.cancel % 2 == 1 || c.broken > 2) {
                ch.trivial();
                return Ok(());
            }
            if (n > 130 || c.waiters > 130) && (c.failures > n || c.make == Make::Later || c.cancel == 3) {
                ch.trivial();
                return Ok(());
            }
            if n > 300 && (c.waiters > 20 || c.broken > 1) {
                ch.trivial();
                return Ok(());
            }
            macro_rules! sizes {
                ($($n:literal)*) => { match n { $($n => crowd::<$n>(property, &c, ch),)* _ => unreachable!() } };
            }
            sizes!(1 2 3 4 5 7 8 9 15 16 17 31 32 33 50 63 64 65 100 127 128 129 255 256 257 1025)
        },
    );
}

pub fn spaces(run: &mut mc::Run, property: &'static str) {
    let all = [Make::Now, Make::Later, Make::Fail, Make::FailLater];
    struct Plan {
        name: &'static str,
        teams: Vec<Vec<Vec<Op>>>,
        makes: Vec<Make>,
        preemptions: usize,
        sizes: &'static [usize],
    }
    let quick = run.quick();
    crowds(run, property);
    let mut plans = vec![
        Plan {
            name: "2 threads, one operation each",
            teams: teams(&programs(&OPS, 1), 2),
            makes: all.to_vec(),
            preemptions: run.by(4, 8),
            sizes: &[1, 2],
        },
        Plan {
            name: "2 threads, two operations each",
            teams: teams(&programs(&OPS, 2), 2),
            makes: all.to_vec(),
            preemptions: run.by(1, 2),
            sizes: &[1, 2],
        },
        Plan {
            name: "3 threads, one operation each",
            teams: teams(&programs(&OPS, 1), 3),
            makes: all.to_vec(),
            preemptions: run.by(1, 2),
            sizes: &[1, 2],
        },
        Plan {
            name: "3 threads, one operation each, fewer kinds of creations",
            teams: teams(&programs(&OPS, 1), 3),
            makes: vec![Make::Now, Make::FailLater],
            preemptions: run.by(2, 3),
            sizes: &[1, 2],
        },
        Plan {
            name: "3 threads, one or two operations each, quick creations",
            teams: teams(&programs(&[Op::Get, Op::Break, Op::Cancel(1), Op::Cancel(2)], 2), 3),
            makes: vec![Make::Now],
            preemptions: run.by(1, 2),
            sizes: &[1, 2],
        },
        Plan {
            name: "two items at once, races",
            teams: teams(&programs(&[Op::Get, Op::Race, Op::Two], 1), 2)
                .into_iter()
                .filter(|t| t.iter().flatten().filter(|x| **x == Op::Two).count() == 1)
                .collect(),
            makes: all.to_vec(),
            preemptions: run.by(3, 5),
            sizes: &[2],
        },
        Plan {
            name: "two items at once, 3 threads",
            teams: teams(&programs(&[Op::Get, Op::Break, Op::Cancel(2), Op::Two], 1), 3)
                .into_iter()
                .filter(|t| t.iter().flatten().filter(|x| **x == Op::Two).count() == 1)
                .collect(),
            makes: vec![Make::Now],
            preemptions: run.by(3, 4),
            sizes: &[2, 3],
        },
        Plan {
            name: "races",
            teams: teams(&programs(&[Op::Get, Op::Race, Op::Cancel(2)], 1), 3)
                .into_iter()
                .filter(|t| t.iter().flatten().any(|x| *x == Op::Race))
                .collect(),
            makes: vec![Make::Now, Make::FailLater],
            preemptions: run.by(2, 3),
            sizes: &[1, 2],
        },
    ];
    if !quick {
        plans.push(Plan {
            name: "4 threads, one operation each",
            teams: teams(&programs(&[Op::Get, Op::Break, Op::Cancel(2)], 1), 4),
            makes: vec![Make::Now, Make::FailLater],
            preemptions: 1,
            sizes: &[1, 2, 3],
        });
    }
    for p in &plans {
        let what = format!(
            "{} teams on pools of {:?}, creations {:?}, all schedules with up to {} preemptions",
            p.teams.len(),
            p.sizes,
            p.makes,
            p.preemptions
        );
        let bounds = Bounds {
            preemptions: p.preemptions,
            steps: 400,
        };
        run.space(p.name, &what, |ch| {
            let n = *ch.pick(p.sizes);
            let team = ch.pick(&p.teams);
            let team: Vec<&[Op]> = team.iter().map(|x| &x[..]).collect();
            match n {
                1 => explore::<1>(property, &team, &p.makes, &bounds, ch),
                2 => explore::<2>(property, &team, &p.makes, &bounds, ch),
                _ => explore::<3>(property, &team, &p.makes, &bounds, ch),
            }
        });
    }
}

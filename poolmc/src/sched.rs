//! Runs threads of the code under test as coroutines, one operation on something shared at a time,
//! in every order within a bound on preemptions.
use std::{
    cell::{Cell, RefCell},
    panic::{catch_unwind, AssertUnwindSafe},
};

use crossbeam::mc::Hook;
use generator::{Gn, LocalGenerator};
use mc::Chooser;

#[derive(Clone, Copy)]
enum Req {
    /// wants to do an operation
    Op,
    /// lets others run first
    Yield,
    /// waits until the condition holds
    Wait(*const dyn Fn() -> bool),
    Done,
}

type Scope = generator::Scope<'static, 'static, (), Req>;

/// Ends a coroutine in the middle.
struct Killed;

/// Whether what runs only runs to free the stacks of an execution that was given up.
pub fn killed() -> bool {
    KILLED.with(|k| k.get())
}

fn request(req: Req) {
    if killed() {
        // destructors run to their ends
        if !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(Killed));
        }
        return;
    }
    let scope = SCOPES.with(|s| s.borrow()[current()]);
    // Safety: it lives on the stack of the coroutine, which is running
    unsafe { (*scope).yield_with(req) };
}

fn point() {
    request(Req::Op);
}

/// Lets all others run first.
pub fn spin() {
    request(Req::Yield);
}

/// Until `possible`, which other threads bring about.
pub fn block(possible: &dyn Fn() -> bool) {
    // Safety: the stack of this coroutine is not touched until it is resumed
    let p: *const (dyn Fn() -> bool + 'static) = unsafe { std::mem::transmute(possible as *const dyn Fn() -> bool) };
    request(Req::Wait(p));
}

const HOOK: Hook = Hook { point, block, spin };

thread_local! {
    static KILLED: Cell<bool> = const { Cell::new(false) };
    static SCOPES: RefCell<Vec<*mut Scope>> = const { RefCell::new(Vec::new()) };
    static CURRENT: Cell<usize> = const { Cell::new(usize::MAX) };
    static STACKS: RefCell<Vec<LocalGenerator<'static, (), Req>>> = const { RefCell::new(Vec::new()) };
}

/// The thread that runs.
pub fn current() -> usize {
    CURRENT.with(|c| c.get())
}

/// Runs `f` outside of the scheduler.
pub fn unscheduled<T>(f: impl FnOnce() -> T) -> T {
    let old = crossbeam::mc::set(None);
    let res = f();
    crossbeam::mc::set(old);
    res
}

#[derive(Debug)]
pub enum Stop {
    /// These threads wait for each other.
    Deadlock(Vec<usize>),
    /// The threads do not come to an end.
    Endless,
    Panic(usize, String),
}

pub struct Bounds {
    pub preemptions: usize,
    pub steps: usize,
}

/// Runs all `threads` to their ends. `trace` gets the thread of each step.
pub fn run(
    threads: Vec<Box<dyn FnOnce()>>,
    bounds: &Bounds,
    ch: &mut Chooser,
    trace: &mut Vec<u8>,
) -> Result<(), Stop> {
    let n = threads.len();
    SCOPES.with(|s| *s.borrow_mut() = vec![std::ptr::null_mut(); n]);
    let mut gens: Vec<Option<LocalGenerator<'static, (), Req>>> = threads
        .into_iter()
        .map(|f| {
            let code = move |scope: *mut ()| {
                SCOPES.with(|s| s.borrow_mut()[current()] = scope as *mut Scope);
                match catch_unwind(AssertUnwindSafe(f)) {
                    Err(p) if !p.is::<Killed>() => std::panic::resume_unwind(p),
                    _ => Req::Done,
                }
            };
            Some(match STACKS.with(|s| s.borrow_mut().pop()) {
                Some(mut g) => {
                    g.scoped_init(move |mut s| code(&mut s as *mut _ as *mut ()));
                    g
                }
                None => Gn::new_scoped_opt_local(0x4000, move |mut s| code(&mut s as *mut _ as *mut ())),
            })
        })
        .collect();
    let mut reqs = vec![Req::Op; n];
    let mut done = vec![false; n];
    let mut last: Option<usize> = None;
    let mut preemptions = bounds.preemptions;
    // that let others run first, which did not happen yet
    let mut yielded = vec![false; n];
    let res = loop {
        if done.iter().all(|x| *x) {
            break Ok(());
        }
        let ready = |i: usize| {
            !done[i]
                && match reqs[i] {
                    // Safety: see `block`
                    Req::Wait(p) => unsafe { (*p)() },
                    _ => true,
                }
        };
        let mut options: Vec<usize> = Vec::with_capacity(n);
        // the thread that ran continues without a preemption, unless it waits or yields
        let free = match last {
            Some(i) => !matches!(reqs[i], Req::Op) || done[i],
            None => true,
        };
        match last {
            Some(i) if !free => {
                options.push(i);
                if preemptions > 0 {
                    options.extend((0..n).filter(|j| *j != i && ready(*j)));
                }
            }
            _ => {
                options.extend((0..n).filter(|j| ready(*j) && !yielded[*j]));
                if options.is_empty() {
                    yielded.fill(false);
                    let again = |i: usize| last == Some(i) && matches!(reqs[i], Req::Yield);
                    options.extend((0..n).filter(|j| ready(*j) && !again(*j)));
                    if options.is_empty() {
                        options.extend((0..n).filter(|j| ready(*j)));
                    }
                }
            }
        }
        if options.is_empty() {
            break Err(Stop::Deadlock((0..n).filter(|i| !done[*i]).collect()));
        }
        if trace.len() >= bounds.steps {
            break Err(Stop::Endless);
        }
        let i = match options.len() {
            1 => options[0],
            k => options[ch.choose(k)],
        };
        if !free && last != Some(i) {
            preemptions -= 1;
        }
        last = Some(i);
        trace.push(i as u8);
        CURRENT.with(|c| c.set(i));
        let g = gens[i].as_mut().unwrap();
        crossbeam::mc::set(Some(HOOK));
        let out = catch_unwind(AssertUnwindSafe(|| g.resume()));
        crossbeam::mc::set(None);
        CURRENT.with(|c| c.set(usize::MAX));
        match out {
            Ok(Some(Req::Done)) | Ok(None) => {
                done[i] = true;
                let g = gens[i].take().unwrap();
                STACKS.with(|s| s.borrow_mut().push(g));
            }
            Ok(Some(req)) => {
                reqs[i] = req;
                yielded[i] |= matches!(req, Req::Yield);
            }
            Err(p) => {
                done[i] = true;
                std::mem::forget(gens[i].take());
                let text = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or_default();
                break Err(Stop::Panic(i, text));
            }
        }
    };
    ch.steps(trace.len() as u64);
    KILLED.with(|k| k.set(true));
    for (i, g) in gens.into_iter().enumerate() {
        let Some(mut g) = g else { continue };
        CURRENT.with(|c| c.set(i));
        crossbeam::mc::set(Some(HOOK));
        let out = catch_unwind(AssertUnwindSafe(|| g.resume()));
        crossbeam::mc::set(None);
        CURRENT.with(|c| c.set(usize::MAX));
        match out {
            Ok(Some(Req::Done)) | Ok(None) => STACKS.with(|s| s.borrow_mut().push(g)),
            // this stack is lost
            _ => std::mem::forget(g),
        }
    }
    KILLED.with(|k| k.set(false));
    res
}

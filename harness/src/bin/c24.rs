//! C24: a migrator never loses track of what it applied, whatever fails.
use std::{collections::BTreeSet, sync::Arc};

use mc::{
    migr::{self, Call, Fault, Key, List, Pool, When, Why, World},
    rt, Chooser, Level,
};
use mysql_connector::{Error, Migrator};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

type V = (u16, u16, u16);
type Set = BTreeSet<usize>;

const VERSIONS: [V; 3] = [(0, 0, 1), (0, 1, 0), (1, 0, 0)];

/// `counts`: how many migrations the versions have.
fn list(counts: [usize; 3]) -> &'static List {
    let mut keys: Vec<Key> = Vec::new();
    for (i, n) in counts.iter().enumerate() {
        for k in 0..*n {
            keys.push((VERSIONS[i], ["a", "b\"'\\", "c"][k]));
        }
    }
    migr::list(&keys, &[])
}

const CALLS: [Call; 9] = [
    Call::Up,
    Call::OneDown,
    Call::UpTo((0, 1, 0)),
    Call::DownTo((0, 0, 0)),
    Call::DownTo((0, 0, 1)),
    Call::To((0, 0, 1)),
    Call::To((0, 1, 0)),
    Call::To((0, 0, 0)),
    Call::New,
];

#[derive(Clone, Copy, Debug)]
enum What {
    Statement(usize, Fault),
    Refuse(usize),
    Step(usize, When, Why),
    Abandon(usize),
}

/// What a run without faults needs.
#[derive(Default)]
struct Counts {
    statements: usize,
    steps: usize,
    connects: usize,
    polls: usize,
}

async fn round<'a>(m: &mut Option<Migrator<'a>>, pool: &'a Pool, list: &'static List, call: Call) -> Result<bool, Error> {
    if m.is_none() || call == Call::New {
        *m = None;
        *m = Some(Migrator::new(pool, list.lists).await?);
    }
    migr::make(m.as_mut().unwrap(), call).await
}

fn measure(list: &'static List, initial: &Set, table: bool, call: Call) -> Counts {
    let w = World::new(list, initial, table, false);
    let pool = w.pool();
    w.slow();
    let (_, polls) = rt::run(rt::count_polls(async {
        let _ = round(&mut None, &pool, list, call).await;
    }))
    .unwrap_or(((), 0));
    Counts {
        statements: w.statements(),
        steps: w.steps().len(),
        connects: w.connects(),
        polls,
    }
}

fn pick(counts: &Counts, ch: &mut Chooser) -> What {
    let kinds = migr::FAULTS.len();
    let n = [kinds * counts.statements, counts.connects, 2 * counts.steps, counts.polls];
    let mut i = ch.choose(n.iter().sum());
    if i < n[0] {
        return What::Statement(i / kinds, migr::FAULTS[i % kinds]);
    }
    i -= n[0];
    if i < n[1] {
        return What::Refuse(i);
    }
    i -= n[1];
    if i < n[2] {
        return What::Step(i / 2, [When::Before, When::After][i % 2], Why::Io);
    }
    What::Abandon(i - n[2])
}

/// Other ways of failing than those of `pick`.
fn kinds(counts: &Counts, ch: &mut Chooser) -> What {
    if ch.flag() {
        let whys = [Why::Timeout, Why::Runtime];
        let all = migr::CODES.len() + migr::STEP_CODES.len();
        let n = ch.choose(counts.steps.max(1));
        let when = *ch.pick(&[When::Before, When::After]);
        let i = ch.choose(whys.len() + all);
        let why = match i.checked_sub(whys.len()) {
            None => whys[i],
            Some(i) => Why::Server(*migr::CODES.iter().chain(&migr::STEP_CODES).nth(i).unwrap()),
        };
        return What::Step(n, when, why);
    }
    let n = ch.choose(counts.statements);
    let i = ch.choose(migr::CODES.len() + 8);
    What::Statement(
        n,
        match i.checked_sub(8) {
            Some(i) => Fault::Error(migr::CODES[i]),
            None if i < 4 => Fault::ErrorWithin(i),
            None => Fault::LostWithin(i - 4),
        },
    )
}

fn set(w: &Arc<World>, what: What) {
    match what {
        What::Statement(n, kind) => w.set_fault(w.statements() + n, kind),
        What::Refuse(n) => w.set_refuse(w.connects() + n),
        What::Step(n, when, why) => w.set_step(n, when, why),
        What::Abandon(_) => w.slow(),
    }
}

type Pick = fn(&Counts, &mut Chooser) -> What;

fn history(list: &'static List, calls: &[Call], faults: usize, pick: Pick, ch: &mut Chooser) -> Result<(), String> {
    let n = list.keys.len();
    let bits = ch.choose(1 << n);
    let initial: Set = (0..n).filter(|i| bits >> i & 1 == 1).collect();
    let table = bits != 0 || ch.flag();
    let call = *ch.pick(calls);
    let counts = measure(list, &initial, table, call);
    let mut goal = initial.clone();
    let (_, any) = migr::model(list, &mut goal, call);
    let w = World::new(list, &initial, table, false);
    let pool = w.pool();
    let mut text = format!("{:?}, {initial:?} applied, table {table}, {call:?}", list.keys);
    let mut m: Option<Migrator> = None;
    let mut steps = 0;
    let mut done = false;
    for at in 0..=faults {
        let what = (at < faults).then(|| pick(&counts, ch));
        if at > 0 {
            // one_down of another migrator is another call
            if m.is_some() && (call == Call::OneDown || ch.flag()) {
                text += ", again";
            } else {
                m = None;
                text += ", again on a new one";
            }
        }
        if let Some(x) = what {
            text += &format!(", {x:?}");
            set(&w, x);
        }
        let happened = w.happened();
        let res = rt::run(async {
            let f = round(&mut m, &pool, list, call);
            match what {
                Some(What::Abandon(n)) => rt::polls(f, n).await,
                _ => Some(f.await),
            }
        })
        .map_err(|_| format!("{text}: hangs\n{}", w.log()))?;
        let happened = w.happened() > happened;
        w.recover();
        let ran = w.steps();
        steps += ran.len() as u64 + 1;
        let (records, effects) = (w.recorded()?, w.effects());
        let fail = |e: String| {
            Err(format!(
                "{text}: {e}; {records:?} are recorded, {effects:?} in effect, steps {ran:?}, result {res:?}\n{}",
                w.log()
            ))
        };
        if let Err(e) = w.check() {
            return fail(e);
        }
        if let Some(Ok(x)) = &res {
            if *x != any {
                return fail("a wrong result".to_owned());
            }
            if records != goal || effects != goal {
                return fail(format!("a call returns Ok, but not {goal:?} is recorded and in effect"));
            }
            done = true;
        } else if matches!(res, Some(Err(_))) && !happened {
            return fail("an error without a fault".to_owned());
        }
        if at == 0 && !happened && !matches!(what, Some(What::Abandon(_))) {
            ch.trivial();
        }
        ch.state(&(&list.keys, &records, &effects, done));
        if done {
            break;
        }
    }
    ch.steps(steps);
    ch.note(|| text.clone());
    ch.outcome(&(&list.keys, &initial, &goal));
    Ok(())
}

fn main() {
    mc::main(
        "C24",
        Level {
            level: "fault_enumeration",
            rule: "a fault at every statement, connection, step and poll of every call on a real migrator over a reference database, \
                   then retries on the same and on a new one: records and effects are checked after every statement and call",
            assumptions: &[
                "steps can be repeated, as a step may be done although its record failed",
                "a migrator that retries one_down is the one that failed: another would revert another migration",
            ],
        },
        |run| {
            let quick = run.quick();
            let mut shapes: Vec<[usize; 3]> = vec![[1, 0, 0], [2, 0, 0], [1, 1, 0], [1, 1, 1], [2, 1, 0], [1, 0, 2]];
            if !quick {
                shapes.extend([[2, 2, 0], [2, 1, 1], [3, 0, 1], [2, 2, 1]]);
            }
            run.each(
                "one fault",
                "every list, applied set and call; every statement fails, is lost before or after or has no answer, every \
                 connection is refused, every step fails before or after its effect, the call is abandoned at every poll",
                shapes.len(),
                |i, ch| history(list(shapes[i]), &CALLS, 1, pick, ch),
            );
            run.each(
                "one fault of any kind",
                "as above: every statement is refused with each of 12 errors, its result ends with an error or the connection after \
                 0 to 3 rows, every step fails with each of 36 errors of a server, a timeout or a wrong call",
                if quick { 4 } else { shapes.len() },
                |i, ch| history(list(shapes[i]), &CALLS, 1, kinds, ch),
            );
            let two: Vec<[usize; 3]> = if quick { vec![[1, 1, 0]] } else { vec![[1, 1, 0], [2, 0, 0], [2, 1, 0]] };
            run.each(
                "a fault while retrying",
                "two rounds with a fault each, on the same or a new migrator, before the one without",
                two.len(),
                |i, ch| history(list(two[i]), &CALLS, 2, pick, ch),
            );
        },
    )
}

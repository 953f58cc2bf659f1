//! C18: inserts and updates of models write exactly the set fields.
#[path = "../models.rs"]
mod models;
pub use mc::shape;

use std::{
    collections::HashMap,
    sync::{Arc, Mutex},
};

use mc::{
    drive::{Session, E},
    mock::Plan,
    rt,
    server::{Cfg, Cmd},
    shape::{Dyn, Exp, Gen, Node},
    sql::{self, Db, SharedDb},
    wire::{Cell, ErrData, Reply},
    Chooser, Level,
};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

/// What the server saw and did, in order.
#[derive(Default)]
struct Seen {
    /// rows that were added: table and key
    added: Vec<(String, Cell)>,
    commands: usize,
    failed: bool,
    after_failure: usize,
}

const FAILURE: u16 = 1205;

fn failure() -> ErrData {
    sql::err(FAILURE, "HY000", "Lock wait timeout exceeded")
}

/// Everything below may be in the tables before.
fn prefill(db: &mut Db) -> usize {
    let mut n = 0;
    for (t, table) in db.tables.iter_mut().enumerate() {
        for i in 0..3 {
            let row = (0..table.cols.len())
                .map(|c| {
                    if Some(c) == table.index("id") {
                        Cell::Int(10 + i)
                    } else {
                        Cell::Int(70_000 + 1000 * t as i128 + 10 * c as i128 + i)
                    }
                })
                .collect();
            table.rows.push(row);
            n += 1;
        }
    }
    n
}

fn key(table: &sql::Table, row: &[Cell]) -> Cell {
    row[table.index("id").unwrap()].clone()
}

struct World {
    db: SharedDb,
    seen: Arc<Mutex<Seen>>,
    session: Session,
}

/// `fail`: the command (prepare or execute) that fails.
fn world(schema: &dyn Fn(&mut Db), fail: Option<usize>) -> World {
    let mut db = Db::new();
    schema(&mut db);
    prefill(&mut db);
    let db: SharedDb = Arc::new(Mutex::new(db));
    let seen: Arc<Mutex<Seen>> = Default::default();
    let mut server = sql::Session::new(&db);
    let (d, s) = (db.clone(), seen.clone());
    let session = Session::new(
        Cfg::default(),
        Plan::default(),
        Box::new(move |cmd| {
            let mut seen = s.lock().unwrap();
            if !matches!(cmd, Cmd::Query(_) | Cmd::Prepare(_) | Cmd::Execute { .. }) {
                return server.answer(cmd);
            }
            let n = seen.commands;
            seen.commands += 1;
            if seen.failed {
                seen.after_failure += 1;
            }
            if fail == Some(n) {
                seen.failed = true;
                return vec![Reply::Err(failure())];
            }
            let keys = |db: &SharedDb| -> HashMap<String, Vec<Cell>> {
                let db = db.lock().unwrap();
                db.tables
                    .iter()
                    .map(|t| (t.name.clone(), t.rows.iter().map(|r| key(t, r)).collect()))
                    .collect()
            };
            let before = keys(&d);
            let res = server.answer(cmd);
            for (t, list) in keys(&d) {
                for k in list {
                    if !before[&t].contains(&k) {
                        seen.added.push((t.clone(), k));
                    }
                }
            }
            res
        }),
    );
    World { db, seen, session }
}

fn nodes(n: &Node) -> usize {
    1 + n.children().map(nodes).sum::<usize>()
}

/// Referenced rows were added before the row itself.
fn ordered(db: &Db, n: &Node, row: &[Cell], seen: &Seen, updated: bool) -> Result<(), String> {
    let at = |t: &str, k: &Cell| seen.added.iter().position(|x| x.0 == t && x.1 == *k);
    let t = db.table(n.table).unwrap();
    let own = if updated { Some(usize::MAX) } else { at(n.table, &key(t, row)) };
    for (name, x) in &n.set {
        if let Exp::Row(child) = x {
            let k = &row[t.index(name).unwrap()];
            let ct = db.table(child.table).unwrap();
            let r = ct
                .rows
                .iter()
                .find(|r| key(ct, r) == *k)
                .ok_or_else(|| format!("no row {k:?} in {}", child.table))?;
            match (at(child.table, k), own) {
                (Some(a), Some(b)) if a < b => (),
                x => return Err(format!("row {k:?} of {} not written before the one that refers to it: {x:?}", child.table)),
            }
            ordered(db, child, r, seen, false)?;
        }
    }
    Ok(())
}

/// The number of rows per table is the one before and the given.
fn counts(db: &Db, count: &HashMap<&'static str, usize>) -> Result<(), String> {
    for t in &db.tables {
        let want = 3 + count.get(&*t.name).copied().unwrap_or(0);
        if t.rows.len() != want {
            return Err(format!("{} rows in {} instead of {want}", t.rows.len(), t.name));
        }
    }
    Ok(())
}

/// All rows from before, except one, are still as they were.
fn untouched(db: &Db, except: Option<(&str, u32)>) -> Result<(), String> {
    let mut old = db.clone();
    old.tables.iter_mut().for_each(|t| t.rows.clear());
    prefill(&mut old);
    for (t, o) in db.tables.iter().zip(&old.tables) {
        for (got, want) in t.rows.iter().zip(&o.rows) {
            if got != want && except != Some((&t.name, 10 + o.rows.iter().position(|r| r == want).unwrap() as u32)) {
                return Err(format!("row {want:?} of {} became {got:?}", t.name));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Insert,
    Filled,
    Update,
}

fn run(m: &dyn Dyn, what: What, fail: Option<usize>, ch: &mut Chooser) -> Result<(), String> {
    // the tables of everything that can be reached
    let schema = |db: &mut Db| {
        let mut one = |_: usize| 0;
        m.fill(&mut Gen::new(0, &mut one)).1.schema(db);
    };
    let w = world(&schema, fail);
    let mut choose = |n: usize| ch.choose(n);
    let mut g = Gen::new(100, &mut choose);
    let target = 11;
    // a row that does not exist
    let missing = what == What::Update && g.pick(2) == 1;
    let mut described = None;
    let res: Result<Result<u64, mysql_connector::Error>, String> = rt::run(async {
        let mut conn = w.session.connect().await.map_err(|e| format!("connect: {e:?}"))?;
        let (node, fut) = match what {
            What::Insert => m.insert(&mut g, &mut conn),
            What::Filled => m.insert_filled(&mut g, &mut conn),
            What::Update => {
                let (n, f) = m.update(&mut g, if missing { 77 } else { target }, &mut conn);
                let f: shape::Fut<Result<u64, mysql_connector::Error>> = Box::pin(async move { f.await.map(|_| 0) });
                (n, f)
            }
        };
        described = Some(node);
        Ok(fut.await)
    })
    .map_err(|_| "hangs".to_owned())?;
    let res = res?;
    w.session.server_errors()?;
    let node = described.unwrap();
    let n = nodes(&node);
    let db = w.db.lock().unwrap();
    let seen = w.seen.lock().unwrap();
    let ctx = |e: String| format!("{}: {what:?} of {node:?}: {e}\nstatements: {:?}", m.name(), db.statements);
    let check = || -> Result<(), String> {
        untouched(&db, (what == What::Update && !missing).then_some((node.table, target)))?;
        if seen.failed {
            match &res {
                Err(e) if E::of(e) == E::server(&failure()) => (),
                other => return Err(format!("command {fail:?} failed, but the result is {other:?}")),
            }
            if seen.after_failure > 0 {
                return Err(format!("{} more commands after command {fail:?} failed", seen.after_failure));
            }
            // the row itself is the last to be written
            let mut count = HashMap::new();
            node.count(&mut count);
            let t = db.table(node.table).unwrap();
            if t.rows.len() >= 3 + count[node.table] && what != What::Update {
                return Err("the row was written although a command before failed".into());
            }
            return Ok(());
        }
        let id = res.as_ref().map_err(|e| format!("{e:?}"))?;
        let mut count = HashMap::new();
        node.count(&mut count);
        let t = db.table(node.table).unwrap();
        let writes = match what {
            What::Update => {
                *count.get_mut(node.table).unwrap() -= 1;
                if node.set.is_empty() && node.key.is_none() {
                    if seen.commands > 0 {
                        return Err(format!("{} commands although nothing is set", seen.commands));
                    }
                    0
                } else {
                    n
                }
            }
            _ => n,
        };
        counts(&db, &count)?;
        if db.writes.len() != writes {
            return Err(format!("{} writing statements instead of {writes}", db.writes.len()));
        }
        let row = match what {
            What::Update => {
                if missing {
                    return Ok(());
                }
                // rows keep their positions
                let row = &t.rows[1];
                // unset fields are as before
                let mut full = node.clone();
                full.key = Some(node.key.unwrap_or(target));
                let mut old = db.clone();
                old.tables.iter_mut().for_each(|t| t.rows.clear());
                prefill(&mut old);
                let old = &old.table(node.table).unwrap().rows[1];
                for (i, c) in t.cols.iter().enumerate() {
                    if c.org_name == "id" || node.set.iter().any(|x| x.0 == c.org_name) {
                        continue;
                    }
                    if row[i] != old[i] {
                        return Err(format!("{} was not set but changed from {:?} to {:?}", c.org_name, old[i], row[i]));
                    }
                    full.set(
                        node.cols.iter().find(|x| **x == c.org_name).unwrap(),
                        Exp::Val(old[i].clone()),
                    );
                }
                full.describes(&db, row)?;
                row
            }
            _ => {
                let want = match (node.key, node.auto) {
                    (Some(k), _) => k as u64,
                    (None, _) => *id,
                };
                let row = t
                    .rows
                    .iter()
                    .find(|r| key(t, r) == Cell::Int(want as i128))
                    .ok_or_else(|| format!("no row with key {want}, returned {id}"))?;
                node.describes(&db, row)?;
                if node.auto && *id != want {
                    return Err(format!("returned {id} instead of {want}"));
                }
                row
            }
        };
        ordered(&db, &node, row, &seen, what == What::Update)
    };
    check().map_err(ctx)
}

fn main() {
    let all = models::all();
    let all = &all;
    mc::main(
        "C18",
        Level {
            level: "exploration",
            rule: "every subset of set fields of every generated model, references set, inserted (with every subset again) or unset, is \
                   inserted or updated through the real client on an independent database engine behind the reference server; the whole \
                   content of the database, the order of writes and the result are compared with the described rows",
            assumptions: &[
                "models with three fields or less, and references to a depth of three, stand for larger ones",
                "every column has a default, so that any subset of fields can be inserted",
            ],
        },
        |run_| {
            let quick = run_.quick();
            let small: Vec<usize> = (0..all.len())
                .filter(|i| !quick || all[*i].refs().iter().filter(|x| x.1 == "Deep").count() == 0 && all[*i].refs().len() < 3)
                .collect();
            let small = &small;
            for (name, what) in [("inserts", What::Insert), ("updates", What::Update)] {
                run_.each(name, "all subsets of fields, all states of references, of all models", all.len(), |i, ch| {
                    run(&*all[i], what, None, ch)
                });
            }
            run_.each("inserts of whole models", "all models turned into active ones, all patterns of NULL", all.len(), |i, ch| {
                run(&*all[i], What::Filled, None, ch)
            });
            run_.each(
                "failing commands",
                "as above with the failure of every single prepare or execute (quick: models without deep references)",
                small.len(),
                |i, ch| {
                    let what = [What::Insert, What::Update, What::Filled][ch.choose(3)];
                    let k = ch.choose(8);
                    run(&*all[small[i]], what, Some(k), ch)
                },
            );
        },
    )
}

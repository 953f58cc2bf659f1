//! C23: migrations run in order, exactly once, and reach the requested version.
use std::{
    collections::BTreeSet,
    panic::{catch_unwind, AssertUnwindSafe},
};

use mc::{
    migr::{self, Call, Key, List, World},
    rt, Chooser, Level,
};
use mysql_connector::{MigrationList, Migrator, Version};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

type V = (u16, u16, u16);

const PALETTES: [[V; 3]; 4] = [
    [(0, 0, 1), (0, 1, 0), (1, 0, 0)],
    [(1, 9, 9), (1, 10, 0), (2, 0, 0)],
    [(0, 65535, 3), (1, 0, 2), (1, 1, 1)],
    [(0, 0, 255), (0, 0, 256), (256, 0, 0)],
];
const NAMES: [[&str; 2]; 3] = [["a", "b"], ["it's \"x\"", "back\\slash\\"], ["", "ünï%_`\n\0"]];

/// Migrations of three versions, up to two each.
fn list(palette: usize, names: usize, counts: [usize; 3]) -> &'static List {
    let mut keys: Vec<Key> = Vec::new();
    let mut empty = Vec::new();
    for (i, n) in counts.iter().enumerate() {
        let v = PALETTES[palette][i];
        if *n == 0 && i > 0 {
            empty.push(v);
        }
        for k in 0..*n {
            keys.push((v, NAMES[names][k]));
        }
    }
    migr::list(&keys, &empty)
}

/// `n` migrations, `per` of them in each version.
fn many(n: usize, per: usize) -> &'static List {
    let names: &'static Vec<&'static str> = {
        static NAMES: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
        NAMES.get_or_init(|| {
            (0..1100)
                .map(|i| {
                    let mut name = format!("m{i}");
                    if i % 7 == 3 {
                        // as long as a name can be
                        name.extend(std::iter::repeat('\u{1F600}').take(255 - name.len()));
                    }
                    &*name.leak()
                })
                .collect()
        })
    };
    let keys: Vec<Key> = (0..n)
        .map(|i| {
            let v = (i / per) as u16;
            ((v / 100, v / 10 % 10, v % 10), names[i])
        })
        .collect();
    migr::list(&keys, &[])
}

fn shapes(max: usize) -> Vec<[usize; 3]> {
    let mut out = Vec::new();
    for a in 0..=2 {
        for b in 0..=2 {
            for c in 0..=2 {
                if a + b + c <= max {
                    out.push([a, b, c]);
                }
            }
        }
    }
    out
}

fn calls(palette: usize) -> Vec<Call> {
    let mut targets: Vec<V> = vec![(0, 0, 0), (65535, 65535, 65535)];
    for v in PALETTES[palette] {
        targets.push(v);
        targets.push((v.0, v.1, v.2 + 1));
    }
    targets.sort();
    targets.dedup();
    let mut out = vec![Call::Up, Call::OneDown, Call::New];
    for t in targets {
        out.extend([Call::UpTo(t), Call::DownTo(t), Call::To(t)]);
    }
    out
}

fn history(list: &'static List, all: &[Call], depth: usize, ch: &mut Chooser) -> Result<(), String> {
    let n = list.keys.len();
    let set = ch.choose(1 << n);
    let applied: BTreeSet<usize> = (0..n).filter(|i| set >> i & 1 == 1).collect();
    from(list, applied, all, depth, ch)
}

/// Histories that begin with these applied.
fn from(list: &'static List, mut applied: BTreeSet<usize>, all: &[Call], depth: usize, ch: &mut Chooser) -> Result<(), String> {
    let table = if applied.is_empty() { ch.flag() } else { true };
    let reversed = applied.len() > 1 && ch.flag();
    let calls: Vec<Call> = (0..depth).map(|_| *ch.pick(all)).collect();
    let w = World::new(list, &applied, table, reversed);
    let pool = w.pool();
    let start = applied.clone();
    ch.note(|| format!("{:?} applied {start:?}, calls {calls:?}", list.keys));
    let mut steps = 0;
    let res = rt::run(async {
        let mut m = Migrator::new(&pool, list.lists).await.map_err(|e| format!("new: {e:?}"))?;
        if !w.steps().is_empty() {
            return Err("creating a migrator runs migrations".to_owned());
        }
        for (i, call) in calls.iter().enumerate() {
            let (expected, any) = migr::model(list, &mut applied, *call);
            let res = if *call == Call::New {
                m = Migrator::new(&pool, list.lists).await.map_err(|e| format!("new: {e:?}"))?;
                Ok(true)
            } else {
                migr::make(&mut m, *call).await
            };
            match res {
                Ok(x) if x == any => (),
                x => return Err(format!("call {i} returned {x:?}")),
            }
            let got = w.steps();
            steps += got.len() as u64;
            if got != expected {
                return Err(format!("call {i} made {got:?} instead of {expected:?}"));
            }
            let rec = w.recorded()?;
            if rec != applied {
                return Err(format!("after call {i} {rec:?} are recorded instead of {applied:?}"));
            }
            if w.effects() != applied {
                return Err(format!("after call {i} {:?} have an effect instead of {applied:?}", w.effects()));
            }
        }
        Ok(())
    })
    .unwrap_or_else(|_| Err("hangs".to_owned()))
    .and_then(|_| w.check());
    ch.steps(steps + 1);
    ch.state(&(&list.keys, &applied));
    ch.outcome(&(&list.keys, &applied));
    res.map_err(|e| format!("{:?} with {start:?} applied, calls {calls:?}: {e}\n{}", list.keys, w.log()))
}

/// A record that is none of the list.
fn unknown(list: &'static List, palette: usize, ch: &mut Chooser) -> Result<(), String> {
    let n = list.keys.len();
    let set = ch.choose(1 << n);
    let applied: BTreeSet<usize> = (0..n).filter(|i| set >> i & 1 == 1).collect();
    let mut versions: BTreeSet<V> = BTreeSet::from([(0, 0, 0), (65535, 65535, 65535)]);
    for v in PALETTES[palette] {
        versions.extend([
            v,
            (v.0, v.1, v.2 + 1),
            (v.0, v.1, v.2.saturating_sub(1)),
            (v.0, v.1 ^ 1, v.2),
            (v.0 ^ 1, v.1, v.2),
            (v.2, v.1, v.0),
        ]);
    }
    let versions: Vec<V> = versions.into_iter().collect();
    let v = *ch.pick(&versions);
    let name = *ch.pick(&["a", "b", "", "ab", "a ", "c"]);
    if list.keys.contains(&(v, name)) {
        ch.trivial();
        return Ok(());
    }
    let w = World::new(list, &applied, true, false);
    w.insert(if ch.flag() { 0 } else { applied.len() }, v, name);
    let (rows, effects) = (w.rows(), w.effects());
    ch.note(|| format!("{:?} applied {applied:?} and {v:?} {name:?}", list.keys));
    let pool = w.pool();
    let res = catch_unwind(AssertUnwindSafe(|| {
        rt::run(async { Migrator::new(&pool, list.lists).await.map(|_| ()) })
    }));
    let res = match res {
        Ok(Ok(Ok(()))) => Err("is taken for a migration of the list".to_owned()),
        Ok(Err(_)) => Err("hangs".to_owned()),
        Ok(Ok(Err(_))) => Ok(()),
        Err(_) => {
            rt::reset();
            Ok(())
        }
    };
    ch.steps(1);
    ch.state(&(&list.keys, &applied, v, name));
    ch.outcome(&(&list.keys, &applied));
    res.and_then(|_| match w.rows() == rows && w.effects() == effects && w.steps().is_empty() {
        true => Ok(()),
        false => Err("changes something".to_owned()),
    })
    .map_err(|e| format!("{:?} with {applied:?} applied, record {v:?} {name:?}: {e}\n{}", list.keys, w.log()))
}

mod simple {
    use mysql_connector::simple_migration;

    simple_migration!(First, "replace into `steps` (`id`) values (0)", "delete from `steps` where `id` = 0");
    simple_migration!(Second, "replace into `steps` (`id`) values (1)", "delete from `steps` where `id` = 1",);
    simple_migration!(Third, "replace into `steps` (`id`) values (2)", "delete from `steps` where `id` = 2");

    use mysql_connector::Migration;

    pub fn v1() -> &'static [&'static dyn Migration] {
        &[&First, &Second]
    }
    pub fn v2() -> &'static [&'static dyn Migration] {
        &[&Third]
    }
}

/// The macro's migrations.
fn simple_lists() -> (Vec<MigrationList>, &'static List) {
    let lists = vec![
        MigrationList {
            version: Version(0, 0, 1),
            migrations: simple::v1(),
        },
        MigrationList {
            version: Version(0, 2, 0),
            migrations: simple::v2(),
        },
    ];
    let keys = [((0, 0, 1), "First"), ((0, 0, 1), "Second"), ((0, 2, 0), "Third")];
    (lists, migr::list(&keys, &[]))
}

fn main() {
    mc::main(
        "C23",
        Level {
            level: "model_checking",
            rule: "every history of calls on real migrators over a reference database: the steps that ran, in order, the rows of \
                   `migrations` and what the steps did are compared with a model after every call",
            assumptions: &[
                "names of migrations are different under the collation of the server",
                "three versions with up to two migrations each stand for more",
            ],
        },
        |run| {
            let quick = run.quick();
            let shapes1 = shapes(6);
            run.each(
                "one call",
                "all lists, all applied subsets in both orders, all calls and target versions around those of the list",
                shapes1.len(),
                |i, ch| {
                    let p = ch.choose(PALETTES.len());
                    let l = list(p, ch.choose(NAMES.len()), shapes1[i]);
                    history(l, &calls(p), 1, ch)
                },
            );
            let shapes2 = shapes(if quick { 4 } else { 6 });
            run.each(
                "two calls",
                "lists of four (thorough: six) migrations, all applied subsets, all pairs of calls",
                shapes2.len(),
                |i, ch| {
                    let p = ch.choose(if quick { 1 } else { 4 });
                    history(list(p, 0, shapes2[i]), &calls(p), 2, ch)
                },
            );
            let shapes3 = if quick { vec![[1, 0, 1], [1, 1, 0]] } else { shapes(4) };
            run.each(
                "three calls",
                "lists of two (thorough: four) migrations, all applied subsets, all triples of calls",
                shapes3.len(),
                |i, ch| history(list(0, 0, shapes3[i]), &calls(0), 3, ch),
            );
            let sizes = run.by(vec![3, 10, 33, 65, 130, 257], vec![3, 10, 33, 65, 100, 130, 257, 300]);
            run.each(
                "many migrations",
                "up to 257 (thorough: 300) migrations in one version, in versions of 7 or of their own, with names of up to 255 \
                 characters, of which none, all, all but the first, the last or one in the middle, the first, half or every second \
                 are applied; all pairs of calls",
                sizes.len(),
                |i, ch| {
                    let n = sizes[i];
                    let per = *ch.pick(&[1, 7, n]);
                    let list = many(n, per);
                    let all = 0..n;
                    let applied: BTreeSet<usize> = match ch.choose(8) {
                        0 => BTreeSet::new(),
                        1 => all.collect(),
                        2 => all.skip(1).collect(),
                        3 => all.take(n - 1).collect(),
                        4 => all.filter(|x| *x != n / 2).collect(),
                        5 => all.take(1).collect(),
                        6 => all.take(n / 2).collect(),
                        _ => all.filter(|x| x % 2 == 1).collect(),
                    };
                    let v = list.keys[n * 2 / 3].0;
                    let calls = [
                        Call::Up,
                        Call::OneDown,
                        Call::New,
                        Call::UpTo(v),
                        Call::To(v),
                        Call::DownTo(v),
                        Call::DownTo((0, 0, 0)),
                    ];
                    from(list, applied, &calls, 2, ch)
                },
            );
            run.each(
                "unknown records",
                "lists of up to four (thorough: six) migrations, all applied subsets and one record besides, first or last, of any \
                 version of the list, next to it, 0 or the greatest, with each name of the list, a part of one, one that is longer or \
                 another: creating a migrator is refused and changes nothing",
                shapes2.len(),
                |i, ch| {
                    let p = ch.choose(if quick { 2 } else { 4 });
                    unknown(list(p, 0, shapes2[i]), p, ch)
                },
            );
            run.space(
                "simple migrations",
                "migrations of the macro, all applied subsets, all pairs of calls",
                |ch| {
                    let (lists, list) = simple_lists();
                    let set = ch.choose(8);
                    let mut applied: BTreeSet<usize> = (0..3).filter(|i| set >> i & 1 == 1).collect();
                    let calls: Vec<Call> = (0..2)
                        .map(|_| *ch.pick(&[Call::Up, Call::OneDown, Call::To((0, 0, 1)), Call::DownTo((0, 0, 0)), Call::UpTo((0, 1, 0))]))
                        .collect();
                    let w = World::new(list, &applied, true, false);
                    let pool = w.pool();
                    rt::run(async {
                        let mut m = Migrator::new(&pool, &lists).await.map_err(|e| format!("new: {e:?}"))?;
                        for c in &calls {
                            let (_, any) = migr::model(list, &mut applied, *c);
                            match migr::make(&mut m, *c).await {
                                Ok(x) if x == any => (),
                                x => return Err(format!("{c:?} returned {x:?}")),
                            }
                            if w.effects() != applied || w.recorded()? != applied {
                                return Err(format!("{c:?}: effects {:?} instead of {applied:?}", w.effects()));
                            }
                        }
                        Ok(())
                    })
                    .unwrap_or_else(|_| Err("hangs".to_owned()))
                    .map_err(|e| format!("calls {calls:?}: {e}\n{}", w.log()))
                },
            );
            let corners = [0u16, 1, 2, 9, 10, 255, 256, 65535];
            run.space(
                "versions",
                "the order of all versions of corners, and of all lists of up to three of some",
                |ch| {
                    let mut v = || -> V { (*ch.pick(&corners), *ch.pick(&corners), *ch.pick(&corners)) };
                    let (a, b) = (v(), v());
                    let (x, y) = (Version(a.0, a.1, a.2), Version(b.0, b.1, b.2));
                    if x.cmp(&y) != a.cmp(&b) || x.partial_cmp(&y) != a.partial_cmp(&b) || (x == y) != (a == b) {
                        return Err(format!("{x} and {y} compare as {:?}", x.cmp(&y)));
                    }
                    let make = |l: &[V]| -> bool {
                        let l: Vec<MigrationList> = l
                            .iter()
                            .map(|v| MigrationList {
                                version: Version(v.0, v.1, v.2),
                                migrations: &[],
                            })
                            .collect();
                        MigrationList::ordered(&l)
                    };
                    let c = (1, 0, 2);
                    for l in [&[a, b][..], &[a], &[a, b, c], &[a, c, b], &[c, a, b]] {
                        if make(l) != l.windows(2).all(|w| w[0] < w[1]) {
                            return Err(format!("ordered({l:?}) is {}", make(l)));
                        }
                    }
                    Ok(())
                },
            );
        },
    )
}

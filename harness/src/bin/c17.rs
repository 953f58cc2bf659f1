//! C17: rows map to model fields by name.
#[path = "../models.rs"]
mod models;
pub use mc::shape;

use std::sync::{Arc, Mutex};

use mc::{
    drive::Session,
    mock::Plan,
    rt, scen,
    server::{Cfg, Cmd},
    shape::{Dyn, Gen, Node},
    sql::{self, Db, SharedDb},
    wire::{ty, Cell, Col, End, OkData, Reply},
    Chooser, Level,
};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

/// The result of the query of a model, and the models in it.
#[derive(Clone)]
struct Sample {
    sql: String,
    cols: Vec<Col>,
    rows: Vec<Vec<Cell>>,
    expected: Vec<String>,
    root: Node,
}

fn sample(m: &dyn Dyn, nulls: usize) -> Result<Sample, String> {
    let mut db = Db::new();
    let mut expected = Vec::new();
    let mut root = None;
    let mut bit = nulls;
    let mut choose = |_: usize| {
        bit = bit.rotate_right(1);
        bit >> (usize::BITS - 1)
    };
    let mut g = Gen::new(100, &mut choose);
    for i in 0..3 {
        let (text, node) = m.fill(&mut g);
        node.schema(&mut db);
        node.store(&mut db);
        // rows nobody refers to
        node.children().for_each(|x| {
            let mut other = x.clone();
            other.key = other.key.map(|x| x + 500_000 + i);
            other.store_only(&mut db);
        });
        expected.push(text);
        root = Some(node);
    }
    let sql = m.query();
    match db.exec(sql.as_bytes(), &[]) {
        Ok(Reply::Rows { cols, rows, .. }) => Ok(Sample {
            sql,
            cols,
            rows,
            expected,
            root: root.unwrap(),
        }),
        x => Err(format!("{}: the query {sql} returns {x:?}", m.name())),
    }
}

trait StoreOnly {
    fn store_only(&self, db: &mut Db);
}

impl StoreOnly for Node {
    fn store_only(&self, db: &mut Db) {
        let t = db.tables.iter_mut().find(|x| x.name == self.table).unwrap();
        let mut row = vec![Cell::Int(9); t.cols.len()];
        row[t.index("id").unwrap()] = Cell::Int(self.key.unwrap() as i128);
        t.rows.push(row);
    }
}

/// Reads these rows as models.
fn read(m: &dyn Dyn, cols: &[Col], rows: &[Vec<Cell>], binary: bool, deprecate: bool) -> Result<Vec<Result<String, String>>, String> {
    let reply = Reply::Rows {
        cols: cols.to_vec(),
        rows: rows.to_vec(),
        end: End::Ok(OkData::new(0, 0)),
    };
    let session = Session::new(
        Cfg {
            caps: scen::caps(deprecate),
            ..Cfg::default()
        },
        Plan::default(),
        Box::new(move |cmd| match cmd {
            Cmd::Query(_) | Cmd::Execute { .. } => vec![reply.clone()],
            Cmd::Prepare(_) => vec![Reply::Prepared {
                id: 1,
                params: 0,
                cols: Vec::new(),
            }],
            _ => Vec::new(),
        }),
    );
    let res = rt::run(async {
        let mut conn = session.connect().await.map_err(|e| format!("connect: {e:?}"))?;
        m.read(&mut conn, binary).await
    })
    .map_err(|_| "hangs".to_owned())?;
    session.server_errors()?;
    res.map_err(|e| format!("{}: {e}", m.name()))
}

fn names(cols: &[Col]) -> String {
    cols.iter().map(|c| format!("{}.{} ", c.table, c.org_name)).collect()
}

fn expect(s: &Sample, m: &dyn Dyn, cols: &[Col], rows: &[Vec<Cell>], ch: &mut Chooser) -> Result<(), String> {
    let binary = ch.flag();
    let got = read(m, cols, rows, binary, true)?;
    let want: Vec<Result<String, String>> = s.expected.iter().cloned().map(Ok).collect();
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b);
        return Err(format!(
            "{}: columns {}: {} rows instead of {}, row {at:?} is read as {:?} instead of {:?}",
            m.name(),
            names(cols),
            got.len(),
            want.len(),
            at.map(|i| &got[i]),
            at.map(|i| &want[i])
        ));
    }
    Ok(())
}

fn expect_errors(m: &dyn Dyn, what: &str, cols: &[Col], rows: &[Vec<Cell>], binary: bool) -> Result<(), String> {
    for (i, x) in read(m, cols, rows, binary, true)?.into_iter().enumerate() {
        if let Ok(x) = x {
            return Err(format!("{}: {what}: columns {}: row {i} is read as {x}", m.name(), names(cols)));
        }
    }
    Ok(())
}

/// Applies the order to columns and rows.
fn order(s: &Sample, order: &[usize]) -> (Vec<Col>, Vec<Vec<Cell>>) {
    (
        order.iter().map(|i| s.cols[*i].clone()).collect(),
        s.rows
            .iter()
            .map(|r| order.iter().map(|i| r[*i].clone()).collect())
            .collect(),
    )
}

/// All orders of few columns, all exchanges, moves, rotations and the reverse of many.
fn orders(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    let id: Vec<usize> = (0..n).collect();
    if n <= max {
        fn rec(rest: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            if rest.is_empty() {
                out.push(cur.clone());
            }
            for i in 0..rest.len() {
                let x = rest.remove(i);
                cur.push(x);
                rec(rest, cur, out);
                cur.pop();
                rest.insert(i, x);
            }
        }
        rec(&mut id.clone(), &mut Vec::new(), &mut out);
        return out;
    }
    for i in 0..n {
        for j in 0..n {
            let mut a = id.clone();
            let x = a.remove(i);
            a.insert(j, x);
            out.push(a);
            if i < j {
                let mut a = id.clone();
                a.swap(i, j);
                out.push(a.clone());
                a.reverse();
                out.push(a);
            }
        }
        let mut a = id.clone();
        a.rotate_left(i);
        out.push(a.clone());
        a.reverse();
        out.push(a);
    }
    out.sort();
    out.dedup();
    out
}

/// Every name of a column the model reads.
fn used(n: &Node, out: &mut Vec<String>) {
    out.push("id".into());
    for c in n.cols {
        if !n.set.iter().any(|x| x.0 == *c && matches!(x.1, mc::shape::Exp::Row(_))) {
            out.push(c.to_string());
        }
    }
    n.children().for_each(|x| used(x, out));
}

/// Columns that are not part of the model.
fn extras(s: &Sample, m: &dyn Dyn) -> Vec<Col> {
    let mut known = Vec::new();
    used(&s.root, &mut known);
    let mut names: Vec<String> = ["zzz", "", "i", "idx", "_id", "id_", "x", "y", "root", "mid", "map", "type", "u", "v"]
        .iter()
        .map(|x| x.to_string())
        .collect();
    let root = m.table();
    names.push(root.to_owned());
    for c in s.root.cols.iter() {
        names.push(format!("{c}_"));
        names.push(format!("{c}x"));
        names.push(format!("{root}.{c}"));
        names.push(c[..c.len() - 1].to_owned());
        if let Some((a, b)) = c.rsplit_once('_') {
            names.push(a.to_owned());
            names.push(b.to_owned());
        }
    }
    // columns that hold references
    names.extend(m.refs().iter().map(|x| x.0.to_owned()));
    names.sort();
    names.dedup();
    names.retain(|x| !known.contains(x));
    let mut tables: Vec<String> = vec![
        "".into(),
        root.into(),
        root[..root.len() - 1].into(),
        format!("{root}."),
        format!("{root}.zzz"),
        format!("{root}x"),
        ".".into(),
        "other".into(),
        "map".into(),
    ];
    for (field, _) in m.refs() {
        tables.push(format!("{root}.{field}"));
        tables.push(format!("{root}.{field}."));
        tables.push(format!("{root}.{field}x"));
        tables.push(format!("{root}.{field}.zzz"));
        tables.push(format!("{root}.{field}.{field}"));
        tables.push(field.to_string());
    }
    tables.sort();
    tables.dedup();
    let mut out = Vec::new();
    for t in &tables {
        for n in &names {
            let mut c = Col::of(t, n, ty::VAR_STRING, 0);
            c.name = n.clone();
            out.push(c);
        }
    }
    out
}

fn main() {
    let all = models::all();
    let all = &all;
    mc::main(
        "C17",
        Level {
            level: "exploration",
            rule: "for every generated model the result of its own query, computed by an independent database, is sent by a reference \
                   server with its columns rearranged, extended, reduced or changed; the model read is compared with the one stored",
            assumptions: &[
                "models with three fields or less, and references to a depth of three, stand for larger ones",
                "the tables and names of columns in results are those of MySQL: the alias, the name and the original name",
            ],
        },
        |run| {
            let samples: Vec<Result<Sample, String>> = all.iter().map(|m| sample(&**m, 0b0110_1001)).collect();
            let samples = &samples;
            let get = |i: usize| -> Result<&Sample, String> { samples[i].as_ref().map_err(Clone::clone) };
            run.each(
                "own queries",
                "every model, every pattern of NULL, through the database and both protocols",
                all.len(),
                |i, ch| {
                    let m = &*all[i];
                    let s = sample(m, ch.choose(8))?;
                    let binary = ch.flag();
                    let deprecate = ch.flag();
                    if s.rows.len() != 3 {
                        return Err(format!("{}: the query {} returns {} rows instead of 3", m.name(), s.sql, s.rows.len()));
                    }
                    let got = read(m, &s.cols, &s.rows, binary, deprecate)?;
                    let want: Vec<Result<String, String>> = s.expected.iter().cloned().map(Ok).collect();
                    if got != want {
                        return Err(format!("{}: {} is read as {got:?} instead of {want:?}", m.name(), s.sql));
                    }
                    // with the server really executing the statement
                    let db: SharedDb = Arc::new(Mutex::new(Db::new()));
                    {
                        let mut db = db.lock().unwrap();
                        s.root.schema(&mut db);
                        s.root.store(&mut db);
                    }
                    let session = Session::new(Cfg::default(), Plan::default(), sql::handler(&db));
                    let got = rt::run(async {
                        let mut conn = session.connect().await.map_err(|e| format!("connect: {e:?}"))?;
                        m.read(&mut conn, binary).await
                    })
                    .map_err(|_| "hangs".to_owned())??;
                    session.server_errors()?;
                    if got.len() != 1 || got[0] != Ok(s.expected[2].clone()) {
                        return Err(format!("{}: {} is read as {got:?}", m.name(), s.sql));
                    }
                    Ok(())
                },
            );
            let max = run.by(6, 7);
            run.each(
                "orders of columns",
                "all orders of up to 6 (thorough: 7) columns, all exchanges, moves and rotations of more",
                all.len(),
                |i, ch| {
                    let s = get(i)?;
                    let list = orders(s.cols.len(), max);
                    let o = ch.pick(&list);
                    let (cols, rows) = order(s, o);
                    expect(s, &*all[i], &cols, &rows, ch)
                },
            );
            let pairs = !run.quick();
            run.each(
                "more columns",
                "one additional column (thorough: also two) of every name and table near those of the model, at every kind of position",
                all.len(),
                |i, ch| {
                    let m = &*all[i];
                    let s = get(i)?;
                    let list = extras(s, m);
                    let (mut cols, mut rows) = (s.cols.clone(), s.rows.clone());
                    if ch.flag() {
                        cols.reverse();
                        rows.iter_mut().for_each(|r| r.reverse());
                    }
                    let mut add = |col: &Col, at: usize| {
                        cols.insert(at, col.clone());
                        for r in &mut rows {
                            r.insert(at, Cell::from("4242"));
                        }
                    };
                    add(ch.pick(&list), [0, s.cols.len(), 1][ch.choose(if pairs { 3 } else { 2 })]);
                    if pairs && ch.flag() {
                        let near = [Col::of(m.table(), "zzz", ty::VAR_STRING, 0), Col::of("", "", ty::VAR_STRING, 0)];
                        add(ch.pick(&near), [0, s.cols.len()][ch.choose(2)]);
                    }
                    expect(s, m, &cols, &rows, ch)
                },
            );
            run.each(
                "missing columns",
                "every set of missing columns (up to 3 missing or 3 left of many)",
                all.len(),
                |i, ch| {
                    let m = &*all[i];
                    let s = get(i)?;
                    let n = s.cols.len();
                    let mut keep: Vec<usize> = Vec::new();
                    if n <= 8 {
                        let set = ch.choose((1 << n) - 1);
                        keep.extend((0..n).filter(|i| set >> i & 1 == 1));
                    } else {
                        let mut chosen = vec![ch.choose(n), ch.choose(n), ch.choose(n)];
                        chosen.sort();
                        chosen.dedup();
                        let inverted = ch.flag();
                        keep.extend((0..n).filter(|i| chosen.contains(i) == inverted));
                    }
                    let binary = ch.flag();
                    // a result without columns is none
                    let (mut cols, mut rows) = order(s, &keep);
                    if ch.flag() || cols.is_empty() {
                        cols.push(Col::of(m.table(), "zzz", ty::LONG, 0));
                        rows.iter_mut().for_each(|r| r.push(Cell::Int(1)));
                    }
                    expect_errors(m, "missing columns", &cols, &rows, binary)
                },
            );
            run.each(
                "values that do not fit",
                "every column with every kind of value that does not fit its field",
                all.len(),
                |i, ch| {
                    let m = &*all[i];
                    let s = get(i)?;
                    let at = ch.choose(s.cols.len());
                    let binary = ch.flag();
                    let (mut cols, mut rows) = (s.cols.clone(), s.rows.clone());
                    let bad = [
                        (ty::LONG, 32, Cell::Null),
                        (ty::LONGLONG, 0, Cell::Int(-1)),
                        (ty::LONGLONG, 0, Cell::Int(1 << 32)),
                        (ty::LONGLONG, 32, Cell::Int(u64::MAX as i128)),
                        (ty::VAR_STRING, 0, Cell::from("x")),
                        (ty::DATE, 0, Cell::Date(2024, 1, 2)),
                        (ty::TIME, 0, Cell::Time(false, 0, 1, 2, 3, 0)),
                        (ty::BLOB, 0, Cell::Bytes(vec![0xFF, 0])),
                    ];
                    let (t, flags, cell) = ch.pick(&bad).clone();
                    let c = &s.cols[at];
                    if cell == Cell::Null && c.table == m.table() && m.optional().contains(&c.org_name.as_str()) {
                        ch.trivial();
                        return Ok(());
                    }
                    if m.typed() && cell != Cell::Null {
                        // what fits other types is the matter of C13
                        ch.trivial();
                        return Ok(());
                    }
                    cols[at].ty = t;
                    cols[at].flags = flags;
                    rows.iter_mut().for_each(|r| r[at] = cell.clone());
                    expect_errors(m, &format!("{cell:?} in column {at}"), &cols, &rows, binary)
                },
            );
        },
    )
}

//! What the checks of models need to know about a derived model.
use std::{collections::HashMap, future::Future, pin::Pin};

use mysql_connector::{
    error::{Error, ProtocolError},
    model::{ActiveModel, FromQueryResult, HasActiveModel, IntoQuery, Model, ModelData, UpdateModel},
    Connection,
};

use crate::{
    sql::{self, Db, Table},
    wire::{ty, Cell, Col, UNSIGNED},
};

/// Source of values, all of them different, and of choices.
pub struct Gen<'a> {
    choose: &'a mut dyn FnMut(usize) -> usize,
    next: u32,
}

impl<'a> Gen<'a> {
    pub fn new(first: u32, choose: &'a mut dyn FnMut(usize) -> usize) -> Self {
        Self { choose, next: first }
    }
    pub fn pick(&mut self, n: usize) -> usize {
        (self.choose)(n)
    }
    pub fn value(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    pub fn id(&mut self, _table: &str) -> u32 {
        self.value()
    }
    pub fn optional(&mut self) -> Option<u32> {
        (self.pick(2) == 0).then(|| self.value())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Int(u32),
    /// of another type
    Val(Cell),
    Null,
    Row(Node),
}

impl Exp {
    pub fn opt(x: Option<u32>) -> Self {
        x.map_or(Exp::Null, Exp::Int)
    }
}

/// A row and the rows it refers to.
#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub table: &'static str,
    pub cols: &'static [&'static str],
    pub types: &'static [(&'static str, u8, u16)],
    pub auto: bool,
    pub key: Option<u32>,
    pub set: Vec<(&'static str, Exp)>,
}

pub fn make_table(name: &str, cols: &[&str], types: &[(&str, u8, u16)], auto: bool, first: u64) -> Table {
    let mut t = Table::new(
        name,
        cols.iter()
            .map(|c| {
                let (_, t, flags) = types.iter().find(|x| x.0 == *c).copied().unwrap_or(("", ty::LONG, UNSIGNED));
                Col::of(name, c, t, flags)
            })
            .collect(),
    );
    let id = t.index("id").unwrap();
    t.unique.push(vec![id]);
    t.auto = auto.then_some(id);
    t.next = first;
    t
}

impl Node {
    pub fn new<M: Shape>(key: Option<u32>) -> Self {
        Self {
            table: M::TABLE,
            cols: M::COLS,
            types: M::TYPES,
            auto: M::AUTO,
            key,
            set: Vec::new(),
        }
    }

    pub fn set(&mut self, name: &'static str, x: Exp) {
        self.set.push((name, x));
    }

    pub fn children(&self) -> impl Iterator<Item = &Node> {
        self.set.iter().filter_map(|x| match &x.1 {
            Exp::Row(n) => Some(n),
            _ => None,
        })
    }

    /// Creates the tables of this row and all rows below.
    pub fn schema(&self, db: &mut Db) {
        if db.table(self.table).is_none() {
            let first = 1_000_000 * (db.tables.len() as u64 + 1);
            db.tables.push(make_table(self.table, self.cols, self.types, self.auto, first));
        }
        self.children().for_each(|x| x.schema(db));
    }

    /// Stores this row and all rows below.
    pub fn store(&self, db: &mut Db) {
        self.children().for_each(|x| x.store(db));
        let t = db.tables.iter_mut().find(|x| x.name == self.table).unwrap();
        let mut row = vec![sql::default(); t.cols.len()];
        row[t.index("id").unwrap()] = Cell::Int(self.key.unwrap() as i128);
        for (name, x) in &self.set {
            row[t.index(name).unwrap()] = match x {
                Exp::Int(x) => Cell::Int(*x as i128),
                Exp::Val(x) => x.clone(),
                Exp::Null => Cell::Null,
                Exp::Row(n) => Cell::Int(n.key.unwrap() as i128),
            };
        }
        t.rows.push(row);
    }

    pub fn count(&self, out: &mut HashMap<&'static str, usize>) {
        *out.entry(self.table).or_default() += 1;
        self.children().for_each(|x| x.count(out));
    }

    /// Whether this row of the database is what this node describes, besides its key.
    pub fn describes(&self, db: &Db, row: &[Cell]) -> Result<(), String> {
        let t = db.table(self.table).unwrap();
        for (i, col) in t.cols.iter().enumerate() {
            let got = &row[i];
            let name = col.org_name.as_str();
            let want = if name == "id" {
                match self.key {
                    Some(x) => Cell::Int(x as i128),
                    None => continue,
                }
            } else {
                match self.set.iter().find(|x| x.0 == name).map(|x| &x.1) {
                    None => sql::default(),
                    Some(Exp::Int(x)) => Cell::Int(*x as i128),
                    Some(Exp::Val(x)) => x.clone(),
                    Some(Exp::Null) => Cell::Null,
                    Some(Exp::Row(n)) => {
                        let child = db.table(n.table).unwrap();
                        let id = child.index("id").unwrap();
                        match child.rows.iter().find(|x| &x[id] == got) {
                            Some(x) => n.describes(db, x)?,
                            None => {
                                return Err(format!(
                                    "{}.{name} is {got:?}, which is no row of {}",
                                    self.table, n.table
                                ))
                            }
                        }
                        continue;
                    }
                }
            };
            if *got != want {
                return Err(format!("{}.{name} is {got:?} instead of {want:?}", self.table));
            }
        }
        Ok(())
    }
}

pub trait Shape: IntoQuery + FromQueryResult + Model + HasActiveModel + 'static {
    const NAME: &'static str;
    const COLS: &'static [&'static str];
    const AUTO: bool;
    /// Columns that hold no `u32`: name, type and flags.
    const TYPES: &'static [(&'static str, u8, u16)] = &[];
    const OPTIONAL: &'static [&'static str];
    const REFS: &'static [(&'static str, &'static str)];
    fn fill(g: &mut Gen) -> Self;
    fn node(&self) -> Node;
    fn fill_node(g: &mut Gen) -> (Self, Node) {
        let m = Self::fill(g);
        let n = m.node();
        (m, n)
    }
    fn active(g: &mut Gen) -> (<Self as HasActiveModel>::ActiveModel, Node);
    fn fields(g: &mut Gen, a: &mut <Self as HasActiveModel>::ActiveModel, n: &mut Node);
    fn update(g: &mut Gen, key: u32) -> (UpdateModel<Self>, Node);
}

pub type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;

pub trait Dyn: Send + Sync {
    fn name(&self) -> &'static str;
    fn table(&self) -> &'static str;
    fn optional(&self) -> &'static [&'static str];
    /// Whether a field holds no `u32`.
    fn typed(&self) -> bool;
    fn refs(&self) -> &'static [(&'static str, &'static str)];
    fn query(&self) -> String;
    /// As `Debug` shows it.
    fn fill(&self, g: &mut Gen) -> (String, Node);
    fn read<'a>(&self, conn: &'a mut Connection, binary: bool) -> Fut<'a, Result<Vec<Result<String, String>>, String>>;
    fn insert<'a>(&self, g: &mut Gen, conn: &'a mut Connection) -> (Node, Fut<'a, Result<u64, Error>>);
    fn insert_filled<'a>(&self, g: &mut Gen, conn: &'a mut Connection) -> (Node, Fut<'a, Result<u64, Error>>);
    fn update<'a>(&self, g: &mut Gen, key: u32, conn: &'a mut Connection) -> (Node, Fut<'a, Result<(), Error>>);
}

struct Of<M>(std::marker::PhantomData<fn() -> M>);

pub fn boxed<M: Shape>() -> Box<dyn Dyn> {
    Box::new(Of::<M>(std::marker::PhantomData))
}

macro_rules! rows {
    ($rs:expr) => {{
        let mut rs = $rs.await.map_err(|e| format!("query: {e:?}"))?;
        let mut out = Vec::new();
        loop {
            match rs.next().await {
                Ok(Some(x)) => out.push(Ok(format!("{x:?}"))),
                Ok(None) => return Ok(out),
                Err(Error::Protocol(ProtocolError::Parse(e))) => out.push(Err(format!("{e:?}"))),
                Err(e) => return Err(format!("{e:?}")),
            }
        }
    }};
}

impl<M: Shape> Dyn for Of<M> {
    fn name(&self) -> &'static str {
        M::NAME
    }
    fn table(&self) -> &'static str {
        <M as ModelData>::TABLE
    }
    fn optional(&self) -> &'static [&'static str] {
        M::OPTIONAL
    }
    fn typed(&self) -> bool {
        !M::TYPES.is_empty()
    }
    fn refs(&self) -> &'static [(&'static str, &'static str)] {
        M::REFS
    }
    fn query(&self) -> String {
        M::build_query()
    }
    fn fill(&self, g: &mut Gen) -> (String, Node) {
        let (m, n) = M::fill_node(g);
        (format!("{m:?}"), n)
    }
    fn read<'a>(&self, conn: &'a mut Connection, binary: bool) -> Fut<'a, Result<Vec<Result<String, String>>, String>> {
        Box::pin(async move {
            let sql = M::build_query();
            if binary {
                let mut stmt = conn.prepare_statement(&sql).await.map_err(|e| format!("prepare: {e:?}"))?;
                rows!(stmt.query::<mysql_connector::types::Value, M>(&[]))
            } else {
                rows!(conn.query::<M>(&sql))
            }
        })
    }
    fn insert<'a>(&self, g: &mut Gen, conn: &'a mut Connection) -> (Node, Fut<'a, Result<u64, Error>>) {
        let (m, n) = M::active(g);
        (n, Box::pin(async move { m.insert(conn).await }))
    }
    fn insert_filled<'a>(&self, g: &mut Gen, conn: &'a mut Connection) -> (Node, Fut<'a, Result<u64, Error>>) {
        let (m, mut n) = M::fill_node(g);
        fn forget(n: &mut Node) {
            if n.auto {
                n.key = None;
            }
            for x in &mut n.set {
                if let Exp::Row(n) = &mut x.1 {
                    forget(n);
                }
            }
        }
        forget(&mut n);
        (n, Box::pin(async move { m.into_active_model().insert(conn).await }))
    }
    fn update<'a>(&self, g: &mut Gen, key: u32, conn: &'a mut Connection) -> (Node, Fut<'a, Result<(), Error>>) {
        let (m, n) = M::update(g, key);
        (n, Box::pin(async move { m.update(conn).await }))
    }
}

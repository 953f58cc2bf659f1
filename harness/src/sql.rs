//! A small database with the part of SQL a client library sends by itself. It is independent
//! of the exact text of the statements.
use std::{
    collections::HashMap,
    sync::{Arc, Mutex},
};

use crate::{
    server::{Cmd, Handler},
    wire::{ty, Cell, Col, End, ErrData, OkData, Reply},
};

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    /// text, whether it was quoted
    Id(String, bool),
    Str(Vec<u8>),
    Num(i128),
    Param,
    Sym(char),
}

fn tokens(sql: &[u8]) -> Result<Vec<Tok>, String> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < sql.len() {
        let c = sql[i];
        let rest = &sql[i..];
        if c.is_ascii_whitespace() {
            i += 1;
        } else if rest.starts_with(b"/*") {
            i += 2 + rest[2..].windows(2).position(|x| x == b"*/").ok_or("comment without end")? + 2;
        } else if c == b'#' || rest.starts_with(b"-- ") {
            i += rest.iter().position(|x| *x == b'\n').unwrap_or(rest.len());
        } else if c == b'`' || c == b'\'' || c == b'"' {
            let mut text = Vec::new();
            i += 1;
            loop {
                let x = *sql.get(i).ok_or("quote without end")?;
                i += 1;
                if x == c {
                    if sql.get(i) == Some(&c) {
                        i += 1;
                    } else {
                        break;
                    }
                } else if x == b'\\' && c != b'`' {
                    let x = *sql.get(i).ok_or("quote without end")?;
                    i += 1;
                    text.push(match x {
                        b'0' => 0,
                        b'b' => 8,
                        b'n' => b'\n',
                        b'r' => b'\r',
                        b't' => b'\t',
                        b'Z' => 26,
                        x => x,
                    });
                    continue;
                }
                text.push(x);
            }
            out.push(if c == b'`' {
                Tok::Id(String::from_utf8(text).map_err(|_| "invalid name")?, true)
            } else {
                Tok::Str(text)
            });
        } else if c.is_ascii_digit() {
            let n = rest.iter().position(|x| !x.is_ascii_digit()).unwrap_or(rest.len());
            out.push(Tok::Num(String::from_utf8_lossy(&rest[..n]).parse().map_err(|_| "number")?));
            i += n;
        } else if c.is_ascii_alphabetic() || c == b'_' || c == b'@' || c >= 128 {
            let n = rest
                .iter()
                .position(|x| !(x.is_ascii_alphanumeric() || b"_@$".contains(x) || *x >= 128))
                .unwrap_or(rest.len());
            out.push(Tok::Id(String::from_utf8(rest[..n].to_vec()).map_err(|_| "invalid name")?, false));
            i += n;
        } else if c == b'?' {
            out.push(Tok::Param);
            i += 1;
        } else {
            out.push(Tok::Sym(c as char));
            i += 1;
        }
    }
    while out.last() == Some(&Tok::Sym(';')) {
        out.pop();
    }
    Ok(out)
}

#[derive(Clone, Debug)]
enum Expr {
    Lit(Cell),
    Col(Option<String>, String),
    Param(usize),
    /// of the current database
    Database,
    /// the value that would be inserted
    Values(String),
    Count,
    Default,
}

type Conds = Vec<(Expr, Expr)>;

#[derive(Clone, Debug)]
struct From {
    schema: Option<String>,
    table: String,
    alias: String,
    on: Conds,
}

#[derive(Clone, Debug)]
enum Stmt {
    Insert {
        table: String,
        ignore: bool,
        replace: bool,
        cols: Option<Vec<String>>,
        rows: Vec<Vec<Expr>>,
        dup: Vec<(String, Expr)>,
    },
    Update {
        table: String,
        set: Vec<(String, Expr)>,
        cond: Conds,
    },
    Delete {
        table: String,
        cond: Conds,
    },
    Select {
        items: Vec<(Option<String>, Option<Expr>, String)>,
        from: Vec<From>,
        cond: Conds,
        limit: Option<usize>,
    },
    Create {
        table: Table,
        if_not_exists: bool,
    },
    Drop {
        table: String,
        if_exists: bool,
    },
    Nothing,
}

struct Parser {
    toks: Vec<Tok>,
    at: usize,
    params: usize,
}

type Res<T> = Result<T, String>;

impl Parser {
    fn peek(&self) -> Option<&Tok> {
        self.toks.get(self.at)
    }

    fn is(&self, word: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x, false)) if x.eq_ignore_ascii_case(word))
    }

    fn eat(&mut self, word: &str) -> bool {
        let res = self.is(word);
        self.at += res as usize;
        res
    }

    fn word(&mut self, word: &str) -> Res<()> {
        match self.eat(word) {
            true => Ok(()),
            false => Err(format!("{word} expected at {:?}", self.peek())),
        }
    }

    fn eat_sym(&mut self, c: char) -> bool {
        let res = self.peek() == Some(&Tok::Sym(c));
        self.at += res as usize;
        res
    }

    fn sym(&mut self, c: char) -> Res<()> {
        match self.eat_sym(c) {
            true => Ok(()),
            false => Err(format!("{c} expected at {:?}", self.peek())),
        }
    }

    fn ident(&mut self) -> Res<String> {
        match self.peek().cloned() {
            Some(Tok::Id(x, _)) => {
                self.at += 1;
                Ok(x)
            }
            x => Err(format!("name expected at {x:?}")),
        }
    }

    fn list<T>(&mut self, mut f: impl FnMut(&mut Self) -> Res<T>) -> Res<Vec<T>> {
        let mut out = vec![f(self)?];
        while self.eat_sym(',') {
            out.push(f(self)?);
        }
        Ok(out)
    }

    /// in parentheses, may be empty
    fn tuple<T>(&mut self, mut f: impl FnMut(&mut Self) -> Res<T>) -> Res<Vec<T>> {
        self.sym('(')?;
        if self.eat_sym(')') {
            return Ok(Vec::new());
        }
        let out = self.list(&mut f)?;
        self.sym(')')?;
        Ok(out)
    }

    fn expr(&mut self) -> Res<Expr> {
        let tok = self.peek().cloned();
        self.at += 1;
        Ok(match tok {
            Some(Tok::Str(x)) => Expr::Lit(Cell::Bytes(x)),
            Some(Tok::Num(x)) => Expr::Lit(Cell::Int(x)),
            Some(Tok::Sym('-')) => match self.expr()? {
                Expr::Lit(Cell::Int(x)) => Expr::Lit(Cell::Int(-x)),
                _ => return Err("number expected".into()),
            },
            Some(Tok::Sym('(')) => {
                let x = self.expr()?;
                self.sym(')')?;
                x
            }
            Some(Tok::Param) => {
                self.params += 1;
                Expr::Param(self.params - 1)
            }
            Some(Tok::Id(x, quoted)) => {
                let low = x.to_ascii_lowercase();
                if !quoted && self.peek() == Some(&Tok::Sym('(')) {
                    self.at += 1;
                    let e = match low.as_str() {
                        "database" | "schema" => Expr::Database,
                        "values" => Expr::Values(self.ident()?),
                        "count" => {
                            if !self.eat_sym('*') {
                                self.expr()?;
                            }
                            Expr::Count
                        }
                        x => return Err(format!("unknown function {x}")),
                    };
                    self.sym(')')?;
                    e
                } else if !quoted && low == "null" {
                    Expr::Lit(Cell::Null)
                } else if !quoted && low == "default" {
                    Expr::Default
                } else if self.eat_sym('.') {
                    Expr::Col(Some(x), self.ident()?)
                } else {
                    Expr::Col(None, x)
                }
            }
            x => return Err(format!("expression expected at {x:?}")),
        })
    }

    fn conds(&mut self) -> Res<Conds> {
        let mut out = Vec::new();
        loop {
            // (a = b and c = d)
            let at = self.at;
            if self.eat_sym('(') {
                match self.conds() {
                    Ok(x) if self.eat_sym(')') && self.peek() != Some(&Tok::Sym('=')) => out.extend(x),
                    _ => {
                        self.at = at;
                        out.push(self.cond()?);
                    }
                }
            } else {
                out.push(self.cond()?);
            }
            if !self.eat("and") {
                return Ok(out);
            }
        }
    }

    fn cond(&mut self) -> Res<(Expr, Expr)> {
        let a = self.expr()?;
        self.sym('=')?;
        Ok((a, self.expr()?))
    }

    fn cond_opt(&mut self) -> Res<Conds> {
        if self.eat("where") {
            self.conds()
        } else {
            Ok(Vec::new())
        }
    }

    /// with an optional schema
    fn table(&mut self) -> Res<(Option<String>, String)> {
        let a = self.ident()?;
        if self.eat_sym('.') {
            Ok((Some(a), self.ident()?))
        } else {
            Ok((None, a))
        }
    }

    fn assignments(&mut self) -> Res<Vec<(String, Expr)>> {
        self.list(|p| {
            let mut name = p.ident()?;
            if p.eat_sym('.') {
                name = p.ident()?;
            }
            p.sym('=')?;
            Ok((name, p.expr()?))
        })
    }

    fn from(&mut self) -> Res<From> {
        let (schema, table) = self.table()?;
        let alias = if self.eat("as") {
            self.ident()?
        } else {
            match self.peek() {
                Some(Tok::Id(_, true)) => self.ident()?,
                Some(Tok::Id(x, false))
                    if !["where", "join", "inner", "left", "on", "order", "limit", "cross", "using", "group"]
                        .contains(&x.to_ascii_lowercase().as_str()) =>
                {
                    self.ident()?
                }
                _ => table.clone(),
            }
        };
        Ok(From {
            schema,
            table,
            alias,
            on: Vec::new(),
        })
    }

    fn stmt(&mut self) -> Res<Stmt> {
        if self.is("insert") || self.is("replace") {
            let replace = self.is("replace");
            self.at += 1;
            let ignore = self.eat("ignore");
            self.eat("into");
            let (_, table) = self.table()?;
            if self.eat("set") {
                let set = self.assignments()?;
                let (cols, row) = set.into_iter().unzip();
                let dup = self.dup()?;
                return Ok(Stmt::Insert {
                    table,
                    ignore,
                    replace,
                    cols: Some(cols),
                    rows: vec![row],
                    dup,
                });
            }
            let cols = if self.peek() == Some(&Tok::Sym('(')) {
                Some(self.tuple(Self::ident)?)
            } else {
                None
            };
            if !self.eat("values") {
                self.word("value")?;
            }
            let rows = self.list(|p| p.tuple(Self::expr))?;
            let dup = self.dup()?;
            Ok(Stmt::Insert {
                table,
                ignore,
                replace,
                cols,
                rows,
                dup,
            })
        } else if self.eat("update") {
            let (_, table) = self.table()?;
            self.word("set")?;
            let set = self.assignments()?;
            let cond = self.cond_opt()?;
            self.limit()?;
            Ok(Stmt::Update { table, set, cond })
        } else if self.eat("delete") {
            self.word("from")?;
            let (_, table) = self.table()?;
            let cond = self.cond_opt()?;
            self.limit()?;
            Ok(Stmt::Delete { table, cond })
        } else if self.eat("select") {
            self.eat("distinct");
            let items = self.list(|p| {
                if p.eat_sym('*') {
                    return Ok((None, None, String::new()));
                }
                let at = p.at;
                if let Ok(t) = p.ident() {
                    if p.eat_sym('.') && p.eat_sym('*') {
                        return Ok((Some(t), None, String::new()));
                    }
                }
                p.at = at;
                let e = p.expr()?;
                let alias = if p.eat("as") {
                    p.ident()?
                } else {
                    match &e {
                        Expr::Col(_, x) => x.clone(),
                        Expr::Lit(Cell::Int(x)) => x.to_string(),
                        e => format!("{e:?}"),
                    }
                };
                Ok((None, Some(e), alias))
            })?;
            let mut from = Vec::new();
            if self.eat("from") {
                from.push(self.from()?);
                loop {
                    if self.eat_sym(',') {
                        from.push(self.from()?);
                    } else if self.eat("inner") || self.eat("cross") || self.is("join") {
                        self.word("join")?;
                        let mut x = self.from()?;
                        if self.eat("on") {
                            x.on = self.conds()?;
                        }
                        from.push(x);
                    } else {
                        break;
                    }
                }
            }
            let cond = self.cond_opt()?;
            if self.eat("order") {
                self.word("by")?;
                self.list(|p| {
                    p.expr()?;
                    let _ = p.eat("asc") || p.eat("desc");
                    Ok(())
                })?;
            }
            let limit = self.limit()?;
            Ok(Stmt::Select {
                items,
                from,
                cond,
                limit,
            })
        } else if self.eat("create") {
            self.word("table")?;
            let mut if_not_exists = false;
            if self.eat("if") {
                self.word("not")?;
                self.word("exists")?;
                if_not_exists = true;
            }
            let (_, name) = self.table()?;
            let mut table = Table {
                name,
                ..Table::default()
            };
            self.sym('(')?;
            loop {
                self.create_item(&mut table)?;
                if !self.eat_sym(',') {
                    break;
                }
            }
            self.sym(')')?;
            // engine, charset...
            self.at = self.toks.len();
            Ok(Stmt::Create { table, if_not_exists })
        } else if self.eat("drop") {
            self.word("table")?;
            let mut if_exists = false;
            if self.eat("if") {
                self.word("exists")?;
                if_exists = true;
            }
            let (_, table) = self.table()?;
            Ok(Stmt::Drop { table, if_exists })
        } else if ["set", "begin", "commit", "start", "do"].iter().any(|x| self.is(x)) {
            self.at = self.toks.len();
            Ok(Stmt::Nothing)
        } else {
            Err(format!("unknown statement at {:?}", self.peek()))
        }
    }

    fn limit(&mut self) -> Res<Option<usize>> {
        if self.eat("limit") {
            match self.expr()? {
                Expr::Lit(Cell::Int(x)) => Ok(Some(x as usize)),
                _ => Err("limit".into()),
            }
        } else {
            Ok(None)
        }
    }

    fn dup(&mut self) -> Res<Vec<(String, Expr)>> {
        if self.eat("on") {
            for x in ["duplicate", "key", "update"] {
                self.word(x)?;
            }
            self.assignments()
        } else {
            Ok(Vec::new())
        }
    }

    fn create_item(&mut self, table: &mut Table) -> Res<()> {
        let find = |table: &Table, names: Vec<String>| -> Res<Vec<usize>> {
            names
                .iter()
                .map(|x| table.index(x).ok_or_else(|| format!("unknown column {x}")))
                .collect()
        };
        if self.eat("constraint") {
            if !self.is("unique") && !self.is("primary") && !self.is("foreign") {
                self.ident()?;
            }
        }
        if self.is("unique") || self.is("primary") || self.is("key") || self.is("index") {
            let unique = self.is("unique") || self.is("primary");
            self.at += 1;
            let _ = self.eat("key") || self.eat("index");
            if self.peek() != Some(&Tok::Sym('(')) {
                self.ident()?;
            }
            let names = self.tuple(Self::ident)?;
            let cols = find(table, names)?;
            if unique {
                table.unique.push(cols);
            }
            return Ok(());
        }
        let name = self.ident()?;
        let kind = self.ident()?.to_ascii_lowercase();
        let t = match kind.as_str() {
            "tinyint" | "bool" | "boolean" => ty::TINY,
            "smallint" => ty::SHORT,
            "mediumint" => ty::INT24,
            "int" | "integer" => ty::LONG,
            "bigint" => ty::LONGLONG,
            "varchar" | "char" => ty::VAR_STRING,
            "text" | "blob" | "longtext" => ty::BLOB,
            "datetime" => ty::DATETIME,
            "timestamp" => ty::TIMESTAMP,
            x => return Err(format!("unknown type {x}")),
        };
        let i = table.cols.len();
        table.cols.push(Col::of(&table.name, &name, t, 0));
        let mut depth = 0;
        loop {
            match self.peek() {
                Some(Tok::Sym('(')) => depth += 1,
                Some(Tok::Sym(')')) if depth == 0 => return Ok(()),
                Some(Tok::Sym(',')) if depth == 0 => return Ok(()),
                Some(Tok::Sym(')')) => depth -= 1,
                None => return Err("create table without end".into()),
                _ => {}
            }
            if self.is("unsigned") {
                table.cols[i].flags |= crate::wire::UNSIGNED;
            } else if self.is("auto_increment") {
                table.auto = Some(i);
            } else if self.is("unique") || self.is("primary") {
                table.unique.push(vec![i]);
            }
            self.at += 1;
        }
    }
}

fn parse(sql: &[u8]) -> Res<(Stmt, usize)> {
    let mut p = Parser {
        toks: tokens(sql)?,
        at: 0,
        params: 0,
    };
    let stmt = p.stmt()?;
    if p.at < p.toks.len() {
        return Err(format!("end expected at {:?}", p.peek()));
    }
    Ok((stmt, p.params))
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Table {
    pub name: String,
    pub cols: Vec<Col>,
    pub rows: Vec<Vec<Cell>>,
    pub unique: Vec<Vec<usize>>,
    pub auto: Option<usize>,
    pub next: u64,
}

/// A value that was not given.
pub fn default() -> Cell {
    Cell::Raw(b"DEFAULT".to_vec())
}

impl Table {
    pub fn new(name: &str, cols: Vec<Col>) -> Self {
        Self {
            name: name.into(),
            cols,
            ..Self::default()
        }
    }

    pub fn index(&self, name: &str) -> Option<usize> {
        self.cols.iter().position(|x| x.org_name.eq_ignore_ascii_case(name))
    }
}

/// Changes are counted for atomicity checks.
#[derive(Clone, Debug, Default)]
pub struct Db {
    pub name: String,
    pub tables: Vec<Table>,
    /// statements that changed something or tried to
    pub writes: Vec<String>,
    pub statements: Vec<String>,
}

pub fn err(code: u16, state: &str, msg: &str) -> ErrData {
    ErrData::new(code, state, msg)
}

fn same(a: &Cell, b: &Cell) -> bool {
    match (a, b) {
        (Cell::Null, _) | (_, Cell::Null) => false,
        (Cell::Int(x), Cell::Bytes(y)) | (Cell::Bytes(y), Cell::Int(x)) => x.to_string().as_bytes() == &y[..],
        (a, b) => a == b,
    }
}

impl Db {
    pub fn new() -> Self {
        Self {
            name: "db".into(),
            ..Self::default()
        }
    }

    pub fn table(&self, name: &str) -> Option<&Table> {
        self.tables.iter().find(|x| x.name == name)
    }

    fn find(&mut self, name: &str) -> Result<usize, ErrData> {
        self.tables
            .iter()
            .position(|x| x.name == name)
            .ok_or_else(|| err(1146, "42S02", &format!("Table 'db.{name}' doesn't exist")))
    }

    pub fn params(&self, sql: &[u8]) -> Result<usize, ErrData> {
        parse(sql).map(|x| x.1).map_err(|e| err(1064, "42000", &e))
    }

    pub fn exec(&mut self, sql: &[u8], params: &[Cell]) -> Result<Reply, ErrData> {
        let text = String::from_utf8_lossy(sql).into_owned();
        let (stmt, n) = parse(sql).map_err(|e| err(1064, "42000", &e))?;
        if n != params.len() {
            return Err(err(1210, "HY000", "Incorrect arguments to EXECUTE"));
        }
        self.statements.push(text.clone());
        if !matches!(stmt, Stmt::Select { .. } | Stmt::Nothing) {
            self.writes.push(text);
        }
        let unknown = |x: &str| err(1054, "42S22", &format!("Unknown column '{x}'"));
        let constant = |e: &Expr| -> Result<Cell, ErrData> {
            Ok(match e {
                Expr::Lit(x) => x.clone(),
                Expr::Param(i) => params[*i].clone(),
                Expr::Default => default(),
                Expr::Database => Cell::Bytes(b"db".to_vec()),
                e => return Err(err(1064, "42000", &format!("constant expected instead of {e:?}"))),
            })
        };
        let row_value = |table: &Table, row: &[Cell], e: &Expr| -> Result<Cell, ErrData> {
            match e {
                Expr::Col(_, x) => Ok(row[table.index(x).ok_or_else(|| unknown(x))?].clone()),
                e => constant(e),
            }
        };
        let matches = |table: &Table, row: &[Cell], cond: &Conds| -> Result<bool, ErrData> {
            for (a, b) in cond {
                if !same(&row_value(table, row, a)?, &row_value(table, row, b)?) {
                    return Ok(false);
                }
            }
            Ok(true)
        };
        match stmt {
            Stmt::Nothing => Ok(Reply::Ok(OkData::new(0, 0))),
            Stmt::Create { table, if_not_exists } => {
                if self.table(&table.name).is_some() {
                    return match if_not_exists {
                        true => Ok(Reply::Ok(OkData::new(0, 0))),
                        false => Err(err(1050, "42S01", &format!("Table '{}' already exists", table.name))),
                    };
                }
                self.tables.push(table);
                Ok(Reply::Ok(OkData::new(0, 0)))
            }
            Stmt::Drop { table, if_exists } => match self.find(&table) {
                Ok(i) => {
                    self.tables.remove(i);
                    Ok(Reply::Ok(OkData::new(0, 0)))
                }
                Err(_) if if_exists => Ok(Reply::Ok(OkData::new(0, 0))),
                Err(e) => Err(e),
            },
            Stmt::Insert {
                table,
                ignore,
                replace,
                cols,
                rows,
                dup,
            } => {
                let t = self.find(&table)?;
                let table = &mut self.tables[t];
                let before = table.clone();
                let index: Vec<usize> = match &cols {
                    Some(cols) => cols
                        .iter()
                        .map(|x| table.index(x).ok_or_else(|| unknown(x)))
                        .collect::<Result<_, _>>()?,
                    None => (0..table.cols.len()).collect(),
                };
                for (i, x) in index.iter().enumerate() {
                    if index[..i].contains(x) {
                        return Err(err(1110, "42000", "Column specified twice"));
                    }
                }
                let mut affected = 0;
                let mut insert_id = 0;
                for exprs in rows {
                    if exprs.len() != index.len() && !(exprs.is_empty() && cols.is_none()) {
                        *table = before;
                        return Err(err(1136, "21S01", "Column count doesn't match value count"));
                    }
                    let mut row = vec![default(); table.cols.len()];
                    for (i, e) in index.iter().zip(&exprs) {
                        row[*i] = constant(e)?;
                    }
                    if let Some(i) = table.auto {
                        if row[i] == default() || row[i] == Cell::Null || row[i] == Cell::Int(0) {
                            table.next += 1;
                            row[i] = Cell::Int(table.next as i128);
                        } else if let Cell::Int(x) = row[i] {
                            table.next = table.next.max(x as u64);
                        }
                        if let Cell::Int(x) = row[i] {
                            insert_id = x as u64;
                        }
                    }
                    let conflict = |x: &[Cell]| {
                        table
                            .unique
                            .iter()
                            .any(|u| u.iter().all(|i| same(&x[*i], &row[*i])))
                    };
                    match table.rows.iter().position(|x| conflict(x)) {
                        None => {
                            table.rows.push(row);
                            affected += 1;
                        }
                        Some(i) if replace => {
                            table.rows.remove(i);
                            table.rows.push(row);
                            affected += 2;
                        }
                        Some(_) if ignore => {}
                        Some(i) if !dup.is_empty() => {
                            for (name, e) in &dup {
                                let c = table.index(name).ok_or_else(|| unknown(name))?;
                                let x = match e {
                                    Expr::Values(x) => row[table.index(x).ok_or_else(|| unknown(x))?].clone(),
                                    e => row_value(table, &table.rows[i], e)?,
                                };
                                if table.rows[i][c] != x {
                                    affected += 2;
                                }
                                table.rows[i][c] = x;
                            }
                        }
                        Some(_) => {
                            *table = before;
                            return Err(err(1062, "23000", "Duplicate entry"));
                        }
                    }
                }
                Ok(Reply::Ok(OkData::new(affected, insert_id)))
            }
            Stmt::Update { table, set, cond } => {
                let t = self.find(&table)?;
                let table = &mut self.tables[t];
                let set: Vec<(usize, Expr)> = set
                    .into_iter()
                    .map(|(x, e)| Ok((table.index(&x).ok_or_else(|| unknown(&x))?, e)))
                    .collect::<Result<_, ErrData>>()?;
                let mut affected = 0;
                for r in 0..table.rows.len() {
                    if matches(table, &table.rows[r], &cond)? {
                        for (i, e) in &set {
                            let x = row_value(table, &table.rows[r], e)?;
                            table.rows[r][*i] = x;
                        }
                        affected += 1;
                    }
                }
                Ok(Reply::Ok(OkData::new(affected, 0)))
            }
            Stmt::Delete { table, cond } => {
                let t = self.find(&table)?;
                let table = &mut self.tables[t];
                let mut keep = Vec::new();
                for row in &table.rows {
                    if !matches(table, row, &cond)? {
                        keep.push(row.clone());
                    }
                }
                let affected = table.rows.len() - keep.len();
                table.rows = keep;
                Ok(Reply::Ok(OkData::new(affected as u64, 0)))
            }
            Stmt::Select {
                items,
                from,
                cond,
                limit,
            } => {
                // (alias, table, offset)
                let mut sources: Vec<(String, Table, usize)> = Vec::new();
                let mut width = 0;
                let mut rows: Vec<Vec<Cell>> = vec![Vec::new()];
                let lookup = |sources: &[(String, Table, usize)], row: &[Cell], e: &Expr| -> Result<Cell, ErrData> {
                    match e {
                        Expr::Col(t, x) => {
                            let mut found = None;
                            for (alias, table, offset) in sources {
                                if t.as_ref().is_some_and(|t| t != alias) {
                                    continue;
                                }
                                if let Some(i) = table.index(x) {
                                    if found.is_some() {
                                        return Err(err(1052, "23000", &format!("Column '{x}' is ambiguous")));
                                    }
                                    found = Some(offset + i);
                                }
                            }
                            Ok(row[found.ok_or_else(|| unknown(x))?].clone())
                        }
                        e => constant(e),
                    }
                };
                for f in from {
                    let system = f.schema.as_ref().is_some_and(|x| x.eq_ignore_ascii_case("information_schema"));
                    let table = if system {
                        let names = ["TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "PARTITION_NAME"];
                        let mut t = Table::new(
                            &f.table,
                            names.iter().map(|x| Col::of(&f.table, x, ty::VAR_STRING, 0)).collect(),
                        );
                        t.rows = self
                            .tables
                            .iter()
                            .map(|x| {
                                vec![
                                    Cell::from("def"),
                                    Cell::from("db"),
                                    Cell::from(x.name.as_str()),
                                    Cell::Null,
                                ]
                            })
                            .collect();
                        // other databases have tables too
                        t.rows.push(vec![
                            Cell::from("def"),
                            Cell::from("other"),
                            Cell::from("migrations"),
                            Cell::Null,
                        ]);
                        t
                    } else {
                        let i = self.find(&f.table)?;
                        self.tables[i].clone()
                    };
                    if sources.iter().any(|x| x.0 == f.alias) {
                        return Err(err(1066, "42000", &format!("Not unique table/alias: '{}'", f.alias)));
                    }
                    let mut joined = Vec::new();
                    let offset = width;
                    width += table.cols.len();
                    sources.push((f.alias, table, offset));
                    let table = &sources.last().unwrap().1;
                    for row in &rows {
                        for add in &table.rows {
                            let mut row = row.clone();
                            row.extend(add.iter().cloned());
                            let mut ok = true;
                            for (a, b) in &f.on {
                                ok &= same(&lookup(&sources, &row, a)?, &lookup(&sources, &row, b)?);
                            }
                            if ok {
                                joined.push(row);
                            }
                        }
                    }
                    rows = joined;
                }
                let mut kept = Vec::new();
                for row in rows {
                    let mut ok = true;
                    for (a, b) in &cond {
                        ok &= same(&lookup(&sources, &row, a)?, &lookup(&sources, &row, b)?);
                    }
                    if ok {
                        kept.push(row);
                    }
                }
                let mut cols = Vec::new();
                let mut exprs = Vec::new();
                for (star, e, name) in &items {
                    match e {
                        None => {
                            for (alias, table, _) in &sources {
                                if star.as_ref().is_some_and(|x| x != alias) {
                                    continue;
                                }
                                for c in &table.cols {
                                    cols.push(Col {
                                        table: alias.clone(),
                                        ..c.clone()
                                    });
                                    exprs.push(Expr::Col(Some(alias.clone()), c.org_name.clone()));
                                }
                            }
                        }
                        Some(Expr::Col(t, x)) => {
                            let (alias, c) = sources
                                .iter()
                                .filter(|s| t.as_ref().is_none_or(|t| *t == s.0))
                                .find_map(|s| s.1.index(x).map(|i| (&s.0, &s.1.cols[i])))
                                .ok_or_else(|| unknown(x))?;
                            cols.push(Col {
                                table: alias.clone(),
                                name: name.clone(),
                                ..c.clone()
                            });
                            exprs.push(e.clone().unwrap());
                        }
                        Some(x) => {
                            let t = match x {
                                Expr::Count | Expr::Lit(Cell::Int(_)) => ty::LONGLONG,
                                _ => ty::VAR_STRING,
                            };
                            cols.push(Col {
                                table: String::new(),
                                org_table: String::new(),
                                org_name: String::new(),
                                ..Col::new(name, t, 0)
                            });
                            exprs.push(x.clone());
                        }
                    }
                }
                let mut out = Vec::new();
                if exprs.iter().any(|x| matches!(x, Expr::Count)) {
                    let n = kept.len() as i128;
                    out.push(
                        exprs
                            .iter()
                            .map(|x| match x {
                                Expr::Count => Ok(Cell::Int(n)),
                                x => constant(x),
                            })
                            .collect::<Result<_, _>>()?,
                    );
                } else {
                    for row in &kept {
                        out.push(
                            exprs
                                .iter()
                                .map(|e| lookup(&sources, row, e))
                                .collect::<Result<Vec<_>, _>>()?,
                        );
                    }
                }
                if let Some(n) = limit {
                    out.truncate(n);
                }
                Ok(Reply::Rows {
                    cols,
                    rows: out,
                    end: End::Ok(OkData::new(0, 0)),
                })
            }
        }
    }
}

pub type SharedDb = Arc<Mutex<Db>>;

/// Answers the statements of one connection.
pub struct Session {
    pub db: SharedDb,
    prepared: HashMap<u32, Vec<u8>>,
    next: u32,
}

impl Session {
    pub fn new(db: &SharedDb) -> Self {
        Self {
            db: db.clone(),
            prepared: HashMap::new(),
            next: 1,
        }
    }

    pub fn answer(&mut self, cmd: &Cmd) -> Vec<Reply> {
        let mut db = self.db.lock().unwrap();
        let res = match cmd {
            Cmd::Query(sql) => db.exec(sql, &[]),
            Cmd::Prepare(sql) => db.params(sql).map(|params| {
                let id = self.next;
                self.next += 1;
                self.prepared.insert(id, sql.clone());
                Reply::Prepared {
                    id,
                    params,
                    cols: Vec::new(),
                }
            }),
            Cmd::Execute { stmt, params } => match self.prepared.get(stmt) {
                Some(sql) => {
                    let params: Vec<Cell> = params.iter().map(|x| x.2.clone()).collect();
                    db.exec(sql, &params)
                }
                None => Err(err(1243, "HY000", "Unknown prepared statement handler")),
            },
            _ => return Vec::new(),
        };
        vec![res.unwrap_or_else(Reply::Err)]
    }
}

pub fn handler(db: &SharedDb) -> Handler {
    let mut session = Session::new(db);
    Box::new(move |cmd| session.answer(cmd))
}

//! Client operations with normalised outcomes, and what the reference model says about them.
use std::{
    io::ErrorKind,
    sync::{Arc, Mutex},
    time::Duration,
};

use mysql_connector::{
    error::{Error, ProtocolError},
    types::Value,
    Connection, ConnectionOptions,
};

use crate::{
    mock::{Mock, MockOptions, Pipe, Plan, Shared},
    server::{Cfg, Cmd, Handler, Log, Server},
    wire::{status, text_of, Cell, Col, End, ErrData, OkData, Reply},
};

pub const TIMEOUT: Duration = Duration::from_secs(10);

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum E {
    /// code, state and message as `Debug` shows it
    Server(u16, String, String),
    Timeout,
    Io(String),
    OutOfSync,
    Other(String),
}

/// Text between quotes after `label`, as it is.
fn quoted<'a>(text: &'a str, label: &str) -> Option<&'a str> {
    let start = text.find(label)? + label.len();
    let rest = text[start..].strip_prefix('"')?;
    let mut escaped = false;
    for (i, c) in rest.char_indices() {
        match c {
            _ if escaped => escaped = false,
            '\\' => escaped = true,
            '"' => return Some(&rest[..i]),
            _ => {}
        }
    }
    None
}

impl E {
    pub fn server(e: &ErrData) -> Self {
        let show = |x: &str| {
            let x = format!("{x:?}");
            x[1..x.len() - 1].to_owned()
        };
        E::Server(
            e.code,
            e.state
                .map(|x| show(&String::from_utf8_lossy(&x)))
                .unwrap_or_default(),
            show(&e.msg),
        )
    }

    pub fn of(e: &Error) -> Self {
        match e {
            Error::Server(p) => {
                let text = format!("{p:?}");
                let code = text.find("code: ").and_then(|i| {
                    let rest = &text[i + 6..];
                    let n = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
                    rest[..n].parse().ok()
                });
                match (code, quoted(&text, "message: ")) {
                    (Some(code), Some(msg)) => E::Server(
                        code,
                        quoted(&text, "state: ").unwrap_or_default().to_owned(),
                        msg.to_owned(),
                    ),
                    _ => E::Other(text),
                }
            }
            Error::Protocol(ProtocolError::Io(e)) if e.kind() == ErrorKind::TimedOut => E::Timeout,
            Error::Protocol(ProtocolError::Io(e)) => E::Io(format!("{:?}", e.kind())),
            Error::Protocol(ProtocolError::OutOfSync) => E::OutOfSync,
            e => E::Other(format!("{e:?}")),
        }
    }

    pub fn is_server(&self) -> bool {
        matches!(self, E::Server(..))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Obs {
    Row(Vec<String>),
    /// the result has no more rows
    End,
    Ok(OkData),
    Prepared,
    /// the last packet that ended a result
    Drained(Option<OkData>),
    Err(E),
}

pub fn options<const S: bool>(pipe: &Shared) -> ConnectionOptions<Mock<S>> {
    options_for(MockOptions::one(pipe))
}

#[cfg(not(feature = "time"))]
pub fn sleep(d: Duration) -> mysql_connector::TimeoutFuture {
    Box::pin(tokio::time::sleep(d))
}

pub fn options_for<const S: bool>(connection: MockOptions) -> ConnectionOptions<Mock<S>> {
    ConnectionOptions {
        user: "user".into(),
        password: "secret".into(),
        connection,
        max_allowed_packet: Some(1 << 24),
        timeout: TIMEOUT,
        auth_plugin: None,
        #[cfg(not(feature = "time"))]
        sleep: Some(&sleep),
        ..Default::default()
    }
}

pub struct Session {
    pub pipe: Shared,
    pub log: Arc<Mutex<Log>>,
}

impl Session {
    pub fn new(cfg: Cfg, plan: Plan, handler: Handler) -> Self {
        Self::of(Server::new(cfg, handler), plan)
    }

    pub fn of(server: Server, plan: Plan) -> Self {
        let log = server.log.clone();
        let pipe = Arc::new(Mutex::new(Pipe::new(Box::new(server), plan)));
        Self { pipe, log }
    }

    pub async fn connect(&self) -> Result<Connection, Error> {
        Connection::connect(Arc::new(options::<false>(&self.pipe))).await
    }

    /// What the client did wrong in the eyes of the server.
    pub fn server_errors(&self) -> Result<(), String> {
        match self.log.lock().unwrap().errors.first() {
            Some(e) => Err(format!("the server received something invalid: {e}")),
            None => Ok(()),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Read {
    /// so many rows, then the result is dropped
    Next(usize),
    All,
    One,
    Finish,
}

#[derive(Clone, Debug, PartialEq)]
pub enum StmtOp {
    Query(Vec<Value>, Read),
    Execute(Vec<Value>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Query(String, Read),
    Execute(String),
    Prepare(String, Vec<StmtOp>),
    Cleanup,
}

pub fn show(v: &Value) -> String {
    match v {
        Value::Bytes(x) => match std::str::from_utf8(x) {
            Ok(x) => format!("{x:?}"),
            Err(_) => format!("{x:?}"),
        },
        v => format!("{v:?}"),
    }
}

pub fn row(r: &[Value]) -> Obs {
    Obs::Row(r.iter().map(show).collect())
}

#[macro_export]
macro_rules! ok_of {
    ($p:expr) => {{
        let p = &$p;
        $crate::wire::OkData {
            affected: p.affected_rows(),
            insert_id: p.last_insert_id(),
            status: p.status().bits(),
            warnings: p.warnings(),
            info: p.message().cloned().unwrap_or_default(),
        }
    }};
}

#[macro_export]
macro_rules! read_set {
    ($rs:expr, $read:expr, $out:expr) => {{
        let mut rs = match $rs {
            Ok(x) => x,
            Err(e) => {
                $out.push(Obs::Err(E::of(&e)));
                return;
            }
        };
        match $read {
            Read::Next(n) => {
                for _ in 0..n {
                    match rs.next().await {
                        Ok(Some(r)) => $out.push(row(&r)),
                        Ok(None) => {
                            $out.push(Obs::End);
                            break;
                        }
                        Err(e) => {
                            $out.push(Obs::Err(E::of(&e)));
                            break;
                        }
                    }
                }
            }
            Read::All => {
                loop {
                    match rs.next().await {
                        Ok(Some(r)) => $out.push(row(&r)),
                        Ok(None) => {
                            $out.push(Obs::End);
                            // the end is final
                            match rs.next().await {
                                Ok(None) => {}
                                Ok(Some(r)) => $out.push(row(&r)),
                                Err(e) => $out.push(Obs::Err(E::of(&e))),
                            }
                            break;
                        }
                        Err(e) => {
                            $out.push(Obs::Err(E::of(&e)));
                            break;
                        }
                    }
                }
            }
            Read::One => match rs.one().await {
                Ok(Some(r)) => {
                    $out.push(row(&r));
                    $out.push(Obs::End);
                }
                Ok(None) => $out.push(Obs::End),
                Err(e) => $out.push(Obs::Err(E::of(&e))),
            },
            Read::Finish => match rs.finish().await {
                Ok(p) => $out.push(Obs::Ok($crate::ok_of!(p))),
                Err(e) => $out.push(Obs::Err(E::of(&e))),
            },
        }
    }};
}

type Row = Vec<Value>;

pub async fn run_query(conn: &mut Connection, sql: &str, read: Read, out: &mut Vec<Obs>) {
    let rs = conn.query::<Row>(sql).await;
    read_set!(rs, read, out)
}

pub async fn run_op(conn: &mut Connection, op: &Op, out: &mut Vec<Obs>) {
    match op {
        Op::Query(sql, read) => run_query(conn, sql, *read, out).await,
        Op::Execute(sql) => match conn.execute_query(sql).await {
            Ok(p) => out.push(Obs::Ok(ok_of!(p))),
            Err(e) => out.push(Obs::Err(E::of(&e))),
        },
        Op::Prepare(sql, ops) => {
            let mut stmt = match conn.prepare_statement(sql).await {
                Ok(x) => {
                    out.push(Obs::Prepared);
                    x
                }
                Err(e) => {
                    out.push(Obs::Err(E::of(&e)));
                    return;
                }
            };
            for op in ops {
                match op {
                    StmtOp::Query(params, read) => {
                        let read = *read;
                        async {
                            let rs = stmt.query::<Value, Row>(params).await;
                            read_set!(rs, read, out)
                        }
                        .await
                    }
                    StmtOp::Execute(params) => match stmt.execute(params).await {
                        Ok(p) => out.push(Obs::Ok(ok_of!(p))),
                        Err(e) => out.push(Obs::Err(E::of(&e))),
                    },
                }
            }
        }
        Op::Cleanup => match conn.cleanup().await {
            Ok(p) => out.push(Obs::Drained(p.map(|p| ok_of!(p)))),
            Err(e) => out.push(Obs::Err(E::of(&e))),
        },
    }
}

/// Expected row of string and integer columns.
pub fn expected_row(cols: &[Col], cells: &[Cell]) -> Obs {
    Obs::Row(
        cols.iter()
            .zip(cells)
            .map(|(c, x)| match x {
                Cell::Null => "Null".to_owned(),
                Cell::Bytes(x) => format!("{:?}", String::from_utf8(x.clone()).unwrap()),
                Cell::Int(x) => {
                    let u = c.flags & crate::wire::UNSIGNED != 0;
                    let name = match crate::wire::int_width(c.ty).unwrap() {
                        1 => "Tiny",
                        2 => "Short",
                        4 => "Int",
                        _ => "Long",
                    };
                    format!("{}{name}({x})", if u { "U" } else { "" })
                }
                x => format!("{:?}", text_of(x, c)),
            })
            .collect(),
    )
}

fn flagged(ok: &OkData, more: bool) -> OkData {
    let mut ok = ok.clone();
    if more {
        ok.status |= status::MORE_RESULTS;
    }
    ok
}

/// The packet after the last row.
fn terminator(ok: &OkData, more: bool, deprecate_eof: bool) -> OkData {
    let mut ok = flagged(ok, more);
    // not part of the protocol of this packet
    ok.affected = 0;
    ok.insert_id = 0;
    if !deprecate_eof {
        ok.info.clear();
    }
    ok
}

/// What the client still has to read for its last command, in the eyes of the reference model.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Rest {
    /// rows of the current result
    rows: Option<(Vec<Vec<Cell>>, End)>,
    results: Vec<Reply>,
}

impl Rest {
    /// Reads everything; the last packet that ended a result or the error that ended all.
    pub fn drain(&mut self, deprecate_eof: bool) -> Result<Option<OkData>, ErrData> {
        let this = std::mem::take(self);
        let n = this.results.len();
        let mut last = None;
        match this.rows {
            Some((_, End::Err(e))) => return Err(e),
            Some((_, End::Ok(ok))) => last = Some(terminator(&ok, n > 0, deprecate_eof)),
            None => (),
        }
        for (i, r) in this.results.into_iter().enumerate() {
            match r {
                Reply::Err(e) => return Err(e),
                Reply::Rows { end: End::Err(e), .. } => return Err(e),
                Reply::Rows { end: End::Ok(ok), .. } => last = Some(terminator(&ok, i + 1 < n, deprecate_eof)),
                Reply::Ok(ok) => last = Some(flagged(&ok, i + 1 < n)),
                _ => {}
            }
        }
        Ok(last)
    }

    pub fn is_empty(&self) -> bool {
        self.rows.is_none() && self.results.is_empty()
    }
}

/// Outcome of reading a result of `replies`, and what remains.
pub fn expect_read(replies: &[Reply], read: Read, deprecate_eof: bool) -> (Vec<Obs>, Rest) {
    let mut out = Vec::new();
    let more = replies.len() > 1;
    let rest = || Rest {
        rows: None,
        results: replies[1..].to_vec(),
    };
    match &replies[0] {
        Reply::Err(e) => {
            out.push(Obs::Err(E::server(e)));
            (out, Rest::default())
        }
        Reply::Ok(ok) => {
            match read {
                Read::Next(0) => {}
                Read::Next(_) | Read::All | Read::One => out.push(Obs::End),
                Read::Finish => out.push(Obs::Ok(flagged(ok, more))),
            }
            (out, rest())
        }
        Reply::Rows { cols, rows, end } => {
            let (n, mut seen_end) = match read {
                Read::Next(n) => (n.min(rows.len()), n > rows.len()),
                Read::All => (rows.len(), true),
                Read::One => (rows.len().min(1), true),
                Read::Finish => (0, true),
            };
            if read == Read::Next(0) {
                seen_end = false;
            }
            let failed = seen_end && matches!(end, End::Err(_));
            if !(failed && read == Read::One) {
                for r in &rows[..n] {
                    out.push(expected_row(cols, r));
                }
            }
            if !seen_end {
                return (
                    out,
                    Rest {
                        rows: Some((rows[n..].to_vec(), end.clone())),
                        ..rest()
                    },
                );
            }
            match end {
                End::Err(e) => {
                    out.push(Obs::Err(E::server(e)));
                    (out, Rest::default())
                }
                End::Ok(ok) => {
                    out.push(match read {
                        Read::Finish => Obs::Ok(terminator(ok, more, deprecate_eof)),
                        _ => Obs::End,
                    });
                    (out, rest())
                }
            }
        }
        x => panic!("not a result: {x:?}"),
    }
}

/// Handler that answers from a list, by the text of the command.
pub fn table(list: Vec<(String, Vec<Reply>)>) -> Handler {
    Box::new(move |cmd| {
        let text = match cmd {
            Cmd::Query(x) | Cmd::Prepare(x) => x.clone(),
            x => panic!("{x:?}"),
        };
        match list.iter().find(|x| x.0.as_bytes() == text) {
            Some(x) => x.1.clone(),
            None => vec![Reply::Err(ErrData::new(1064, "42000", "not in the list"))],
        }
    })
}

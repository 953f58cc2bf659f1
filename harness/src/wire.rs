//! Reference encoders and decoders of the MySQL client/server protocol, written from its
//! documentation and independent of the code under test.

pub const MAX: usize = 0xFF_FFFF;

pub mod cap {
    pub const CONNECT_WITH_DB: u32 = 0x8;
    pub const PROTOCOL_41: u32 = 0x200;
    pub const TRANSACTIONS: u32 = 0x2000;
    pub const SECURE_CONNECTION: u32 = 0x8000;
    pub const MULTI_STATEMENTS: u32 = 0x1_0000;
    pub const MULTI_RESULTS: u32 = 0x2_0000;
    pub const PS_MULTI_RESULTS: u32 = 0x4_0000;
    pub const PLUGIN_AUTH: u32 = 0x8_0000;
    pub const CONNECT_ATTRS: u32 = 0x10_0000;
    pub const PLUGIN_AUTH_LENENC: u32 = 0x20_0000;
    pub const SESSION_TRACK: u32 = 0x80_0000;
    pub const DEPRECATE_EOF: u32 = 0x100_0000;

    pub const DEFAULT: u32 = 0x1 | 0x2 | 0x4 | CONNECT_WITH_DB | PROTOCOL_41 | TRANSACTIONS
        | SECURE_CONNECTION | MULTI_STATEMENTS | MULTI_RESULTS | PS_MULTI_RESULTS | PLUGIN_AUTH
        | CONNECT_ATTRS | PLUGIN_AUTH_LENENC | SESSION_TRACK | DEPRECATE_EOF;
}

pub mod status {
    pub const IN_TRANS: u16 = 1;
    pub const AUTOCOMMIT: u16 = 2;
    pub const MORE_RESULTS: u16 = 8;
}

pub mod ty {
    pub const DECIMAL: u8 = 0;
    pub const TINY: u8 = 1;
    pub const SHORT: u8 = 2;
    pub const LONG: u8 = 3;
    pub const FLOAT: u8 = 4;
    pub const DOUBLE: u8 = 5;
    pub const NULL: u8 = 6;
    pub const TIMESTAMP: u8 = 7;
    pub const LONGLONG: u8 = 8;
    pub const INT24: u8 = 9;
    pub const DATE: u8 = 10;
    pub const TIME: u8 = 11;
    pub const DATETIME: u8 = 12;
    pub const YEAR: u8 = 13;
    pub const VARCHAR: u8 = 15;
    pub const BIT: u8 = 16;
    pub const JSON: u8 = 245;
    pub const NEWDECIMAL: u8 = 246;
    pub const ENUM: u8 = 247;
    pub const SET: u8 = 248;
    pub const TINY_BLOB: u8 = 249;
    pub const MEDIUM_BLOB: u8 = 250;
    pub const LONG_BLOB: u8 = 251;
    pub const BLOB: u8 = 252;
    pub const VAR_STRING: u8 = 253;
    pub const STRING: u8 = 254;
    pub const GEOMETRY: u8 = 255;
}

pub const UNSIGNED: u16 = 32;

pub fn put_lenenc(out: &mut Vec<u8>, x: u64) {
    match x {
        0..=250 => out.push(x as u8),
        251..=0xFFFF => {
            out.push(0xFC);
            out.extend_from_slice(&(x as u16).to_le_bytes());
        }
        0x1_0000..=0xFF_FFFF => {
            out.push(0xFD);
            out.extend_from_slice(&(x as u32).to_le_bytes()[..3]);
        }
        _ => {
            out.push(0xFE);
            out.extend_from_slice(&x.to_le_bytes());
        }
    }
}

pub fn put_str(out: &mut Vec<u8>, x: &[u8]) {
    put_lenenc(out, x.len() as u64);
    out.extend_from_slice(x);
}

/// Strict reader of client data.
pub struct Rd<'a>(pub &'a [u8]);

impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err(format!("{n} bytes expected, {} left", self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn int(&mut self, n: usize) -> Result<u64, String> {
        Ok(self
            .take(n)?
            .iter()
            .rev()
            .fold(0, |a, b| a << 8 | *b as u64))
    }
    pub fn nul(&mut self) -> Result<&'a [u8], String> {
        match self.0.iter().position(|x| *x == 0) {
            Some(i) => {
                let x = &self.0[..i];
                self.0 = &self.0[i + 1..];
                Ok(x)
            }
            None => Err("string without end".into()),
        }
    }
    pub fn lenenc(&mut self) -> Result<u64, String> {
        match self.int(1)? {
            0xFC => self.int(2),
            0xFD => self.int(3),
            0xFE => self.int(8),
            x @ (0xFB | 0xFF) => Err(format!("invalid length {x}")),
            x => Ok(x),
        }
    }
    pub fn str(&mut self) -> Result<&'a [u8], String> {
        let n = self.lenenc()?;
        self.take(n as usize)
    }
    pub fn end(&self) -> Result<(), String> {
        match self.0.len() {
            0 => Ok(()),
            n => Err(format!("{n} bytes too many")),
        }
    }
}

/// Value of a result or parameter.
#[derive(Clone, Debug, PartialEq)]
pub enum Cell {
    Null,
    Int(i128),
    F32(f32),
    F64(f64),
    Bytes(Vec<u8>),
    Date(u16, u8, u8),
    Time(bool, u32, u8, u8, u8, u32),
    DateTime(u16, u8, u8, u8, u8, u8, u32),
    /// already encoded
    Raw(Vec<u8>),
}

impl From<&str> for Cell {
    fn from(x: &str) -> Self {
        Cell::Bytes(x.as_bytes().to_vec())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Col {
    pub schema: String,
    pub table: String,
    pub org_table: String,
    pub name: String,
    pub org_name: String,
    pub charset: u16,
    pub length: u32,
    pub ty: u8,
    pub flags: u16,
    pub decimals: u8,
}

impl Col {
    pub fn new(name: &str, ty: u8, flags: u16) -> Self {
        Self {
            schema: "db".into(),
            table: "t".into(),
            org_table: "t".into(),
            name: name.into(),
            org_name: name.into(),
            charset: 45,
            length: 255,
            ty,
            flags,
            decimals: 0,
        }
    }

    pub fn of(table: &str, name: &str, ty: u8, flags: u16) -> Self {
        Self {
            table: table.into(),
            org_table: table.into(),
            ..Self::new(name, ty, flags)
        }
    }

    pub fn encode(&self) -> Vec<u8> {
        let mut out = Vec::new();
        put_str(&mut out, b"def");
        for s in [
            &self.schema,
            &self.table,
            &self.org_table,
            &self.name,
            &self.org_name,
        ] {
            put_str(&mut out, s.as_bytes());
        }
        out.push(0x0C);
        out.extend_from_slice(&self.charset.to_le_bytes());
        out.extend_from_slice(&self.length.to_le_bytes());
        out.push(self.ty);
        out.extend_from_slice(&self.flags.to_le_bytes());
        out.push(self.decimals);
        out.extend_from_slice(&[0, 0]);
        out
    }
}

pub fn text_of(cell: &Cell, col: &Col) -> Option<Vec<u8>> {
    let frac = |us: u32| {
        if us != 0 {
            format!(".{us:06}")
        } else {
            String::new()
        }
    };
    Some(match cell {
        Cell::Null => return None,
        Cell::Int(x) if col.ty == ty::YEAR => format!("{x:04}").into_bytes(),
        Cell::Int(x) => x.to_string().into_bytes(),
        Cell::F32(x) => float_text(&format!("{x:e}")),
        Cell::F64(x) => float_text(&format!("{x:e}")),
        Cell::Bytes(x) | Cell::Raw(x) => x.clone(),
        Cell::Date(y, m, d) => format!("{y:04}-{m:02}-{d:02}").into_bytes(),
        Cell::DateTime(y, mo, d, h, mi, s, us) => {
            format!("{y:04}-{mo:02}-{d:02} {h:02}:{mi:02}:{s:02}{}", frac(*us)).into_bytes()
        }
        Cell::Time(neg, d, h, m, s, us) => format!(
            "{}{:02}:{m:02}:{s:02}{}",
            if *neg { "-" } else { "" },
            *d as u64 * 24 + *h as u64,
            frac(*us)
        )
        .into_bytes(),
    })
}

/// MySQL writes floats with an exponent outside of 1e-15..1e15.
fn float_text(sci: &str) -> Vec<u8> {
    let (mant, exp) = sci.split_once('e').unwrap();
    let exp: i32 = exp.parse().unwrap();
    if (-15..15).contains(&exp) {
        let (neg, mant) = match mant.strip_prefix('-') {
            Some(x) => ("-", x),
            None => ("", mant),
        };
        let digits: String = mant.chars().filter(|x| *x != '.').collect();
        let text = if exp < 0 {
            format!("0.{}{digits}", "0".repeat((-exp - 1) as usize))
        } else if digits.len() as i32 <= exp + 1 {
            format!("{digits}{}", "0".repeat((exp + 1) as usize - digits.len()))
        } else {
            let (a, b) = digits.split_at(exp as usize + 1);
            format!("{a}.{b}")
        };
        format!("{neg}{text}").into_bytes()
    } else {
        sci.as_bytes().to_vec()
    }
}

pub fn text_row(cols: &[Col], row: &[Cell]) -> Vec<u8> {
    let mut out = Vec::new();
    for (col, cell) in cols.iter().zip(row) {
        match text_of(cell, col) {
            Some(x) => put_str(&mut out, &x),
            None => out.push(0xFB),
        }
    }
    out
}

pub fn int_width(t: u8) -> Option<usize> {
    Some(match t {
        ty::TINY => 1,
        ty::SHORT | ty::YEAR => 2,
        ty::LONG | ty::INT24 => 4,
        ty::LONGLONG => 8,
        _ => return None,
    })
}

pub fn bin_value(out: &mut Vec<u8>, col_ty: u8, cell: &Cell) {
    match cell {
        Cell::Null => {}
        Cell::Int(x) => {
            let w = int_width(col_ty).expect("integer column");
            out.extend_from_slice(&x.to_le_bytes()[..w]);
        }
        Cell::F32(x) => out.extend_from_slice(&x.to_bits().to_le_bytes()),
        Cell::F64(x) => out.extend_from_slice(&x.to_bits().to_le_bytes()),
        Cell::Bytes(x) => put_str(out, x),
        Cell::Raw(x) => out.extend_from_slice(x),
        Cell::Date(y, m, d) => {
            if (*y, *m, *d) == (0, 0, 0) {
                out.push(0);
            } else {
                out.push(4);
                out.extend_from_slice(&y.to_le_bytes());
                out.extend_from_slice(&[*m, *d]);
            }
        }
        Cell::DateTime(y, mo, d, h, mi, s, us) => {
            let n = if *us != 0 {
                11
            } else if (*h, *mi, *s) != (0, 0, 0) {
                7
            } else if (*y, *mo, *d) != (0, 0, 0) {
                4
            } else {
                0
            };
            out.push(n);
            let mut full = y.to_le_bytes().to_vec();
            full.extend_from_slice(&[*mo, *d, *h, *mi, *s]);
            full.extend_from_slice(&us.to_le_bytes());
            out.extend_from_slice(&full[..n as usize]);
        }
        Cell::Time(neg, d, h, m, s, us) => {
            let n = if *us != 0 {
                12
            } else if (*d, *h, *m, *s) != (0, 0, 0, 0) {
                8
            } else {
                0
            };
            out.push(n);
            let mut full = vec![*neg as u8];
            full.extend_from_slice(&d.to_le_bytes());
            full.extend_from_slice(&[*h, *m, *s]);
            full.extend_from_slice(&us.to_le_bytes());
            out.extend_from_slice(&full[..n as usize]);
        }
    }
}

pub fn bin_row(cols: &[Col], row: &[Cell]) -> Vec<u8> {
    let mut out = vec![0];
    let mut bitmap = vec![0u8; (cols.len() + 7 + 2) / 8];
    for (i, cell) in row.iter().enumerate() {
        if *cell == Cell::Null {
            bitmap[(i + 2) / 8] |= 1 << ((i + 2) % 8);
        }
    }
    out.extend_from_slice(&bitmap);
    for (col, cell) in cols.iter().zip(row) {
        bin_value(&mut out, col.ty, cell);
    }
    out
}

/// Decodes a parameter of COM_STMT_EXECUTE.
pub fn param_value(t: u8, unsigned: bool, rd: &mut Rd<'_>) -> Result<Cell, String> {
    fn le(x: &[u8]) -> u64 {
        x.iter().rev().fold(0, |a, b| a << 8 | *b as u64)
    }
    Ok(match t {
        // a server reads a string
        ty::NULL => return Err("a value of type NULL that is not marked as NULL".into()),
        ty::TINY | ty::SHORT | ty::YEAR | ty::LONG | ty::INT24 | ty::LONGLONG => {
            let w = int_width(t).unwrap();
            let x = rd.int(w)?;
            if unsigned {
                Cell::Int(x as i128)
            } else {
                let sh = 64 - 8 * w as u32;
                Cell::Int((((x << sh) as i64) >> sh) as i128)
            }
        }
        ty::FLOAT => Cell::F32(f32::from_bits(rd.int(4)? as u32)),
        ty::DOUBLE => Cell::F64(f64::from_bits(rd.int(8)?)),
        ty::DATE | ty::DATETIME | ty::TIMESTAMP => {
            let n = rd.int(1)? as usize;
            if ![0, 4, 7, 11].contains(&n) {
                return Err(format!("datetime of {n} bytes"));
            }
            let mut x = rd.take(n)?.to_vec();
            x.resize(11, 0);
            let y = le(&x[..2]) as u16;
            if t == ty::DATE {
                if x[4..] != [0; 7] {
                    return Err("date with time".into());
                }
                Cell::Date(y, x[2], x[3])
            } else {
                Cell::DateTime(y, x[2], x[3], x[4], x[5], x[6], le(&x[7..]) as u32)
            }
        }
        ty::TIME => {
            let n = rd.int(1)? as usize;
            if ![0, 8, 12].contains(&n) {
                return Err(format!("time of {n} bytes"));
            }
            let mut x = rd.take(n)?.to_vec();
            x.resize(12, 0);
            if x[0] > 1 {
                return Err(format!("sign {}", x[0]));
            }
            Cell::Time(
                x[0] == 1,
                le(&x[1..5]) as u32,
                x[5],
                x[6],
                x[7],
                le(&x[8..]) as u32,
            )
        }
        ty::VARCHAR
        | ty::VAR_STRING
        | ty::STRING
        | ty::BLOB
        | ty::TINY_BLOB
        | ty::MEDIUM_BLOB
        | ty::LONG_BLOB
        | ty::DECIMAL
        | ty::NEWDECIMAL
        | ty::BIT
        | ty::ENUM
        | ty::SET
        | ty::JSON
        | ty::GEOMETRY => Cell::Bytes(rd.str()?.to_vec()),
        x => return Err(format!("parameter of type {x}")),
    })
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct OkData {
    pub affected: u64,
    pub insert_id: u64,
    pub status: u16,
    pub warnings: u16,
    pub info: String,
}

impl OkData {
    pub fn new(affected: u64, insert_id: u64) -> Self {
        Self {
            affected,
            insert_id,
            status: status::AUTOCOMMIT,
            ..Self::default()
        }
    }

    pub fn encode(&self, header: u8) -> Vec<u8> {
        let mut out = vec![header];
        put_lenenc(&mut out, self.affected);
        put_lenenc(&mut out, self.insert_id);
        out.extend_from_slice(&self.status.to_le_bytes());
        out.extend_from_slice(&self.warnings.to_le_bytes());
        if !self.info.is_empty() {
            put_str(&mut out, self.info.as_bytes());
        }
        out
    }

    pub fn eof(&self) -> Vec<u8> {
        let mut out = vec![0xFE];
        out.extend_from_slice(&self.warnings.to_le_bytes());
        out.extend_from_slice(&self.status.to_le_bytes());
        out
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ErrData {
    pub code: u16,
    /// without state if the server doesn't know the capabilities of the client
    pub state: Option<[u8; 5]>,
    pub msg: String,
}

impl ErrData {
    pub fn new(code: u16, state: &str, msg: &str) -> Self {
        Self {
            code,
            state: Some(state.as_bytes().try_into().unwrap()),
            msg: msg.to_owned(),
        }
    }

    pub fn encode(&self) -> Vec<u8> {
        let mut out = vec![0xFF];
        out.extend_from_slice(&self.code.to_le_bytes());
        if let Some(state) = self.state {
            out.push(b'#');
            out.extend_from_slice(&state);
        }
        out.extend_from_slice(self.msg.as_bytes());
        out
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok(OkData),
    Err(ErrData),
}

/// One result of a command.
#[derive(Clone, Debug, PartialEq)]
pub enum Reply {
    Ok(OkData),
    Err(ErrData),
    Rows {
        cols: Vec<Col>,
        rows: Vec<Vec<Cell>>,
        end: End,
    },
    Prepared {
        id: u32,
        params: usize,
        cols: Vec<Col>,
    },
    /// packets as they are
    Packets(Vec<Vec<u8>>),
    /// no response at all
    Silence,
    /// the end of the connection
    Close,
}

/// Renders the results of one command to payloads.
pub fn render(replies: &[Reply], binary: bool, caps: u32) -> Vec<Vec<u8>> {
    let deprecate = caps & cap::DEPRECATE_EOF != 0;
    let mut out = Vec::new();
    let eof = OkData::new(0, 0);
    for (i, reply) in replies.iter().enumerate() {
        let more = i + 1 < replies.len();
        let flag = |ok: &OkData| {
            let mut ok = ok.clone();
            if more {
                ok.status |= status::MORE_RESULTS;
            }
            ok
        };
        match reply {
            Reply::Ok(ok) => out.push(flag(ok).encode(0)),
            Reply::Err(err) => out.push(err.encode()),
            Reply::Rows { cols, rows, end } => {
                let mut n = Vec::new();
                put_lenenc(&mut n, cols.len() as u64);
                out.push(n);
                for c in cols {
                    out.push(c.encode());
                }
                if !deprecate {
                    let mut e = eof.clone();
                    if more {
                        // MySQL sets this flag in every EOF packet of the result
                        e.status |= status::MORE_RESULTS;
                    }
                    out.push(e.eof());
                }
                for row in rows {
                    out.push(if binary {
                        bin_row(cols, row)
                    } else {
                        text_row(cols, row)
                    });
                }
                out.push(match end {
                    End::Ok(ok) if deprecate => flag(ok).encode(0xFE),
                    End::Ok(ok) => flag(ok).eof(),
                    End::Err(err) => err.encode(),
                });
            }
            Reply::Prepared { id, params, cols } => {
                let mut p = vec![0];
                p.extend_from_slice(&id.to_le_bytes());
                p.extend_from_slice(&(cols.len() as u16).to_le_bytes());
                p.extend_from_slice(&(*params as u16).to_le_bytes());
                p.extend_from_slice(&[0, 0, 0]);
                out.push(p);
                for i in 0..*params {
                    let mut c = Col::new("?", ty::VAR_STRING, 0);
                    c.org_name = format!("{i}");
                    out.push(c.encode());
                }
                if *params != 0 && !deprecate {
                    out.push(eof.eof());
                }
                for c in cols {
                    out.push(c.encode());
                }
                if !cols.is_empty() && !deprecate {
                    out.push(eof.eof());
                }
            }
            Reply::Packets(p) => out.extend(p.iter().cloned()),
            Reply::Silence | Reply::Close => {}
        }
    }
    out
}

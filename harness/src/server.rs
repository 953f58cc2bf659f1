//! Reference model of a MySQL server: an independent state machine that checks what the client
//! sends and answers commands with results chosen by the explored scenario.
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex},
};

use sha1::Digest;

use crate::{
    mock::Peer,
    rsa::Key,
    wire::{cap, param_value, put_lenenc, render, Cell, ErrData, OkData, Rd, Reply, MAX},
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Plugin {
    Native,
    Sha2,
    Clear,
}

/// Collations of `utf8`, of at most three bytes per character
const UTF8MB3: [u8; 27] = [
    33, 83, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212,
    213, 214, 215, 223,
];
/// Collations of `utf8mb4`
const UTF8MB4: [u8; 27] = [
    45, 46, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244,
    245, 246, 247, 255,
];

/// Collations with which all characters that a server of the version can store reach it: `utf8mb4`
/// came with 5.5.3. Either is accepted if the version is not three numbers.
fn utf8_of(version: &str) -> Vec<u8> {
    let version = match version.strip_prefix("5.5.5-") {
        Some(x) if x.contains("MariaDB") => x,
        _ => version,
    };
    let numbers: Vec<&str> = version.split(['.', '-', '+', '~']).take(3).collect();
    let plain = numbers.len() == 3
        && numbers.iter().all(|x| !x.is_empty() && x.len() < 5 && x.bytes().all(|b| b.is_ascii_digit()));
    if !plain {
        return [UTF8MB3, UTF8MB4].concat();
    }
    let numbers: Vec<u16> = numbers.iter().map(|x| x.parse().expect("digits")).collect();
    if numbers >= vec![5, 5, 3] {
        UTF8MB4.to_vec()
    } else {
        UTF8MB3.to_vec()
    }
}

impl Plugin {
    pub fn name(self) -> &'static str {
        match self {
            Plugin::Native => "mysql_native_password",
            Plugin::Sha2 => "caching_sha2_password",
            Plugin::Clear => "mysql_clear_password",
        }
    }
    pub fn from_name(x: &[u8]) -> Option<Self> {
        [Plugin::Native, Plugin::Sha2, Plugin::Clear]
            .into_iter()
            .find(|p| p.name().as_bytes() == x)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Query(Vec<u8>),
    Prepare(Vec<u8>),
    Execute { stmt: u32, params: Vec<(u8, bool, Cell)> },
    LongData { stmt: u32, param: u16, data: Vec<u8> },
    Quit,
    Bad(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    Login {
        caps: u32,
        max_packet: u32,
        charset: u8,
        user: Vec<u8>,
        auth: Vec<u8>,
        db: Option<Vec<u8>>,
        plugin: Option<Vec<u8>>,
    },
    Auth(Vec<u8>),
    Cmd(Cmd),
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub version: String,
    pub conn_id: u32,
    pub caps: u32,
    pub nonce: Vec<u8>,
    pub plugin: Plugin,
    /// The greeting names another plugin than that of the account.
    pub announced: Option<String>,
    pub user: String,
    pub password: String,
    /// The server asks for another plugin with this nonce.
    pub switch: Option<(Plugin, Vec<u8>)>,
    /// Nonces of switch requests end with a zero byte
    pub switch_nul: bool,
    /// `caching_sha2_password` knows the password already
    pub cached: bool,
    pub secure: bool,
    pub key: Option<Arc<Key>>,
    pub ok: OkData,
    /// instead of a greeting
    pub refuse: Option<ErrData>,
    /// instead of asking anything after the login
    pub login_err: Option<ErrData>,
    /// instead of the key
    pub key_err: Option<ErrData>,
    /// instead of the final OK
    pub final_err: Option<ErrData>,
}

impl Default for Cfg {
    fn default() -> Self {
        Self {
            version: "8.0.36".into(),
            conn_id: 7,
            caps: cap::DEFAULT,
            nonce: (1..=20).collect(),
            plugin: Plugin::Native,
            announced: None,
            user: "user".into(),
            password: "secret".into(),
            switch: None,
            switch_nul: true,
            cached: true,
            secure: false,
            key: None,
            ok: OkData::new(0, 0),
            refuse: None,
            login_err: None,
            key_err: None,
            final_err: None,
        }
    }
}

impl Cfg {
    pub fn greeting(&self) -> Vec<u8> {
        let mut out = vec![10];
        out.extend_from_slice(self.version.as_bytes());
        out.push(0);
        out.extend_from_slice(&self.conn_id.to_le_bytes());
        let mut nonce = self.nonce.clone();
        nonce.push(0);
        out.extend_from_slice(&nonce[..8]);
        out.push(0);
        out.extend_from_slice(&(self.caps as u16).to_le_bytes());
        out.push(45);
        out.extend_from_slice(&2u16.to_le_bytes());
        out.extend_from_slice(&((self.caps >> 16) as u16).to_le_bytes());
        out.push(if self.caps & cap::PLUGIN_AUTH != 0 {
            nonce.len() as u8
        } else {
            0
        });
        out.extend_from_slice(&[0; 10]);
        if self.caps & cap::SECURE_CONNECTION != 0 {
            let mut rest = nonce[8..].to_vec();
            if rest.len() < 13 {
                rest.resize(13, 0);
            }
            out.extend_from_slice(&rest);
        }
        if self.caps & cap::PLUGIN_AUTH != 0 {
            out.extend_from_slice(match &self.announced {
                Some(x) => x.as_bytes(),
                None => self.plugin.name().as_bytes(),
            });
            out.push(0);
        }
        out
    }
}

fn sha1(x: &[&[u8]]) -> Vec<u8> {
    let mut h = sha1::Sha1::new();
    x.iter().for_each(|x| h.update(x));
    h.finalize().to_vec()
}

fn sha256(x: &[&[u8]]) -> Vec<u8> {
    let mut h = sha2::Sha256::new();
    x.iter().for_each(|x| h.update(x));
    h.finalize().to_vec()
}

/// The check of the server: it knows only SHA1(SHA1(password)).
pub fn native_ok(password: &[u8], nonce: &[u8], proof: &[u8]) -> bool {
    if password.is_empty() {
        return proof.is_empty();
    }
    if proof.len() != 20 {
        return false;
    }
    let stored = sha1(&[&sha1(&[password])]);
    let mask = sha1(&[nonce, &stored]);
    let stage1: Vec<u8> = proof.iter().zip(&mask).map(|(a, b)| a ^ b).collect();
    sha1(&[&stage1]) == stored
}

pub fn sha2_ok(password: &[u8], nonce: &[u8], proof: &[u8]) -> bool {
    if password.is_empty() {
        return proof.is_empty();
    }
    if proof.len() != 32 {
        return false;
    }
    let stored = sha256(&[&sha256(&[password])]);
    let mask = sha256(&[&stored, nonce]);
    let stage1: Vec<u8> = proof.iter().zip(&mask).map(|(a, b)| a ^ b).collect();
    sha256(&[&stage1]) == stored
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum State {
    Login,
    Switched(Plugin),
    Sha2Full,
    Sha2Key,
    Ready,
    Closed,
}

pub type Handler = Box<dyn FnMut(&Cmd) -> Vec<Reply> + Send>;

/// Start of a packet in the stream to the client.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Mark {
    pub at: usize,
    pub len: usize,
    pub seq: u8,
    /// number of commands received before
    pub cmd: usize,
}

#[derive(Default)]
pub struct Log {
    pub events: Vec<Event>,
    /// what the client did wrong
    pub errors: Vec<String>,
    pub marks: Vec<Mark>,
    pub authenticated: bool,
    pub client_caps: u32,
    pub states: Vec<u64>,
    /// statements that were prepared
    pub prepared: usize,
    /// the most statements that were open at once
    pub most_open: usize,
}

impl Log {
    pub fn cmds(&self) -> Vec<Cmd> {
        self.events
            .iter()
            .filter_map(|e| match e {
                Event::Cmd(c) => Some(c.clone()),
                _ => None,
            })
            .collect()
    }
}

pub type Tamper = Box<dyn FnMut(usize, &mut Vec<u8>, &mut u8) -> Option<Vec<u8>> + Send>;

pub struct Server {
    pub cfg: Cfg,
    state: State,
    nonce: Vec<u8>,
    buf: Vec<u8>,
    payload: Vec<u8>,
    partial: bool,
    seq: u8,
    stmts: BTreeMap<u32, usize>,
    long: BTreeMap<(u32, u16), Vec<u8>>,
    handler: Handler,
    /// Called for every packet to the client: may change content and sequence id, or replace the
    /// bytes altogether.
    pub tamper: Option<Tamper>,
    packets: usize,
    pub log: Arc<Mutex<Log>>,
    cmds: usize,
}

impl Server {
    pub fn new(cfg: Cfg, handler: Handler) -> Self {
        Self {
            nonce: cfg.nonce.clone(),
            cfg,
            state: State::Login,
            buf: Vec::new(),
            payload: Vec::new(),
            partial: false,
            seq: 0,
            stmts: BTreeMap::new(),
            long: BTreeMap::new(),
            handler,
            tamper: None,
            packets: 0,
            log: Arc::default(),
            cmds: 0,
        }
    }

    fn error(&mut self, text: impl Into<String>) {
        self.log.lock().unwrap().errors.push(text.into());
    }

    fn event(&mut self, e: Event) {
        self.log.lock().unwrap().events.push(e);
    }

    pub fn send(&mut self, out: &mut Vec<u8>, payload: &[u8]) {
        let mut rest = payload;
        loop {
            let n = rest.len().min(MAX);
            let (chunk, tail) = rest.split_at(n);
            let mut seq = self.seq;
            self.seq = self.seq.wrapping_add(1);
            let mark = Mark {
                at: out.len(),
                len: n,
                seq,
                cmd: self.cmds,
            };
            self.log.lock().unwrap().marks.push(mark);
            let index = self.packets;
            self.packets += 1;
            if let Some(t) = &mut self.tamper {
                let mut data = chunk.to_vec();
                if let Some(raw) = t(index, &mut data, &mut seq) {
                    out.extend_from_slice(&raw);
                } else {
                    out.extend_from_slice(&(data.len() as u32).to_le_bytes()[..3]);
                    out.push(seq);
                    out.extend_from_slice(&data);
                }
            } else {
                out.extend_from_slice(&(n as u32).to_le_bytes()[..3]);
                out.push(seq);
                out.extend_from_slice(chunk);
            }
            rest = tail;
            if n < MAX {
                break;
            }
        }
    }

    fn verdict(&mut self, ok: bool, out: &mut Vec<u8>) {
        let payload = if let Some(e) = self.cfg.final_err.clone() {
            self.state = State::Closed;
            e.encode()
        } else if ok {
            self.state = State::Ready;
            self.log.lock().unwrap().authenticated = true;
            self.cfg.ok.encode(0)
        } else {
            self.state = State::Closed;
            ErrData::new(1045, "28000", "Access denied").encode()
        };
        self.send(out, &payload);
    }

    fn check_proof(&mut self, plugin: Plugin, proof: &[u8], out: &mut Vec<u8>) {
        let password = self.cfg.password.clone().into_bytes();
        match plugin {
            Plugin::Native => {
                let ok = native_ok(&password, &self.nonce, proof);
                self.verdict(ok, out)
            }
            Plugin::Clear => {
                // A packet of its own holds a NUL-terminated string; in the login packet, where the
                // length is sent along, clients differ.
                let bare = match self.state {
                    State::Switched(_) => proof.strip_suffix(&[0]),
                    _ => Some(proof.strip_suffix(&[0]).unwrap_or(proof)),
                };
                self.verdict(bare == Some(&password[..]), out)
            }
            Plugin::Sha2 => {
                if proof.is_empty() || proof == [0] {
                    return self.verdict(password.is_empty(), out);
                }
                if self.cfg.cached {
                    if sha2_ok(&password, &self.nonce, proof) {
                        self.send(out, &[1, 3]);
                        self.verdict(true, out)
                    } else {
                        self.verdict(false, out)
                    }
                } else {
                    self.state = State::Sha2Full;
                    self.send(out, &[1, 4])
                }
            }
        }
    }

    fn login(&mut self, p: &[u8], out: &mut Vec<u8>) -> Result<(), String> {
        let mut rd = Rd(p);
        let caps = rd.int(4)? as u32;
        let max_packet = rd.int(4)? as u32;
        let charset = rd.int(1)? as u8;
        if rd.take(23)?.iter().any(|x| *x != 0) {
            return Err("filler of the login is not zero".into());
        }
        if caps & cap::PROTOCOL_41 == 0 {
            return Err("no protocol 4.1".into());
        }
        if !utf8_of(&self.cfg.version).contains(&charset) {
            return Err(format!(
                "collation {charset} of the login is not UTF-8 as version {:?} knows it",
                self.cfg.version
            ));
        }
        let user = rd.nul()?.to_vec();
        let auth = if caps & cap::PLUGIN_AUTH_LENENC != 0 {
            rd.str()?.to_vec()
        } else if caps & cap::SECURE_CONNECTION != 0 {
            let n = rd.int(1)?;
            rd.take(n as usize)?.to_vec()
        } else {
            rd.nul()?.to_vec()
        };
        let db = if caps & cap::CONNECT_WITH_DB != 0 {
            Some(rd.nul()?.to_vec())
        } else {
            None
        };
        let plugin = if caps & cap::PLUGIN_AUTH != 0 {
            Some(rd.nul()?.to_vec())
        } else {
            None
        };
        if caps & cap::CONNECT_ATTRS == 0 {
            rd.end()?;
        }
        self.log.lock().unwrap().client_caps = caps;
        self.event(Event::Login {
            caps,
            max_packet,
            charset,
            user: user.clone(),
            auth: auth.clone(),
            db,
            plugin: plugin.clone(),
        });
        if let Some(e) = self.cfg.login_err.clone() {
            self.state = State::Closed;
            self.send(out, &e.encode());
            return Ok(());
        }
        if user != self.cfg.user.as_bytes() {
            self.verdict(false, out);
            return Ok(());
        }
        let used = match &plugin {
            Some(x) => Plugin::from_name(x),
            None => Some(Plugin::Native),
        };
        let wanted = self
            .cfg
            .switch
            .clone()
            .map(|x| x.0)
            .unwrap_or(self.cfg.plugin);
        if self.cfg.switch.is_some() || used != Some(wanted) {
            // a plugin other than the one of the account
            let nonce = match &self.cfg.switch {
                Some(x) => x.1.clone(),
                None => self.cfg.nonce.iter().rev().copied().collect(),
            };
            self.nonce = nonce;
            self.state = State::Switched(wanted);
            let mut p = vec![0xFE];
            p.extend_from_slice(wanted.name().as_bytes());
            p.push(0);
            p.extend_from_slice(&self.nonce);
            if self.cfg.switch_nul {
                p.push(0);
            }
            self.send(out, &p);
            return Ok(());
        }
        self.check_proof(wanted, &auth, out);
        Ok(())
    }

    fn message(&mut self, p: &[u8], out: &mut Vec<u8>) -> Result<(), String> {
        match self.state {
            State::Login => self.login(p, out),
            State::Switched(plugin) => {
                self.event(Event::Auth(p.to_vec()));
                self.check_proof(plugin, p, out);
                Ok(())
            }
            State::Sha2Full => {
                self.event(Event::Auth(p.to_vec()));
                let password = self.cfg.password.clone().into_bytes();
                if self.cfg.secure {
                    let ok = p.split_last() == Some((&0, &password[..]));
                    self.verdict(ok, out);
                    return Ok(());
                }
                if p == [2] {
                    if let Some(e) = self.cfg.key_err.clone() {
                        self.state = State::Closed;
                        self.send(out, &e.encode());
                        return Ok(());
                    }
                    self.state = State::Sha2Key;
                    let mut msg = vec![1];
                    let key = self.cfg.key.clone().ok_or("no key")?;
                    msg.extend_from_slice(key.pem_pkcs8().as_bytes());
                    self.send(out, &msg);
                    return Ok(());
                }
                self.encrypted(p, out)
            }
            State::Sha2Key => {
                self.event(Event::Auth(p.to_vec()));
                self.encrypted(p, out)
            }
            State::Ready => {
                // closing a statement is not answered
                if p.first() != Some(&25) {
                    self.cmds += 1;
                }
                self.command(p, out)
            }
            State::Closed => Err("message after the end".into()),
        }
    }

    fn encrypted(&mut self, p: &[u8], out: &mut Vec<u8>) -> Result<(), String> {
        let key = self.cfg.key.clone().ok_or("no key")?;
        let plain = key.decrypt_oaep(p)?;
        let plain: Vec<u8> = plain
            .iter()
            .enumerate()
            .map(|(i, x)| x ^ self.nonce[i % self.nonce.len()])
            .collect();
        let ok = plain.split_last() == Some((&0, self.cfg.password.as_bytes()));
        self.verdict(ok, out);
        Ok(())
    }

    fn execute(&mut self, p: &[u8]) -> Result<(u32, Vec<(u8, bool, Cell)>), String> {
        let mut rd = Rd(&p[1..]);
        let stmt = rd.int(4)? as u32;
        let flags = rd.int(1)?;
        let count = rd.int(4)?;
        if flags != 0 || count != 1 {
            return Err(format!("execute with flags {flags} and {count} iterations"));
        }
        let n = *self
            .stmts
            .get(&stmt)
            .ok_or(format!("unknown statement {stmt}"))?;
        let mut params = Vec::new();
        if n > 0 {
            let bitmap = rd.take((n + 7) / 8)?;
            if rd.int(1)? != 1 {
                return Err("parameters not bound".into());
            }
            let types = rd.take(2 * n)?;
            for i in 0..n {
                let (t, f) = (types[2 * i], types[2 * i + 1]);
                if f & 0x7F != 0 {
                    return Err(format!("flags {f} of a parameter"));
                }
                let unsigned = f & 0x80 != 0;
                let cell = if let Some(data) = self.long.get(&(stmt, i as u16)) {
                    Cell::Bytes(data.clone())
                } else if bitmap[i / 8] >> (i % 8) & 1 != 0 {
                    Cell::Null
                } else {
                    let c = param_value(t, unsigned, &mut rd).map_err(|e| format!("parameter {i}: {e}"))?;
                    c
                };
                params.push((t, unsigned, cell));
            }
            // bits beyond the last parameter
            for i in n..(n + 7) / 8 * 8 {
                if bitmap[i / 8] >> (i % 8) & 1 != 0 {
                    return Err("bitmap has bits beyond the last parameter".into());
                }
            }
        }
        rd.end()?;
        self.long.retain(|k, _| k.0 != stmt);
        Ok((stmt, params))
    }

    fn command(&mut self, p: &[u8], out: &mut Vec<u8>) -> Result<(), String> {
        let (cmd, binary) = match p.first() {
            Some(3) => (Cmd::Query(p[1..].to_vec()), false),
            Some(22) => (Cmd::Prepare(p[1..].to_vec()), false),
            Some(23) => {
                let (stmt, params) = match self.execute(p) {
                    Ok(x) => x,
                    Err(e) => {
                        self.event(Event::Cmd(Cmd::Bad(p.to_vec())));
                        self.send(out, &ErrData::new(1835, "HY000", "Malformed").encode());
                        return Err(e);
                    }
                };
                (Cmd::Execute { stmt, params }, true)
            }
            Some(24) => {
                if p.len() < 7 {
                    return Err("long data too short".into());
                }
                let stmt = u32::from_le_bytes(p[1..5].try_into().unwrap());
                let param = u16::from_le_bytes(p[5..7].try_into().unwrap());
                if self.stmts.get(&stmt).map(|n| (param as usize) < *n) != Some(true) {
                    return Err(format!("long data for parameter {param} of statement {stmt}"));
                }
                self.long
                    .entry((stmt, param))
                    .or_default()
                    .extend_from_slice(&p[7..]);
                self.event(Event::Cmd(Cmd::LongData {
                    stmt,
                    param,
                    data: p[7..].to_vec(),
                }));
                return Ok(());
            }
            Some(1) => {
                self.event(Event::Cmd(Cmd::Quit));
                self.state = State::Closed;
                return if p.len() == 1 {
                    Ok(())
                } else {
                    Err("quit with data".into())
                };
            }
            // COM_STMT_CLOSE has no response
            Some(25) if p.len() == 5 => {
                let stmt = u32::from_le_bytes(p[1..5].try_into().unwrap());
                self.stmts.remove(&stmt);
                self.long.retain(|k, _| k.0 != stmt);
                return Ok(());
            }
            _ => {
                self.event(Event::Cmd(Cmd::Bad(p.to_vec())));
                self.send(out, &ErrData::new(1047, "08S01", "Unknown command").encode());
                return Err(format!("unknown command {:?}", &p[..p.len().min(16)]));
            }
        };
        self.event(Event::Cmd(cmd.clone()));
        let replies = (self.handler)(&cmd);
        for r in &replies {
            if let Reply::Prepared { id, params, .. } = r {
                self.stmts.insert(*id, *params);
                let mut log = self.log.lock().unwrap();
                log.prepared += 1;
                log.most_open = log.most_open.max(self.stmts.len());
            }
        }
        // the server follows the capabilities both sides have
        let caps = self.cfg.caps & self.log.lock().unwrap().client_caps;
        for p in render(&replies, binary, caps) {
            self.send(out, &p);
        }
        if matches!(replies.last(), Some(Reply::Close)) {
            self.state = State::Closed;
        }
        Ok(())
    }
}

impl Peer for Server {
    fn open(&mut self, out: &mut Vec<u8>) {
        if let Some(e) = self.cfg.refuse.clone() {
            self.state = State::Closed;
            self.send(out, &e.encode());
        } else {
            let p = self.cfg.greeting();
            self.send(out, &p);
        }
    }

    fn recv(&mut self, bytes: &[u8], out: &mut Vec<u8>) {
        self.buf.extend_from_slice(bytes);
        let mut at = 0;
        while self.buf.len() - at >= 4 {
            let head = &self.buf[at..at + 4];
            let n = head[0] as usize | (head[1] as usize) << 8 | (head[2] as usize) << 16;
            let seq = head[3];
            if self.buf.len() - at < 4 + n {
                break;
            }
            if !self.partial && self.state == State::Ready {
                // every command starts anew
                self.seq = 0;
            }
            if seq != self.seq {
                let e = format!("packet with sequence id {seq} instead of {}", self.seq);
                self.error(e);
            }
            self.seq = seq.wrapping_add(1);
            let chunk = self.buf[at + 4..at + 4 + n].to_vec();
            at += 4 + n;
            self.payload.extend_from_slice(&chunk);
            self.partial = n == MAX;
            if !self.partial {
                let p = std::mem::take(&mut self.payload);
                if let Err(e) = self.message(&p, out) {
                    self.error(e);
                }
            }
        }
        self.buf.drain(..at);
    }

    fn closed(&self) -> bool {
        self.state == State::Closed
    }
}

/// Length encoded integer as bytes.
pub fn lenenc(x: u64) -> Vec<u8> {
    let mut out = Vec::new();
    put_lenenc(&mut out, x);
    out
}

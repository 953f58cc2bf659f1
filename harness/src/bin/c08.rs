//! C08: no server can extract the password from an insecure connection.
use std::sync::{Arc, Mutex, OnceLock};

use mc::{
    drive::{options, E},
    engine::{ask, scoped},
    mock::{Peer, Pipe, Plan},
    rsa::Key,
    rt,
    server::{native_ok, sha2_ok, Cfg, Plugin},
    wire::{cap, ErrData, OkData, Rd},
    Chooser, Level,
};
use mysql_connector::{types::AuthPlugin, Connection, PublicKey};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

const PASSWORD: &str = "pa55-w0rd";
const USER: &str = "somebody";

/// What the crate's own stream says about itself.
const TCP: bool = <tokio::net::TcpStream as mysql_connector::Stream>::SECURE;

/// (key of the server, configured key, another key)
fn keys() -> &'static [Key; 3] {
    static KEYS: OnceLock<[Key; 3]> = OnceLock::new();
    KEYS.get_or_init(|| [Key::generate(512, 1), Key::generate(520, 2), Key::generate(600, 3)])
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Packet {
    Ok,
    Err,
    Eof,
    FastOk,
    Full,
    Switch(Plugin),
    SwitchEmptyNonce(Plugin),
    /// without the zero bytes
    SwitchShort,
    SwitchUnknown,
    OldSwitch,
    Key,
    OtherKey,
    BadKey,
    More,
    MoreLong,
    Empty,
    Columns,
    LocalInfile,
    Junk,
    EndOfStream,
}

const PACKETS: &[Packet] = &[
    Packet::Ok,
    Packet::Full,
    Packet::Switch(Plugin::Native),
    Packet::Switch(Plugin::Sha2),
    Packet::Switch(Plugin::Clear),
    Packet::Key,
    Packet::FastOk,
    Packet::Err,
    Packet::Eof,
    Packet::SwitchEmptyNonce(Plugin::Sha2),
    Packet::SwitchEmptyNonce(Plugin::Native),
    Packet::SwitchEmptyNonce(Plugin::Clear),
    Packet::SwitchShort,
    Packet::SwitchUnknown,
    Packet::OldSwitch,
    Packet::OtherKey,
    Packet::BadKey,
    Packet::More,
    Packet::MoreLong,
    Packet::Empty,
    Packet::Columns,
    Packet::LocalInfile,
    Packet::Junk,
    Packet::EndOfStream,
];

impl Packet {
    fn content(self, nonce: &[u8]) -> Vec<u8> {
        let switch = |p: &str, nonce: &[u8], end: &[u8]| [&[0xFE][..], p.as_bytes(), &[0], nonce, end].concat();
        let key = |k: &Key| [&[1][..], k.pem_pkcs8().as_bytes()].concat();
        match self {
            Packet::Ok => OkData::new(0, 0).encode(0),
            Packet::Err => ErrData::new(1045, "28000", "denied").encode(),
            Packet::Eof => vec![0xFE, 0, 0, 2, 0],
            Packet::FastOk => vec![1, 3],
            Packet::Full => vec![1, 4],
            Packet::Switch(p) => switch(p.name(), nonce, &[0]),
            Packet::SwitchEmptyNonce(p) => switch(p.name(), &[], &[0]),
            Packet::SwitchShort => [&[0xFE][..], b"mysql_clear_password"].concat(),
            Packet::SwitchUnknown => switch("dialog", nonce, &[0]),
            Packet::OldSwitch => vec![0xFE],
            Packet::Key => key(&keys()[0]),
            Packet::OtherKey => key(&keys()[2]),
            Packet::BadKey => [&[1][..], b"-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n"].concat(),
            Packet::More => vec![1],
            Packet::MoreLong => vec![1, 4, 4],
            Packet::Empty => vec![],
            Packet::Columns => vec![1],
            Packet::LocalInfile => b"\xFB/etc/passwd".to_vec(),
            Packet::Junk => vec![2, 0xFF, 0xFE, 1],
            Packet::EndOfStream => unreachable!(),
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Greeting {
    Of(Plugin),
    Unknown,
    /// no authentication plugins
    Old,
    ZeroNonce,
}

#[derive(Default)]
struct Seen {
    sent: Vec<Packet>,
    /// what the client sent that it must not
    errors: Vec<String>,
    messages: usize,
    forms: Vec<&'static str>,
    authenticated: bool,
}

#[derive(Clone, Copy, Debug)]
struct Setup {
    forced: Option<Plugin>,
    allow: bool,
    secure: bool,
    /// whether the stream claims to be what a TCP stream claims
    tcp: bool,
    key: bool,
    greeting: Greeting,
    password: &'static str,
}

/// A server that sends any packet whenever the client waits for one.
struct Hostile {
    setup: Setup,
    depth: usize,
    nonces: Vec<Vec<u8>>,
    /// plugin the server asked for last
    plugin: Option<Plugin>,
    seq: u8,
    buf: Vec<u8>,
    login: bool,
    /// keys that were sent
    keys: Vec<usize>,
    seen: Arc<Mutex<Seen>>,
    closed: bool,
}

impl Hostile {
    fn nonce(&self) -> &[u8] {
        self.nonces.last().map(|x| &x[..]).unwrap_or_default()
    }

    fn put(&mut self, out: &mut Vec<u8>, content: &[u8]) {
        out.extend_from_slice(&(content.len() as u32).to_le_bytes()[..3]);
        out.push(self.seq);
        self.seq = self.seq.wrapping_add(1);
        out.extend_from_slice(content);
    }

    fn error(&self, text: String) {
        self.seen.lock().unwrap().errors.push(text);
    }

    /// Whether `auth` gives the server nothing but a proof, and which.
    fn form(&self, auth: &[u8], first: bool) -> Result<&'static str, String> {
        let s = &self.setup;
        let password = s.password.as_bytes();
        let plain = |x: &[u8]| !password.is_empty() && (x == password || x == [password, &[0]].concat());
        if password.is_empty() && (auth.is_empty() || auth == [0]) {
            return Ok("empty");
        }
        if native_ok(password, self.nonce(), auth) && !password.is_empty() {
            return Ok("native");
        }
        if sha2_ok(password, self.nonce(), auth) && !password.is_empty() {
            return Ok("sha2");
        }
        if auth == [2] && !first {
            return Ok("key request");
        }
        if plain(auth) {
            let asked_full = matches!(self.seen.lock().unwrap().sent.last(), Some(Packet::Full | Packet::MoreLong));
            if s.secure && asked_full {
                return Ok("plain over a secure stream");
            }
            if s.allow && self.plugin == Some(Plugin::Clear) {
                return Ok("clear");
            }
            return Err(format!("the password in clear text after {:?}", self.seen.lock().unwrap().sent));
        }
        let mut with = password.to_vec();
        with.push(0);
        let nonce = self.nonce();
        let mut known: Vec<usize> = self.keys.clone();
        if s.key {
            // the configured key takes the place of any other
            known = vec![1];
        }
        for k in known {
            if let Ok(plain) = keys()[k].decrypt_oaep(auth) {
                let plain: Vec<u8> = plain
                    .iter()
                    .enumerate()
                    .map(|(i, x)| if nonce.is_empty() { *x } else { x ^ nonce[i % nonce.len()] })
                    .collect();
                if plain == with {
                    return Ok("rsa");
                }
            }
        }
        Err(format!("an answer that is no proof: {auth:?}"))
    }

    fn message(&mut self, p: &[u8]) {
        let s = self.setup;
        let first = !self.login;
        let auth = if first {
            self.login = true;
            let parse = || -> Result<(Vec<u8>, Option<Vec<u8>>), String> {
                let mut rd = Rd(p);
                let caps = rd.int(4)? as u32;
                rd.take(28)?;
                if rd.nul()? != USER.as_bytes() {
                    return Err("another user".into());
                }
                let n = rd.int(1)?;
                let auth = rd.take(n as usize)?.to_vec();
                let plugin = if caps & cap::PLUGIN_AUTH != 0 {
                    Some(rd.nul()?.to_vec())
                } else {
                    None
                };
                rd.end()?;
                Ok((auth, plugin))
            };
            match parse() {
                Ok((auth, plugin)) => {
                    if let Some(name) = plugin {
                        match Plugin::from_name(&name) {
                            Some(p) => self.plugin = Some(p),
                            None => self.error(format!("unknown plugin {name:?}")),
                        }
                    }
                    auth
                }
                Err(e) => return self.error(format!("login: {e}")),
            }
        } else if self.seen.lock().unwrap().authenticated {
            // commands
            if !matches!(p.first(), Some(1 | 3 | 22)) {
                self.error(format!("unexpected command {p:?}"));
            }
            return;
        } else {
            p.to_vec()
        };
        let form = match self.form(&auth, first) {
            Ok(x) => x,
            Err(e) => return self.error(e),
        };
        self.seen.lock().unwrap().forms.push(form);
        // only what belongs to the configured plugin
        let allowed: &[&str] = match s.forced {
            None => return,
            Some(Plugin::Native) => &["native", "empty"],
            Some(Plugin::Sha2) => &["sha2", "empty", "key request", "rsa", "plain over a secure stream"],
            Some(Plugin::Clear) => &["clear", "empty"],
        };
        if !allowed.contains(&form) || self.plugin != s.forced {
            self.error(format!("{form} for {:?} although {:?} is configured", self.plugin, s.forced));
        }
    }
}

impl Peer for Hostile {
    fn open(&mut self, out: &mut Vec<u8>) {
        let plugin = match self.setup.greeting {
            Greeting::Of(p) => Some(p),
            _ => None,
        };
        let mut cfg = Cfg {
            nonce: self.nonces[0].clone(),
            plugin: plugin.unwrap_or(Plugin::Native),
            ..Cfg::default()
        };
        match self.setup.greeting {
            Greeting::Old => cfg.caps &= !cap::PLUGIN_AUTH,
            Greeting::ZeroNonce => {
                cfg.nonce = vec![0; 20];
                self.nonces = vec![vec![0; 20]];
            }
            _ => {}
        }
        let mut p = cfg.greeting();
        if let Greeting::Unknown = self.setup.greeting {
            let n = p.len() - Plugin::Native.name().len() - 1;
            p.truncate(n);
            p.extend_from_slice(b"dialog\0");
        }
        self.put(out, &p);
    }

    fn recv(&mut self, bytes: &[u8], _out: &mut Vec<u8>) {
        self.buf.extend_from_slice(bytes);
        while self.buf.len() >= 4 {
            let n = self.buf[0] as usize | (self.buf[1] as usize) << 8 | (self.buf[2] as usize) << 16;
            if self.buf.len() < 4 + n {
                break;
            }
            let p: Vec<u8> = self.buf.drain(..4 + n).collect();
            self.seq = p[3].wrapping_add(1);
            self.seen.lock().unwrap().messages += 1;
            self.message(&p[4..]);
        }
    }

    fn starved(&mut self, out: &mut Vec<u8>) {
        if self.closed {
            return;
        }
        if self.seen.lock().unwrap().sent.len() == self.depth {
            self.closed = true;
            return;
        }
        let p = PACKETS[ask(PACKETS.len())];
        if p == Packet::EndOfStream {
            self.closed = true;
            return;
        }
        // every switch has another nonce
        let nonce: Vec<u8> = (0..20).map(|i| 100 + self.nonces.len() as u8 * 25 + i).collect();
        let content = p.content(&nonce);
        match p {
            Packet::Switch(x) => {
                self.plugin = Some(x);
                self.nonces.push(nonce);
            }
            Packet::SwitchEmptyNonce(x) => {
                self.plugin = Some(x);
                self.nonces.push(Vec::new());
            }
            Packet::SwitchShort => {
                self.plugin = Some(Plugin::Clear);
                self.nonces.push(Vec::new());
            }
            Packet::Key => self.keys.push(0),
            Packet::OtherKey => self.keys.push(2),
            _ => {}
        }
        {
            let mut seen = self.seen.lock().unwrap();
            // the client takes it for the verdict unless it waits for something else
            seen.sent.push(p);
        }
        self.put(out, &content);
    }

    fn closed(&self) -> bool {
        self.closed
    }
}

fn plugin(x: Plugin) -> AuthPlugin {
    match x {
        Plugin::Native => AuthPlugin::Native,
        Plugin::Sha2 => AuthPlugin::Sha2,
        Plugin::Clear => AuthPlugin::Clear,
    }
}

fn session(setup: Setup, depth: usize, ch: &mut Chooser) -> Result<(), String> {
    let seen: Arc<Mutex<Seen>> = Arc::default();
    let server = Hostile {
        setup,
        depth,
        nonces: vec![(1..=20).collect()],
        plugin: None,
        seq: 0,
        buf: Vec::new(),
        login: false,
        keys: Vec::new(),
        seen: seen.clone(),
        closed: false,
    };
    let pipe = Arc::new(Mutex::new(Pipe::new(Box::new(server), Plan::default())));
    let res: Result<bool, E> = scoped(ch, || {
        async fn go<S: mysql_connector::Stream>(
            o: mysql_connector::ConnectionOptions<S>,
            seen: &Mutex<Seen>,
        ) -> Result<bool, E> {
            let mut conn = Connection::connect(Arc::new(o)).await.map_err(|e| E::of(&e))?;
            seen.lock().unwrap().authenticated = true;
            // some more chances for the server
            let q = conn.query::<Vec<mysql_connector::types::Value>>("select 1").await;
            if let Ok(mut rs) = q {
                let _ = rs.next().await;
            }
            let _ = conn.prepare_statement("select 2").await.map(|_| ());
            Ok(true)
        }
        macro_rules! with {
            ($secure:expr) => {{
                let mut o = options::<{ $secure }>(&pipe);
                o.user = USER.into();
                o.password = setup.password.into();
                o.auth_plugin = setup.forced.map(plugin);
                o.allow_cleartext_password = setup.allow;
                if setup.key {
                    let key = PublicKey::try_from_pem(keys()[1].pem_pkcs8().as_bytes()).expect("key");
                    o.server_key = Some(Arc::new(key));
                }
                rt::run(go(o, &seen))
            }};
        }
        if setup.tcp {
            with!(TCP)
        } else if setup.secure {
            with!(true)
        } else {
            with!(false)
        }
    })
    .map_err(|_| format!("{setup:?}: hang"))?;
    let seen = seen.lock().unwrap();
    let p = pipe.lock().unwrap();
    ch.steps(seen.sent.len() as u64 + seen.messages as u64);
    ch.state(&(&seen.sent, &seen.forms));
    ch.outcome(&(&seen.sent, &seen.forms, format!("{setup:?}"), &res));
    ch.note(|| format!("{setup:?} {:?} -> {:?} {res:?}", seen.sent, seen.forms));
    if let Some(e) = seen.errors.first() {
        return Err(format!("{setup:?}, packets {:?}: {e}", seen.sent));
    }
    // independent of the interpretation of messages: the password itself
    let may_be_plain = seen.forms.iter().any(|x| *x == "clear" || x.starts_with("plain"));
    if !setup.password.is_empty() && !may_be_plain {
        let pw = setup.password.as_bytes();
        let rev: Vec<u8> = pw.iter().rev().copied().collect();
        for (name, x) in [("password", pw), ("reversed password", &rev[..])] {
            if p.c2s.windows(x.len()).any(|w| w == x) {
                return Err(format!("{setup:?}, packets {:?}: the {name} was sent", seen.sent));
            }
        }
        // xor with a nonce is no protection
        let nonce: Vec<u8> = (1..=20).collect();
        let x: Vec<u8> = pw.iter().zip(&nonce).map(|(a, b)| a ^ b).collect();
        if p.c2s.windows(x.len()).any(|w| w == x) {
            return Err(format!("{setup:?}, packets {:?}: the masked password was sent", seen.sent));
        }
    }
    Ok(())
}

fn main() {
    mc::main(
        "C08",
        Level {
            level: "model_checking",
            rule: "every sequence of server packets within the bounds, chosen anew whenever the client waits \
                   for one, for every configuration; every message of the client is classified by \
                   recomputing the scrambles and decrypting RSA; states are (packets sent, forms of the \
                   answers)",
            assumptions: &[
                "a proof is what the reference formulas of the plugins yield for the latest nonce",
                "an RSA encryption is recognised by decrypting it with the private keys of the exploration",
            ],
        },
        |run| {
            keys();
            let depth = run.by(4, 8);
            run.space(
                "hostile servers",
                "6 greetings, configured plugin (none or 3), clear text allowed or not, secure or not, \
                 (a TCP stream is not), configured key or not, password or none; all sequences of up to 4 (thorough: 8) of 24 \
                 packets, followed by the end of the stream",
                |ch| {
                    let (secure, tcp) = *ch.pick(&[(false, false), (false, true), (true, false)]);
                    // the same exploration unless it says something else
                    if tcp && !TCP {
                        ch.trivial();
                        return Ok(());
                    }
                    let setup = Setup {
                        forced: *ch.pick(&[None, Some(Plugin::Native), Some(Plugin::Sha2), Some(Plugin::Clear)]),
                        allow: ch.flag(),
                        secure,
                        tcp,
                        key: ch.flag(),
                        greeting: *ch.pick(&[
                            Greeting::Of(Plugin::Native),
                            Greeting::Of(Plugin::Sha2),
                            Greeting::Of(Plugin::Clear),
                            Greeting::Unknown,
                            Greeting::Old,
                            Greeting::ZeroNonce,
                        ]),
                        password: *ch.pick(&[PASSWORD, ""]),
                    };
                    session(setup, depth, ch)
                },
            );
        },
    )
}

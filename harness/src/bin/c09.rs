//! C09: authentication succeeds exactly when the server accepts the credentials.
//!
//! Built twice: with the feature `caching-sha2-password` of the client, and without it (spaces start
//! with "no sha2").
use std::sync::{Arc, OnceLock};

use mc::{
    drive::{options, run_op, Session, E},
    mock::Plan,
    rsa::Key,
    rt,
    scen,
    server::{Cfg, Event, Plugin, Server},
    wire::{cap, ErrData, OkData},
    Chooser, Level,
};
#[cfg(feature = "caching")]
use mysql_connector::PublicKey;
use mysql_connector::{types::AuthPlugin, Connection};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

/// Keys of 512, 1024, 1031 and 2048 bits
fn keys() -> &'static [Arc<Key>] {
    static KEYS: OnceLock<Vec<Arc<Key>>> = OnceLock::new();
    KEYS.get_or_init(|| {
        [512, 1024, 1031, 2048]
            .iter()
            .map(|b| Arc::new(Key::generate(*b, *b as u64)))
            .collect()
    })
}

fn plugin(x: Plugin) -> AuthPlugin {
    match x {
        Plugin::Native => AuthPlugin::Native,
        #[cfg(feature = "caching")]
        Plugin::Sha2 => AuthPlugin::Sha2,
        #[cfg(not(feature = "caching"))]
        Plugin::Sha2 => panic!("can't be configured"),
        Plugin::Clear => AuthPlugin::Clear,
    }
}

const PLUGINS: [Plugin; 3] = [Plugin::Native, Plugin::Sha2, Plugin::Clear];

/// Whether the client was built with it.
fn known(x: Plugin) -> bool {
    cfg!(feature = "caching") || x != Plugin::Sha2
}

/// Capabilities that change what a command means, or that need code which the client does not have:
/// found rows, no schema, compression, ODBC, local files, ignoring spaces, TLS, several statements in
/// a query, optional metadata, Zstandard, attributes of queries, several factors.
const UNWANTED: u32 = 0x2 | 0x10 | 0x20 | 0x40 | 0x80 | 0x100 | 0x800 | 0x1_0000 | 0x200_0000 | 0x400_0000 | 0x800_0000 | 0x1000_0000;

/// What can be configured.
fn forcible() -> Vec<Option<Plugin>> {
    std::iter::once(None).chain(PLUGINS.into_iter().filter(|x| known(*x)).map(Some)).collect()
}

#[derive(Clone, Debug)]
struct Case {
    /// plugin of the greeting
    greeting: Plugin,
    /// the greeting names another one, which the client does not know
    announced: Option<&'static str>,
    version: String,
    /// capabilities of the server that differ from the default ones
    flip: u32,
    /// plugin of the account, if the server asks to switch
    switch: Option<Plugin>,
    forced: Option<Plugin>,
    allow: bool,
    secure: bool,
    cached: bool,
    key: usize,
    configured_key: bool,
    user: String,
    password: String,
    /// password of the account
    actual: String,
    db: Option<String>,
    verdict: Option<ErrData>,
    nonce: Vec<u8>,
    switch_nonce: Vec<u8>,
    switch_nul: bool,
    deprecate_eof: bool,
    plugins: bool,
}

impl Default for Case {
    fn default() -> Self {
        Self {
            greeting: Plugin::Native,
            announced: None,
            version: "8.0.36".into(),
            flip: 0,
            switch: None,
            forced: None,
            allow: false,
            secure: false,
            cached: true,
            key: 1,
            configured_key: false,
            user: "user".into(),
            password: "secret".into(),
            actual: "secret".into(),
            db: None,
            verdict: None,
            nonce: (1..=20).collect(),
            switch_nonce: (101..=120).collect(),
            switch_nul: true,
            deprecate_eof: true,
            plugins: true,
        }
    }
}

#[derive(Debug, PartialEq)]
enum Expected {
    Accepted,
    Denied(ErrData),
    /// the client refuses to answer
    Refused,
}

/// The greeting names a plugin that the client does not know.
fn foreign(c: &Case) -> bool {
    c.plugins && (c.announced.is_some() || !known(c.greeting))
}

fn login(c: &Case) -> Plugin {
    c.forced.unwrap_or(c.greeting)
}

fn expected(c: &Case) -> Expected {
    if foreign(c) && c.forced.is_none() {
        return Expected::Refused;
    }
    let login = login(c);
    let account = c.switch.unwrap_or(c.greeting);
    if login == Plugin::Clear && !c.allow {
        return Expected::Refused;
    }
    let switches = c.switch.is_some() || account != login;
    if switches && (!known(account) || c.forced.is_some_and(|f| f != account) || (account == Plugin::Clear && !c.allow)) {
        return Expected::Refused;
    }
    if account == Plugin::Sha2
        && !c.cached
        && !c.secure
        && !c.password.is_empty()
        && c.password.len() + 1 > keys()[c.key].octets() - 42
    {
        // nothing that long can be encrypted
        return Expected::Refused;
    }
    if let Some(e) = &c.verdict {
        return Expected::Denied(e.clone());
    }
    if c.password == c.actual {
        Expected::Accepted
    } else {
        Expected::Denied(ErrData::new(1045, "28000", "Access denied"))
    }
}

fn check(c: Case, ch: &mut Chooser) -> Result<(), String> {
    let mut caps = scen::caps(c.deprecate_eof) ^ c.flip;
    if !c.plugins {
        caps &= !cap::PLUGIN_AUTH;
    }
    let offered = caps;
    let item = scen::query(0, 2, mc::drive::Read::All);
    let items = vec![item];
    let mut ok = OkData::new(0, 0);
    ok.status |= 1;
    let s = Session::of(
        Server::new(
            Cfg {
                caps,
                nonce: c.nonce.clone(),
                plugin: c.greeting,
                announced: c.announced.map(String::from),
                version: c.version.clone(),
                user: c.user.clone(),
                password: c.actual.clone(),
                switch: c.switch.map(|x| (x, c.switch_nonce.clone())),
                switch_nul: c.switch_nul,
                cached: c.cached,
                secure: c.secure,
                key: Some(keys()[c.key].clone()),
                ok,
                final_err: c.verdict.clone(),
                ..Cfg::default()
            },
            scen::handler(&items),
        ),
        Plan::default(),
    );
    async fn go(
        conn: Result<Connection, mysql_connector::error::Error>,
        items: &[scen::Item],
    ) -> Result<(AuthPlugin, Vec<mc::drive::Obs>), E> {
        let mut conn = conn.map_err(|e| E::of(&e))?;
        let p = conn.data().auth_plugin();
        let mut out = Vec::new();
        run_op(&mut conn, &items[0].op, &mut out).await;
        Ok((p, out))
    }
    macro_rules! connect {
        ($secure:literal) => {{
            let mut o = options::<$secure>(&s.pipe);
            o.user = c.user.clone();
            o.password = c.password.clone();
            o.db_name = c.db.clone();
            o.auth_plugin = c.forced.map(plugin);
            o.allow_cleartext_password = c.allow;
            #[cfg(feature = "caching")]
            if c.configured_key {
                let key = PublicKey::try_from_pem(keys()[c.key].pem_pkcs8().as_bytes()).expect("key");
                o.server_key = Some(Arc::new(key));
            }
            rt::run(async { go(Connection::connect(Arc::new(o)).await, &items).await })
        }};
    }
    let got = if c.secure { connect!(true) } else { connect!(false) };
    let got = got.map_err(|_| format!("{c:?}: hang"))?;
    let want = expected(&c);
    let log = s.log.lock().unwrap();
    ch.steps(s.pipe.lock().unwrap().calls);
    ch.state(&format!("{:?}", log.events.iter().map(std::mem::discriminant).collect::<Vec<_>>()));
    ch.outcome(&format!("{got:?} {want:?} {:?}", log.events.len()));
    ch.note(|| format!("{c:?} -> {got:?}"));
    match (&want, &got) {
        (Expected::Accepted, Ok((_, obs))) => {
            let expected = scen::Model {
                deprecate_eof: c.deprecate_eof,
                ..scen::Model::default()
            }
            .step(&items[0])
            .0;
            if *obs != expected {
                return Err(format!("{c:?}: the first query returned {obs:?}"));
            }
            if !log.authenticated {
                return Err(format!("{c:?}: connected although the server did not accept it"));
            }
        }
        (Expected::Denied(e), Err(got)) if *got == E::server(e) => {}
        (Expected::Refused, Err(e)) if !e.is_server() && *e != E::Timeout => {}
        _ => {
            return Err(format!(
                "{c:?}: connect returned {got:?}, expected {want:?}, events {:?}",
                log.events
            ))
        }
    }
    if let Some(e) = log.errors.first() {
        return Err(format!("{c:?}: the server received something invalid: {e}"));
    }
    match log.events.first() {
        Some(Event::Login {
            caps,
            user,
            db,
            plugin,
            ..
        }) => {
            let name = login(&c).name();
            if *user != c.user.as_bytes()
                || db.as_deref() != c.db.as_ref().map(|x| x.as_bytes())
                || plugin.as_deref().is_some_and(|x| x != name.as_bytes())
                || (plugin.is_none() && c.plugins)
            {
                return Err(format!("{c:?}: login {:?}", log.events[0]));
            }
            if c.db.is_some() != (caps & cap::CONNECT_WITH_DB != 0) {
                return Err(format!("{c:?}: capabilities {caps:x}"));
            }
            // the name of the plugin and the database are sent in any case
            let extra = caps & !(offered | cap::PLUGIN_AUTH | cap::CONNECT_WITH_DB);
            if extra != 0 {
                return Err(format!("{c:?}: the login claims {extra:x}, which the server does not have"));
            }
            if caps & UNWANTED != 0 {
                return Err(format!("{c:?}: the login claims {:x}", caps & UNWANTED));
            }
        }
        None if want == Expected::Refused => {}
        x => return Err(format!("{c:?}: first event {x:?}")),
    }
    // the configured key makes fetching one superfluous, and a cached password makes both
    let fetched = log.events.iter().any(|x| *x == Event::Auth(vec![2]));
    let full = c.switch.unwrap_or(c.greeting) == Plugin::Sha2 && !c.cached && !c.secure && !c.password.is_empty();
    if fetched && (!full || c.configured_key) {
        return Err(format!("{c:?}: the key was requested"));
    }
    Ok(())
}

fn passwords() -> Vec<String> {
    let mut out: Vec<String> = (0..=66).map(|n| "p".repeat(n)).collect();
    for n in [85, 86, 87, 127, 128, 200, 250, 251, 255, 256, 300, 1000] {
        out.push("0123456789".chars().cycle().take(n).collect());
    }
    for x in ["pässwörd", "🔑🔑", "with space", "quote'\"`\\", "\u{1}\u{7f}", "\n\r\t", " ", "%", "ÿ"] {
        out.push(x.into());
    }
    out
}

fn main() {
    mc::main(
        "C09",
        Level {
            level: "model_checking",
            rule: "every combination within the bounds of account, configuration and password is executed on \
                   the real client against a reference server that verifies proofs as MySQL does (from \
                   stored hashes, or by RSA decryption); compared: the outcome of connect, what the \
                   login contains, and a query afterwards; states are sequences of message kinds",
            assumptions: &["passwords sent in clear text in the login are at most 255 bytes long"],
        },
        |run| {
            keys();
            let pre = if known(Plugin::Sha2) { "" } else { "no sha2: " };
            run.space(
                &format!("{pre}combinations"),
                "plugin of the greeting (3) and of the account (none or 3), configured plugin (none or 3), \
                 clear text allowed, secure, cached, key configured, correct, wrong or no password, verdict \
                 of the server, with or without DEPRECATE_EOF",
                |ch| {
                    let c = Case {
                        greeting: *ch.pick(&PLUGINS),
                        switch: *ch.pick(&[None, Some(Plugin::Native), Some(Plugin::Sha2), Some(Plugin::Clear)]),
                        forced: *ch.pick(&forcible()),
                        allow: ch.flag(),
                        secure: ch.flag(),
                        cached: ch.flag(),
                        configured_key: ch.flag(),
                        deprecate_eof: ch.flag(),
                        ..Case::default()
                    };
                    let (password, actual) = *ch.pick(&[("secret", "secret"), ("secret", "Secret"), ("", ""), ("", "x"), ("x", "")]);
                    let verdict = if ch.flag() {
                        Some(ErrData::new(3118, "HY000", "Account is locked"))
                    } else {
                        None
                    };
                    check(
                        Case {
                            password: password.into(),
                            actual: actual.into(),
                            verdict,
                            ..c
                        },
                        ch,
                    )
                },
            );
            run.space(
                &format!("{pre}unknown plugins"),
                "greetings that name a plugin the client does not know, account of each plugin, with or \
                 without switch, configured plugin, clear text allowed, secure, cached, correct or wrong password",
                |ch| {
                    let names = ["", "sha256_password", "mysql_old_password", "dialog", "caching_sha2_password2", "mysql_native_passwor", "MYSQL_CLEAR_PASSWORD"];
                    let mut c = Case {
                        greeting: *ch.pick(&PLUGINS),
                        announced: Some(*ch.pick(&names)),
                        forced: *ch.pick(&forcible()),
                        allow: ch.flag(),
                        secure: ch.flag(),
                        cached: ch.flag(),
                        configured_key: ch.flag(),
                        deprecate_eof: ch.flag(),
                        ..Case::default()
                    };
                    if ch.flag() {
                        c.switch = Some(c.greeting);
                    }
                    if ch.flag() {
                        c.actual = "other".into();
                    }
                    check(c, ch)
                },
            );
            run.space(
                &format!("{pre}versions"),
                "every version from 3.0.0 to 11.11.11 as MySQL and as MariaDB, with several suffixes: the collation \
                 of the login is one of utf8mb4 since 5.5.3, and of utf8 before",
                |ch| {
                    let v = (3 + ch.choose(9), ch.choose(12), ch.choose(12));
                    let suffixes: &[(&str, &str)] = &[
                        ("", ""),
                        ("", "-log"),
                        ("", "-0ubuntu0.22.04.1"),
                        ("", "-MariaDB"),
                        ("5.5.5-", "-MariaDB"),
                        ("5.5.5-", "-MariaDB-1:10.3.9+maria~bionic-log"),
                        ("5.5.5-", "-5-MariaDB-enterprise-log"),
                    ];
                    let (before, after) = *ch.pick(suffixes);
                    let plugins = ch.flag();
                    let p = if plugins { *ch.pick(&[Plugin::Native, Plugin::Sha2]) } else { Plugin::Native };
                    let c = Case {
                        greeting: p,
                        forced: (!known(p)).then_some(Plugin::Native),
                        switch: None,
                        version: format!("{before}{}.{}.{}{after}", v.0, v.1, v.2),
                        plugins,
                        ..Case::default()
                    };
                    check(c, ch)
                },
            );
            run.space(
                &format!("{pre}capabilities"),
                "servers whose capabilities differ from the usual ones in none, one or two bits (of 29), or that \
                 have all, with and without database: nothing is claimed that the server lacks, or that changes \
                 the meaning of commands",
                |ch| {
                    // what logging in needs stays
                    let bits: Vec<u32> = (0..32)
                        .map(|i| 1 << i)
                        .filter(|x| x & (cap::PROTOCOL_41 | cap::SECURE_CONNECTION | cap::PLUGIN_AUTH) == 0)
                        .collect();
                    let (i, j) = (ch.choose(bits.len() + 1), ch.choose(bits.len() + 1));
                    let flip = match (i, j) {
                        (i, j) if i == j && i < bits.len() => bits[i],
                        (i, j) if i == j => !scen::caps(true),
                        (i, j) => bits.get(i).unwrap_or(&0) | bits.get(j).unwrap_or(&0),
                    };
                    let p = *ch.pick(&[Plugin::Native, Plugin::Sha2]);
                    let c = Case {
                        greeting: p,
                        forced: (!known(p)).then_some(Plugin::Native),
                        db: ch.flag().then(|| "db".into()),
                        deprecate_eof: flip & cap::DEPRECATE_EOF == 0,
                        flip: flip & !cap::DEPRECATE_EOF,
                        ..Case::default()
                    };
                    check(c, ch)
                },
            );
            let all = passwords();
            run.space(
                &format!("{pre}passwords"),
                "88 passwords (all lengths to 66, some to 1000, all kinds of characters), right or wrong, \
                 for each plugin, with or without switch, cached or not, secure or not, keys of 512, \
                 1024, 1031 and 2048 bits, fetched or configured",
                |ch| {
                    let p = *ch.pick(&PLUGINS);
                    let switch = ch.flag();
                    let password = ch.pick(&all).clone();
                    let mut c = Case {
                        greeting: if switch { PLUGINS[(PLUGINS.iter().position(|x| *x == p).unwrap() + 1) % 2] } else { p },
                        switch: switch.then_some(p),
                        allow: p == Plugin::Clear,
                        ..Case::default()
                    };
                    if p == Plugin::Clear && password.len() > 255 {
                        // not possible in a login
                        ch.trivial();
                        return Ok(());
                    }
                    if p == Plugin::Sha2 {
                        c.cached = ch.flag();
                        if !c.cached {
                            c.secure = ch.flag();
                            if !c.secure {
                                c.key = ch.choose(4);
                                c.configured_key = ch.flag();
                            }
                        }
                    }
                    c.actual = password.clone();
                    c.password = password;
                    if ch.flag() {
                        c.actual.push('x');
                    }
                    check(c, ch)
                },
            );
            run.space(
                &format!("{pre}names and nonces"),
                "user and database names of several kinds, nonces of 8 to 60 bytes in the switch, with and \
                 without the final zero, with every byte value, for each plugin; servers without \
                 PLUGIN_AUTH",
                |ch| {
                    let p = *ch.pick(&[Plugin::Native, Plugin::Sha2]);
                    let mut c = Case {
                        greeting: p,
                        ..Case::default()
                    };
                    match ch.choose(5) {
                        0 => {
                            let names = ["", "a", "root", "üser", "user name", "🦀", "'x'@'%'", "x\\"];
                            c.user = match ch.choose(names.len() + 3) {
                                i if i < names.len() => names[i].into(),
                                i => "u".repeat([32, 250, 300][i - names.len()]),
                            };
                            c.db = match ch.choose(names.len() + 4) {
                                i if i < names.len() => Some(names[i].into()),
                                i if i == names.len() => None,
                                i => Some("d".repeat([64, 255, 400][i - names.len() - 1])),
                            };
                            c.switch = ch.flag().then_some(p);
                        }
                        1 => {
                            let n = 8 + ch.choose(53);
                            c.switch = Some(*ch.pick(&[Plugin::Native, Plugin::Sha2]));
                            c.switch_nonce = (0..n).map(|i| 33 + (i * 7 % 90) as u8).collect();
                            c.switch_nul = ch.flag();
                            c.cached = ch.flag();
                        }
                        2 => {
                            let b = ch.choose(256) as u8;
                            let at = ch.choose(20);
                            // alone or up to the end
                            let end = if ch.flag() { 20 } else { at + 1 };
                            c.nonce[at..end].fill(b);
                            c.cached = ch.flag();
                        }
                        3 => {
                            let b = ch.choose(256) as u8;
                            let at = ch.choose(20);
                            c.switch = Some(p);
                            let end = if ch.flag() { 20 } else { at + 1 };
                            c.switch_nonce[at..end].fill(b);
                            c.switch_nul = true;
                            c.cached = ch.flag();
                        }
                        _ => {
                            c.plugins = false;
                            c.greeting = Plugin::Native;
                            c.db = ch.flag().then(|| "db".to_owned());
                            c.deprecate_eof = ch.flag();
                        }
                    }
                    if ch.flag() {
                        c.actual = "other".into();
                    }
                    check(c, ch)
                },
            );
        },
    )
}

//! C16: reported metadata is what the server sent.
use std::sync::Arc;

use mc::{
    drive::{options, Session},
    mock::Plan,
    ok_of, rt,
    scen,
    server::{Cfg, Cmd},
    wire::{cap, status, ty, Cell, Col, End, OkData, Reply},
    Chooser, Level,
};
use mysql_connector::{types::Value, Connection};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

/// What the protocol calls the flags, as this crate spells it.
const STATUS: &[(&str, u16)] = &[
    ("IN_TRANS", 0x0001),
    ("AUTOCOMMIT", 0x0002),
    ("MORE_RESULTS_EXISTS", 0x0008),
    ("NO_GOOD_INDEX_USED", 0x0010),
    ("NO_INDEX_USED", 0x0020),
    ("CURSOR_EXISTS", 0x0040),
    ("LAST_ROW_SENT", 0x0080),
    ("DB_DROPPED", 0x0100),
    ("NO_BACKSLASH_ESCAPES", 0x0200),
    ("METADATA_CHANGED", 0x0400),
    ("QUERY_WAS_SLOW", 0x0800),
    ("PS_OUT_PARAMS", 0x1000),
    ("IN_TRANS_READONLY", 0x2000),
    ("SESSION_STATE_CHANGED", 0x4000),
    ("ANSI_QUOTES", 0x8000),
];

const CAPABILITIES: &[(&str, u32)] = &[
    ("LONG_PASSWORD", 0x0000_0001),
    ("FOUND_ROWS", 0x0000_0002),
    ("LONG_FLAG", 0x0000_0004),
    ("CONNECT_WITH_DB", 0x0000_0008),
    ("NO_SCHEMA", 0x0000_0010),
    ("COMPRESS", 0x0000_0020),
    ("ODBC", 0x0000_0040),
    ("LOCAL_FILES", 0x0000_0080),
    ("IGNORE_SPACE", 0x0000_0100),
    ("PROTOCOL_41", 0x0000_0200),
    ("INTERACTIVE", 0x0000_0400),
    ("SSL", 0x0000_0800),
    ("IGNORE_SIGPIPE", 0x0000_1000),
    ("TRANSACTIONS", 0x0000_2000),
    ("RESERVED", 0x0000_4000),
    ("SECURE_CONNECTION", 0x0000_8000),
    ("MULTI_STATEMENTS", 0x0001_0000),
    ("MULTI_RESULTS", 0x0002_0000),
    ("PS_MULTI_RESULTS", 0x0004_0000),
    ("PLUGIN_AUTH", 0x0008_0000),
    ("CONNECT_ATTRS", 0x0010_0000),
    ("PLUGIN_AUTH_LENENC_CLIENT_DATA", 0x0020_0000),
    ("CAN_HANDLE_EXPIRED_PASSWORDS", 0x0040_0000),
    ("SESSION_TRACK", 0x0080_0000),
    ("DEPRECATE_EOF", 0x0100_0000),
    ("OPTIONAL_RESULTSET_METADATA", 0x0200_0000),
    ("ZSTD_COMPRESSION_ALGORITHM", 0x0400_0000),
    ("QUERY_ATTRIBUTES", 0x0800_0000),
    ("MULTI_FACTOR_AUTHENTICATION", 0x1000_0000),
    ("PROGRESS_OBSOLETE", 0x2000_0000),
    ("SSL_VERIFY_SERVER_CERT", 0x4000_0000),
    ("REMEMBER_OPTIONS", 0x8000_0000),
];

const COLUMN_FLAGS: &[(&str, u16)] = &[
    ("NOT_NULL_FLAG", 1),
    ("PRI_KEY_FLAG", 2),
    ("UNIQUE_KEY_FLAG", 4),
    ("MULTIPLE_KEY_FLAG", 8),
    ("BLOB_FLAG", 16),
    ("UNSIGNED_FLAG", 32),
    ("ZEROFILL_FLAG", 64),
    ("BINARY_FLAG", 128),
    ("ENUM_FLAG", 256),
    ("AUTO_INCREMENT_FLAG", 512),
    ("TIMESTAMP_FLAG", 1024),
    ("SET_FLAG", 2048),
    ("NO_DEFAULT_VALUE_FLAG", 4096),
    ("ON_UPDATE_NOW_FLAG", 8192),
    ("PART_KEY_FLAG", 16384),
    ("NUM_FLAG", 32768),
];

const TYPE_NAMES: &[(&str, u8)] = &[
    ("Decimal", 0),
    ("Tiny", 1),
    ("Short", 2),
    ("Long", 3),
    ("Float", 4),
    ("Double", 5),
    ("Null", 6),
    ("Timestamp", 7),
    ("LongLong", 8),
    ("Int24", 9),
    ("Date", 10),
    ("Time", 11),
    ("Datetime", 12),
    ("Year", 13),
    ("NewDate", 14),
    ("Varchar", 15),
    ("Bit", 16),
    ("Timestamp2", 17),
    ("Datetime2", 18),
    ("Time2", 19),
    ("TypedArray", 20),
    ("Json", 245),
    ("NewDecimal", 246),
    ("Enum", 247),
    ("Set", 248),
    ("TinyBlob", 249),
    ("MediumBlob", 250),
    ("LongBlob", 251),
    ("Blob", 252),
    ("VarString", 253),
    ("String", 254),
    ("Geometry", 255),
];

/// A set of flags has exactly the names of its bits.
macro_rules! named {
    ($what:expr, $flags:expr, $names:expr) => {{
        let flags = $flags;
        let bits = flags.bits();
        let got: Vec<String> = flags.iter_names().map(|x| x.0.to_owned()).collect();
        let want: Vec<String> = $names.iter().filter(|x| bits & x.1 != 0).map(|x| x.0.to_owned()).collect();
        if got != want {
            return Err(format!("{} {bits:#x} is reported as {got:?} instead of {want:?}", $what));
        }
    }};
}

const TYPES: [u8; 27] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255,
];

/// What the connection reported after the login.
struct Seen {
    id: u32,
    version: (u16, u16, u16),
    mariadb: bool,
    caps: u32,
    sent: u32,
    max: usize,
    queries: usize,
}

fn connect(cfg: Cfg, max: Option<usize>, db: bool, answer: Option<u64>) -> Result<Seen, String> {
    let session = Session::new(
        cfg,
        Plan::default(),
        Box::new(move |cmd| match cmd {
            Cmd::Query(q) if String::from_utf8_lossy(q).contains("@@max_allowed_packet") => vec![Reply::Rows {
                cols: vec![Col {
                    table: String::new(),
                    org_table: String::new(),
                    org_name: String::new(),
                    ..Col::new("@@max_allowed_packet", ty::LONGLONG, 32 | 128)
                }],
                rows: vec![vec![Cell::Int(answer.unwrap_or(1) as i128)]],
                end: End::Ok(OkData::new(0, 0)),
            }],
            _ => Vec::new(),
        }),
    );
    let mut options = options::<false>(&session.pipe);
    options.max_allowed_packet = max;
    if db {
        options.db_name = Some("db".into());
    }
    let res = rt::run(async {
        let conn = Connection::connect(Arc::new(options))
            .await
            .map_err(|e| format!("connect: {e:?}"))?;
        let data = conn.data();
        named!("capabilities", data.capabilities(), CAPABILITIES);
        Ok::<_, String>(Seen {
            id: data.id(),
            version: data.version(),
            mariadb: data.is_mariadb(),
            caps: data.capabilities().bits(),
            sent: 0,
            max: data.max_allowed_packet(),
            queries: 0,
        })
    })
    .map_err(|_| "connect hangs".to_owned())?;
    session.server_errors()?;
    let mut seen = res?;
    let log = session.log.lock().unwrap();
    seen.sent = log.client_caps;
    seen.queries = log.cmds().len();
    Ok(seen)
}

/// One result of each reply, read to its end.
fn read(replies: Vec<Reply>, caps: u32, binary: bool, count: usize, ch: &mut Chooser) -> Result<(), String> {
    let expected = replies.clone();
    let per = expected.len() / count;
    let mut next = 0;
    let session = Session::new(
        Cfg {
            caps,
            ..Cfg::default()
        },
        Plan::default(),
        Box::new(move |cmd| match cmd {
            Cmd::Query(_) | Cmd::Execute { .. } => {
                let out = replies[next * per..(next + 1) * per].to_vec();
                next += 1;
                out
            }
            Cmd::Prepare(_) => vec![Reply::Prepared {
                id: 1,
                params: 0,
                cols: vec![],
            }],
            _ => Vec::new(),
        }),
    );
    let deprecate = caps & cap::DEPRECATE_EOF != 0;
    let res: Result<(), String> = rt::run(async {
        let mut conn = session.connect().await.map_err(|e| format!("connect: {e:?}"))?;
        macro_rules! one {
            ($i:expr, $rs:expr) => {{
                let mut rs = $rs.await.map_err(|e| format!("query {}: {e:?}", $i))?;
                let (want, last) = match &expected[$i * per] {
                    Reply::Ok(ok) => {
                        if !rs.columns().is_empty() {
                            return Err(format!("columns without a result: {:?}", rs.columns()));
                        }
                        (ok.clone(), false)
                    }
                    Reply::Rows {
                        cols,
                        rows,
                        end: End::Ok(ok),
                    } => {
                        compare(cols, rs.columns())?;
                        for _ in rows {
                            match rs.next().await {
                                Ok(Some(_)) => {}
                                x => return Err(format!("row is {x:?}")),
                            }
                        }
                        (ok.clone(), true)
                    }
                    _ => unreachable!(),
                };
                let got = rs.finish().await.map_err(|e| format!("finish {}: {e:?}", $i))?;
                named!("status", got.status(), STATUS);
                let got = ok_of!(got);
                let mut want = want;
                // not defined
                want.status &= !4;
                if per > 1 {
                    want.status |= status::MORE_RESULTS;
                }
                if last {
                    want.affected = 0;
                    want.insert_id = 0;
                    if !deprecate {
                        want.info.clear();
                    }
                }
                if got != want {
                    return Err(format!(
                        "the server sent {}, reported is {}",
                        show(&want),
                        show(&got)
                    ));
                }
            }};
        }
        if binary {
            let mut stmt = conn
                .prepare_statement("p")
                .await
                .map_err(|e| format!("prepare: {e:?}"))?;
            for i in 0..count {
                one!(i, stmt.query::<Value, Vec<Value>>(&[]));
            }
        } else {
            for i in 0..count {
                one!(i, conn.query::<Vec<Value>>("q"));
            }
        }
        Ok(())
    })
    .map_err(|_| "hangs".to_owned())?;
    ch.steps(count as u64);
    res?;
    session.server_errors()
}

fn show(x: &OkData) -> String {
    let len = x.info.len();
    let info: String = x.info.chars().take(40).collect();
    format!(
        "affected {} id {} status {:#x} warnings {} message of {len} bytes {info:?}",
        x.affected, x.insert_id, x.status, x.warnings
    )
}

fn compare(cols: &[Col], got: &[mysql_connector::types::Column]) -> Result<(), String> {
    if cols.len() != got.len() {
        return Err(format!("{} columns were sent, {} are reported", cols.len(), got.len()));
    }
    for (i, (a, b)) in cols.iter().zip(got).enumerate() {
        for (what, a, b) in [
            ("name", &a.name, b.name()),
            ("org_name", &a.org_name, b.org_name()),
            ("table", &a.table, b.table()),
            ("org_table", &a.org_table, b.org_table()),
        ] {
            if a != b {
                return Err(format!(
                    "column {i}: {what} of {} bytes {:?} is reported as {} bytes {:?}",
                    a.len(),
                    a.chars().take(40).collect::<String>(),
                    b.len(),
                    b.chars().take(40).collect::<String>()
                ));
            }
        }
        if a.ty != b.r#type() as u8 {
            return Err(format!("column {i}: type {} is reported as {:?}", a.ty, b.r#type()));
        }
        if let Some((name, _)) = TYPE_NAMES.iter().find(|x| x.1 == a.ty) {
            if format!("{:?}", b.r#type()) != *name {
                return Err(format!("column {i}: type {name} is reported as {:?}", b.r#type()));
            }
        }
        named!(format!("column {i}: flags"), b.flags(), COLUMN_FLAGS);
        if a.flags != b.flags().bits() {
            return Err(format!("column {i}: flags {:#x} are reported as {:?}", a.flags, b.flags()));
        }
    }
    Ok(())
}

fn numbers() -> Vec<u64> {
    let mut out: Vec<u64> = (0..1100).collect();
    for p in 10..64 {
        let x = 1u64 << p;
        for d in 0..3 {
            out.push(x - d);
            out.push(x + d);
        }
    }
    for x in [0xFFFFu64, 0x1_0000, 0xFF_FFFF, 0x100_0000, 0xFFFF_FFFF, 0x1_0000_0000] {
        out.extend(x - 130..x + 130);
    }
    // bytes that have a meaning elsewhere, at every position
    for b in [0xFAu64, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF, 1, 0x80] {
        for i in 0..8 {
            out.push(b << (8 * i));
            out.push(!(b << (8 * i)));
        }
    }
    out.extend([u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1]);
    out.sort();
    out.dedup();
    out
}

/// Text of exactly `n` bytes.
fn text(n: usize, tag: u8) -> String {
    (0..n)
        .map(|i| (b'a' + ((i as u8).wrapping_mul(7).wrapping_add(tag)) % 26) as char)
        .collect()
}

const NAMES: [&str; 14] = [
    "",
    " ",
    "a b",
    "`quoted`",
    "ünï🦀",
    "a.b",
    "count(*)",
    "\u{0}",
    "a\u{0}b",
    "'\"\\",
    "NAME",
    "def",
    "\u{1}\u{2}\u{3}",
    "\u{10FFFF}",
];

fn main() {
    mc::main(
        "C16",
        Level {
            level: "exploration",
            rule: "every enumerated greeting, column definition, OK packet and end of a result is sent by a reference server to the \
                   real client; everything the client reports is compared with what was sent",
            assumptions: &[
                "the encoders of the reference server follow the protocol's documentation",
                "the status bit 0x0004, which is not defined, may be dropped",
                "the affected rows and insert id of the packet that ends a result set are not used by servers",
                "capabilities of a connection are those both sides support",
            ],
        },
        |run| {
            // greeting
            let requested = connect(Cfg { caps: !0, ..Cfg::default() }, Some(1 << 20), false, None).map(|x| x.caps);
            let (ref full, ref full_db) = (
                requested,
                connect(Cfg { caps: !0, ..Cfg::default() }, Some(1 << 20), true, None).map(|x| x.caps),
            );
            let fixed = cap::PROTOCOL_41 | cap::SECURE_CONNECTION;
            run.space(
                "capabilities",
                "every server capability missing, every pair missing, every one alone and every pair alone (besides those every server has), with and without database",
                |ch| {
                    let inverted = ch.flag();
                    let a = ch.choose(32);
                    let b = ch.choose(32 - a) + a;
                    let db = ch.flag();
                    let set = 1u32 << a | 1 << b;
                    let caps = if inverted { !set } else { set } | fixed;
                    let full = match if db { full_db } else { full } {
                        Ok(x) => *x,
                        Err(e) => return Err(e.clone()),
                    };
                    let seen = connect(Cfg { caps, ..Cfg::default() }, Some(1 << 20), db, None)?;
                    ch.outcome(&seen.caps);
                    if seen.caps != caps & full {
                        return Err(format!(
                            "server {caps:#x}, client {full:#x}: reported {:#x}",
                            seen.caps
                        ));
                    }
                    if seen.sent & !caps != 0 && seen.sent & !caps & !cap::PLUGIN_AUTH & !cap::CONNECT_WITH_DB != 0 {
                        return Err(format!("client asks for {:#x}, server has {caps:#x}", seen.sent));
                    }
                    Ok(())
                },
            );
            run.space(
                "connection ids",
                "every value of every byte, alone and with all other bits set, and all pairs of byte corners",
                |ch| {
                    let id = if ch.flag() {
                        let pos = 8 * ch.choose(4);
                        let x = (ch.choose(256) as u32) << pos;
                        if ch.flag() {
                            x
                        } else {
                            x | !(0xFFu32 << pos)
                        }
                    } else {
                        let c = [0u32, 1, 0x7F, 0x80, 0xFE, 0xFF];
                        (0..4).map(|i| ch.pick(&c) << (8 * i)).sum()
                    };
                    let seen = connect(Cfg { conn_id: id, ..Cfg::default() }, Some(1 << 20), false, None)?;
                    if seen.id != id {
                        return Err(format!("connection id {id} is reported as {}", seen.id));
                    }
                    Ok(())
                },
            );
            run.space(
                "versions",
                "numbers in every position, every kind of suffix, with and without the compatibility prefix of MariaDB",
                |ch| {
                    let nums = [0u16, 1, 5, 6, 9, 10, 11, 36, 57, 99, 100, 255, 256, 999, 1000, 9999, 10000, 65535];
                    let plain = [
                        "",
                        "-log",
                        "-debug",
                        "-0ubuntu0.22.04.1",
                        "-28",
                        "-28.1",
                        "-TiDB-v7.1.0",
                        "-ndb-7.6.5",
                        "+maria",
                        "-ü",
                        "-",
                        " (Debian)",
                        "_suffix",
                        "-cluster-8.0.36-log",
                    ];
                    let maria = [
                        "-MariaDB",
                        "-MariaDB-log",
                        "-MariaDB-1:10.6.12+maria~ubu2204",
                        "-MariaDB-0ubuntu0.22.04.1",
                        "-5-MariaDB-enterprise",
                        "-5-MariaDB-enterprise-log",
                        "-MariaDB-ubu2404",
                    ];
                    let v = (*ch.pick(&nums), *ch.pick(&nums), *ch.pick(&nums));
                    let k = ch.choose(plain.len() + 2 * maria.len());
                    let (prefix, suffix, is_maria) = if k < plain.len() {
                        ("", plain[k], false)
                    } else {
                        let k = k - plain.len();
                        (if k % 2 == 0 { "" } else { "5.5.5-" }, maria[k / 2], true)
                    };
                    let version = format!("{prefix}{}.{}.{}{suffix}", v.0, v.1, v.2);
                    if is_maria && v == (5, 5, 5) {
                        // the prefix itself, not a version of MariaDB
                        ch.trivial();
                        return Ok(());
                    }
                    // every suffix with a part of the numbers
                    if k != 0 && (v.0 as usize + v.1 as usize * 3 + v.2 as usize + k) % 5 != 0 && v != (5, 5, 5) && v != (10, 11, 6) {
                        ch.trivial();
                        return Ok(());
                    }
                    let seen = connect(Cfg { version: version.clone(), ..Cfg::default() }, Some(1 << 20), false, None)?;
                    if (seen.version, seen.mariadb) != (v, is_maria) {
                        return Err(format!(
                            "version {version:?} is reported as {:?}, MariaDB {}",
                            seen.version, seen.mariadb
                        ));
                    }
                    Ok(())
                },
            );
            run.space(
                "lengths of the greeting",
                "version texts of every length up to 600, with and without numbers",
                |ch| {
                    let mut cfg = Cfg { conn_id: 0x01020304, ..Cfg::default() };
                    if ch.flag() {
                        cfg.version = format!("8.0.36-{}", text(ch.choose(600), 1));
                    } else {
                        cfg.version = text(ch.choose(600), 1);
                        let seen = connect(cfg.clone(), Some(77777), false, None)?;
                        if seen.id != 0x01020304 || seen.mariadb {
                            return Err(format!("reported {} {}", seen.id, seen.mariadb));
                        }
                        return Ok(());
                    }
                    let seen = connect(cfg.clone(), Some(77777), false, None)?;
                    if (seen.id, seen.version, seen.mariadb) != (0x01020304, (8, 0, 36), false) {
                        return Err(format!("{:?} is reported as {:?}", cfg.version, seen.version));
                    }
                    Ok(())
                },
            );
            let nums = &numbers();
            run.space(
                "max_allowed_packet",
                "all corners of numbers, as configured and as asked from the server, with both kinds of ends of results",
                |ch| {
                    let x = *ch.pick(nums);
                    let configured = ch.flag();
                    let caps = scen::caps(ch.flag());
                    let cfg = Cfg { caps, ..Cfg::default() };
                    let seen = if configured {
                        connect(cfg, Some(x as usize), false, Some(x ^ 1))?
                    } else {
                        connect(cfg, None, false, Some(x))?
                    };
                    if seen.max as u64 != x {
                        return Err(format!(
                            "max_allowed_packet {x} (configured: {configured}) is reported as {}",
                            seen.max
                        ));
                    }
                    if configured && seen.queries != 0 {
                        return Err("the server is asked for a configured value".into());
                    }
                    Ok(())
                },
            );

            // OK packets and ends of results
            let ends = |ok: OkData, rows: usize| Reply::Rows {
                cols: vec![Col::new("a", ty::LONGLONG, 0)],
                rows: vec![vec![Cell::Int(1)]; rows],
                end: End::Ok(ok),
            };
            run.space(
                "numbers",
                "affected rows and insert id: all corners, alone and in pairs, in OK packets and ends of results",
                |ch| {
                    let which = ch.choose(4);
                    let binary = ch.flag();
                    let deprecate = ch.flag();
                    let corners: Vec<u64> = nums
                        .iter()
                        .copied()
                        .filter(|x| *x > 240 && *x < 260 || x.count_ones() <= 1 || x.count_zeros() <= 1 || (x + 1).count_ones() <= 1)
                        .collect();
                    let list: Vec<OkData> = match which {
                        0 => nums.iter().map(|x| OkData::new(*x, 0)).collect(),
                        1 => nums.iter().map(|x| OkData::new(0, *x)).collect(),
                        2 => nums.iter().map(|x| OkData::new(*x, !*x)).collect(),
                        _ => {
                            let a = *ch.pick(&corners);
                            corners.iter().map(|b| OkData::new(a, *b)).collect()
                        }
                    };
                    let n = list.len();
                    let replies = list
                        .into_iter()
                        .enumerate()
                        .map(|(i, mut ok)| {
                            ok.warnings = i as u16;
                            if i % 3 == 0 {
                                ok.info = format!("message {i}");
                            }
                            if i % 5 == 4 && deprecate {
                                ends(ok, i % 2)
                            } else {
                                Reply::Ok(ok)
                            }
                        })
                        .collect();
                    read(replies, scen::caps(deprecate), binary, n, ch)
                },
            );
            run.space(
                "status and warnings",
                "every status and every number of warnings, in OK packets and both kinds of ends of results, with and without further results",
                |ch| {
                    let kind = ch.choose(3);
                    let binary = ch.flag();
                    let warnings = ch.flag();
                    let hi = ch.choose(256) as u16;
                    let deprecate = kind != 2;
                    let reply = |ok: OkData| if kind == 0 { Reply::Ok(ok) } else { ends(ok, 1) };
                    let mut list = Vec::new();
                    for lo in 0..256u16 {
                        let x = hi << 8 | lo;
                        let mut ok = OkData::new(1, 2);
                        if warnings {
                            ok.warnings = x;
                            ok.status = x.rotate_left(3) & !0xC;
                        } else {
                            if x & 8 != 0 {
                                continue;
                            }
                            ok.status = x;
                            ok.warnings = !x;
                        }
                        if kind == 0 {
                            ok.info = text((x % 7) as usize, 0);
                        }
                        list.push(ok);
                    }
                    let n = list.len();
                    // half of them with a following result
                    let more = hi & 1 == 1;
                    let mut replies = Vec::new();
                    for ok in list {
                        replies.push(reply(ok));
                        if more {
                            replies.push(Reply::Ok(OkData::new(77, 78)));
                        }
                    }
                    read(replies, scen::caps(deprecate), binary, n, ch)
                },
            );
            let max = run.by(1100, 3000);
            run.space(
                "messages",
                "messages of every length in windows around the limits of lengths, and with every kind of content",
                |ch| {
                    let kind = ch.choose(2);
                    let binary = ch.flag();
                    let lens: Vec<usize> = (0..max).chain(65_400..65_700).collect();
                    let part = ch.choose(16);
                    let list: Vec<OkData> = lens
                        .iter()
                        .skip(part)
                        .step_by(16)
                        .map(|n| {
                            let mut ok = OkData::new(*n as u64, 3);
                            ok.info = text(*n, 5);
                            ok
                        })
                        .chain(NAMES.iter().map(|x| {
                            let mut ok = OkData::new(1, 3);
                            ok.info = x.to_string();
                            ok
                        }))
                        .collect();
                    let n = list.len();
                    let replies = list
                        .into_iter()
                        .map(|ok| if kind == 0 { Reply::Ok(ok) } else { ends(ok, 0) })
                        .collect();
                    read(replies, scen::caps(true), binary, n, ch)
                },
            );
            run.space(
                "large messages",
                "messages around 2^24 bytes in OK packets",
                |ch| {
                    let n = (1usize << 24) - 18 + ch.choose(24);
                    let mut ok = OkData::new(1, 3);
                    ok.info = text(n, 5);
                    read(vec![Reply::Ok(ok)], scen::caps(true), false, 1, ch)
                },
            );

            // columns
            run.space(
                "lengths of names",
                "every one of schema, table, org_table, name and org_name with every length, in windows around the limits of lengths",
                |ch| {
                    let field = ch.choose(6);
                    let binary = ch.flag();
                    let part = ch.choose(8);
                    let lens: Vec<usize> = (0..max).chain(65_530..65_540).collect();
                    let cols: Vec<Col> = lens
                        .iter()
                        .skip(part)
                        .step_by(8)
                        .map(|n| {
                            let mut c = Col::new("n", ty::LONG, 0);
                            c.table = "tab".into();
                            c.org_table = "orgtab".into();
                            c.org_name = "orgname".into();
                            let x = text(*n, field as u8);
                            match field {
                                0 => c.schema = x,
                                1 => c.table = x,
                                2 => c.org_table = x,
                                3 => c.name = x,
                                4 => c.org_name = x,
                                _ => {
                                    c.schema = text(*n, 1);
                                    c.table = text(*n, 2);
                                    c.org_table = text(*n, 3);
                                    c.name = text(*n, 4);
                                    c.org_name = text(*n, 5);
                                }
                            }
                            c
                        })
                        .collect();
                    let reply = Reply::Rows {
                        cols,
                        rows: vec![],
                        end: End::Ok(OkData::new(0, 0)),
                    };
                    read(vec![reply], scen::caps(part % 2 == 0), binary, 1, ch)
                },
            );
            run.space(
                "names",
                "all combinations of kinds of names of table, org_table, name and org_name",
                |ch| {
                    let a = *ch.pick(&NAMES);
                    let b = *ch.pick(&NAMES);
                    let binary = ch.flag();
                    let deprecate = ch.flag();
                    let mut cols = Vec::new();
                    for c in NAMES {
                        for d in NAMES {
                            let mut col = Col::new(c, ty::VAR_STRING, 0);
                            col.org_name = d.into();
                            col.table = a.into();
                            col.org_table = b.into();
                            cols.push(col);
                        }
                    }
                    let reply = Reply::Rows {
                        cols,
                        rows: vec![],
                        end: End::Ok(OkData::new(0, 0)),
                    };
                    read(vec![reply], scen::caps(deprecate), binary, 1, ch)
                },
            );
            run.space(
                "types and flags",
                "every type with every combination of flags",
                |ch| {
                    let t = *ch.pick(&TYPES);
                    let part = ch.choose(16);
                    let binary = ch.flag();
                    let cols: Vec<Col> = (0..4096u16)
                        .map(|i| {
                            let mut c = Col::new("c", t, part as u16 * 4096 + i);
                            c.decimals = i as u8;
                            c.length = !(i as u32) << (i % 20);
                            c.charset = i.wrapping_mul(31);
                            c
                        })
                        .collect();
                    let reply = Reply::Rows {
                        cols,
                        rows: vec![],
                        end: End::Ok(OkData::new(0, 0)),
                    };
                    read(vec![reply], scen::caps(true), binary, 1, ch)
                },
            );
            run.space(
                "numbers of columns",
                "every number of columns in windows around the limits of lengths",
                |ch| {
                    let counts: Vec<usize> = (1..600).chain(4090..4100).chain([5000, 65_534, 65_535, 65_536, 65_537, 70_000]).collect();
                    let n = *ch.pick(&counts);
                    let deprecate = ch.flag();
                    let cols: Vec<Col> = (0..n)
                        .map(|i| Col::new(&format!("c{i}"), TYPES[i % TYPES.len()], i as u16))
                        .collect();
                    let row = vec![Cell::Null; n];
                    let reply = Reply::Rows {
                        cols,
                        rows: vec![row.clone(), row],
                        end: End::Ok(OkData {
                            warnings: n as u16,
                            ..OkData::new(0, 0)
                        }),
                    };
                    read(vec![reply], scen::caps(deprecate), ch.flag(), 1, ch)
                },
            );
        },
    );
}

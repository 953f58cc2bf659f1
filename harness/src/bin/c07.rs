//! C07: server errors are reported verbatim and leave the connection usable.
use std::sync::Arc;

use mc::{
    cases::key,
    drive::{options, Op, Read, Session, StmtOp, E},
    mock::Plan,
    rt,
    scen::{self, Item, READS},
    server::{Cfg, Cmd, Plugin, Server},
    wire::{status, ty, Cell, Col, End, ErrData, OkData, Reply},
    Chooser, Level,
};
use mysql_connector::{types::Value, Connection};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

/// Errors with all kinds of contents.
fn errors() -> Vec<ErrData> {
    let mut out = Vec::new();
    for code in [0u16, 1, 127, 255, 256, 1040, 1045, 3024, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF] {
        out.push(ErrData::new(code, "HY000", "message"));
    }
    for state in ["00000", "28000", "42S02", "#####", "     ", "ABCDE", "~!\"\\'"] {
        out.push(ErrData::new(1064, state, "message"));
    }
    for n in [0, 1, 2, 5, 6, 8, 9, 249, 250, 251, 252, 255, 256, 511, 512, 1024, 65535, 65536, 70000] {
        out.push(ErrData::new(1064, "42000", &"m".repeat(n)));
    }
    for msg in [
        "ünï cødé 🦀",
        "quotes \" ' ` \\ \n \r \0 \t",
        "#42S02 again",
        "\u{1}\u{2}\u{7f}",
        "message: \"other\", code: 7 }",
        "%s {} {{",
    ] {
        out.push(ErrData::new(1064, "42000", msg));
    }
    out
}

fn ok(n: u64) -> Reply {
    let mut x = OkData::new(n, 10 + n);
    x.info = format!("info {n}");
    Reply::Ok(x)
}

fn rows(n: usize, end: End) -> Reply {
    Reply::Rows {
        cols: vec![Col::new("name", ty::VAR_STRING, 0), Col::new("n", ty::LONGLONG, 0)],
        rows: (0..n)
            .map(|i| vec![Cell::from(format!("row{i}").as_str()), Cell::Int(i as i128)])
            .collect(),
        end,
    }
}

/// Results that end with an error: up to 3, the last one fails, all kinds before.
fn failing(ch: &mut Chooser, e: &ErrData, max: usize) -> Vec<Reply> {
    let before = ch.choose(max);
    let mut out = Vec::new();
    for i in 0..before {
        out.push(match ch.choose(4) {
            0 => ok(i as u64),
            n => rows(n - 1, End::Ok(OkData::new(0, 0))),
        });
    }
    out.push(match ch.choose(5) {
        0 => Reply::Err(e.clone()),
        n => rows(n - 1, End::Err(e.clone())),
    });
    out
}

/// How the failing results are asked for.
fn ask(ch: &mut Chooser, replies: Vec<Reply>) -> Item {
    let can_execute = !matches!(replies[0], Reply::Rows { .. });
    let kind = ch.choose(READS.len() * 2 + if can_execute { 2 } else { 0 });
    let text = "fails".to_owned();
    let stmt = |op| Item {
        op: Op::Prepare("fails".to_owned(), vec![op]),
        replies: vec![
            vec![Reply::Prepared {
                id: 9,
                params: 1,
                cols: Vec::new(),
            }],
            replies.clone(),
        ],
        stmt: 9,
    };
    match kind {
        0..=5 => Item {
            op: Op::Query(text, READS[kind]),
            replies: vec![replies],
            stmt: 0,
        },
        6..=11 => stmt(StmtOp::Query(vec![Value::Int(1)], READS[kind - 6])),
        12 => Item {
            op: Op::Execute(text),
            replies: vec![replies],
            stmt: 0,
        },
        _ => stmt(StmtOp::Execute(vec![Value::Int(1)])),
    }
}

fn afterwards(ch: &mut Chooser) -> Vec<Item> {
    let mut out = vec![
        scen::query(1, 2, Read::All),
        scen::execute(2, 0),
        scen::prepare(3, 1, 1, &[(2, Some(Read::All)), (0, None)]),
        scen::cleanup(),
    ];
    let n = ch.choose(out.len());
    out.rotate_left(n);
    out
}

#[derive(Clone, Copy, Debug)]
enum Step {
    Greeting,
    Login,
    /// in place of the verdict on the first proof
    Proof,
    /// after a plugin switch
    Switched(Plugin),
    FastVerdict,
    FastSwitched,
    FullVerdict,
    FullSecure,
    Key,
    KeyVerdict,
    Settings,
    SettingsRow,
}

const STEPS: &[Step] = &[
    Step::Greeting,
    Step::Login,
    Step::Proof,
    Step::Switched(Plugin::Native),
    Step::Switched(Plugin::Sha2),
    Step::FastVerdict,
    Step::FastSwitched,
    Step::FullVerdict,
    Step::FullSecure,
    Step::Key,
    Step::KeyVerdict,
    Step::Settings,
    Step::SettingsRow,
];

fn connecting(step: Step, e: ErrData, deprecate_eof: bool, chunk: usize, ch: &mut Chooser) -> Result<(), String> {
    let mut cfg = Cfg {
        caps: scen::caps(deprecate_eof),
        ..Cfg::default()
    };
    let err = Some(e.clone());
    let nonce = || (70..90).collect::<Vec<u8>>();
    let mut secure = false;
    let mut settings = false;
    match step {
        Step::Greeting => cfg.refuse = err,
        Step::Login => cfg.login_err = err,
        Step::Proof => cfg.final_err = err,
        Step::Switched(p) => {
            cfg.switch = Some((p, nonce()));
            cfg.final_err = err;
        }
        Step::FastVerdict => {
            cfg.plugin = Plugin::Sha2;
            cfg.final_err = err;
        }
        Step::FastSwitched => {
            cfg.switch = Some((Plugin::Sha2, nonce()));
            cfg.final_err = err;
        }
        Step::FullVerdict | Step::KeyVerdict | Step::Key | Step::FullSecure => {
            cfg.plugin = Plugin::Sha2;
            cfg.cached = false;
            cfg.key = Some(key());
            match step {
                Step::Key => cfg.key_err = err,
                _ => cfg.final_err = err,
            }
            secure = matches!(step, Step::FullSecure);
            cfg.secure = secure;
            if matches!(step, Step::FullVerdict) {
                cfg.switch = Some((Plugin::Sha2, nonce()));
            }
        }
        Step::Settings | Step::SettingsRow => settings = true,
    }
    let reply = match step {
        Step::Settings => Reply::Err(e.clone()),
        _ => Reply::Rows {
            cols: vec![Col::new("@@max_allowed_packet", ty::LONGLONG, 32)],
            rows: Vec::new(),
            end: End::Err(e.clone()),
        },
    };
    let s = Session::of(
        Server::new(
            cfg,
            Box::new(move |cmd| match cmd {
                Cmd::Query(x) if x == b"select @@max_allowed_packet" => vec![reply.clone()],
                x => panic!("{x:?}"),
            }),
        ),
        Plan {
            read_chunk: chunk,
            ..Plan::default()
        },
    );
    macro_rules! connect {
        ($secure:literal) => {{
            let mut o = options::<$secure>(&s.pipe);
            if settings {
                o.max_allowed_packet = None;
            }
            rt::run(Connection::connect(Arc::new(o)))
        }};
    }
    let res = if secure { connect!(true) } else { connect!(false) };
    let got = match res {
        Err(_) => return Err(format!("error at {step:?}: hang")),
        Ok(Ok(_)) => Ok(()),
        Ok(Err(e)) => Err(E::of(&e)),
    };
    ch.steps(s.pipe.lock().unwrap().calls);
    ch.outcome(&got);
    ch.note(|| format!("{step:?} {e:?} -> {got:?}"));
    s.server_errors()?;
    let want = Err(E::server(&e));
    if got != want {
        return Err(format!("error at {step:?}: connect returned {got:?} instead of {want:?}"));
    }
    Ok(())
}

fn main() {
    mc::main(
        "C07",
        Level {
            level: "model_checking",
            rule: "every place of an error packet within the bounds, of every listed content, is executed on \
                   the real client; all operations of the session are compared with the reference model",
            assumptions: &[
                "messages are valid UTF-8",
                "an unread result's error is reported to cleanup() and dropped by other commands",
            ],
        },
        |run| {
            let contents = errors();
            run.space(
                "connection phase",
                "an error in place of the greeting and at every step of authentication (13 steps) and \
                 of the query for the packet size, 47 contents, with and without DEPRECATE_EOF, \
                 transport unlimited or byte by byte; before the login also without SQL state",
                |ch| {
                    let step = *ch.pick(STEPS);
                    let mut e = ch.pick(&contents).clone();
                    if matches!(step, Step::Greeting) && !e.msg.starts_with('#') && ch.flag() {
                        e.state = None;
                    }
                    let eof = ch.flag();
                    let chunk = *ch.pick(&[0, 1]);
                    connecting(step, e, eof, chunk, ch)
                },
            );
            run.space(
                "contents",
                "an error in reply to a query, execution or preparation or after a row, 47 contents, all \
                 ways to read it, with and without DEPRECATE_EOF, followed by 4 operations",
                |ch| {
                    let e = ch.pick(&contents).clone();
                    let eof = ch.flag();
                    let first = match ch.choose(3) {
                        0 => ask(ch, vec![Reply::Err(e)]),
                        1 => ask(ch, vec![rows(1, End::Err(e))]),
                        _ => Item {
                            op: Op::Prepare("fails".into(), Vec::new()),
                            replies: vec![vec![Reply::Err(e)]],
                            stmt: 0,
                        },
                    };
                    let mut items = vec![first];
                    items.extend(afterwards(ch));
                    scen::check(&items, eof, ch)
                },
            );
            let depth = run.by(3, 4);
            run.space(
                "places",
                "up to 3 (thorough: 4) results, the last one an error or rows that end with one after 0 to \
                 3 rows, the others OK or 0 to 2 rows; all ways to read them, unread results before it \
                 or not, with and without DEPRECATE_EOF; followed by 4 operations in 4 orders",
                |ch| {
                    let e = ErrData::new(1317, "70100", "interrupted");
                    let eof = ch.flag();
                    let mut items = Vec::new();
                    if ch.flag() {
                        items.push(scen::query(50, 5, Read::Next(1)));
                    }
                    let replies = failing(ch, &e, depth);
                    items.push(ask(ch, replies));
                    items.extend(afterwards(ch));
                    scen::check(&items, eof, ch)
                },
            );
            run.space(
                "errors in a row",
                "all sequences of 3 failing or succeeding operations out of 14, then 4 operations",
                |ch| {
                    let eof = ch.flag();
                    let mut items = Vec::new();
                    for i in 0..3 {
                        items.push(match ch.choose(14) {
                            0 => scen::query(10 + i, 1, Read::All),
                            1 => scen::query(10 + i, 4, Read::All),
                            2 => scen::query(10 + i, 4, Read::Next(0)),
                            3 => scen::query(10 + i, 7, Read::Next(1)),
                            4 => scen::query(10 + i, 8, Read::Next(2)),
                            5 => scen::query(10 + i, 9, Read::Finish),
                            6 => scen::execute(10 + i, 1),
                            7 => scen::execute(10 + i, 9),
                            8 => scen::prepare_fails(10 + i),
                            9 => scen::prepare(10 + i, 1, 1, &[(1, None), (4, Some(Read::One))]),
                            10 => scen::prepare(10 + i, 1, 0, &[(8, Some(Read::Next(1))), (9, None), (0, None)]),
                            11 => scen::prepare(10 + i, 0, 1, &[(10, Some(Read::Finish))]),
                            12 => scen::cleanup(),
                            _ => scen::query(10 + i, 2, Read::All),
                        });
                    }
                    items.extend([scen::execute(2, 0), scen::query(1, 2, Read::All)]);
                    scen::check(&items, eof, ch)
                },
            );
            let _ = status::MORE_RESULTS;
        },
    )
}

//! C26: the crate's own TCP stream reaches the server it is meant to, and is a stream like any other.
use std::{
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr},
    sync::{Arc, Mutex},
};

use mc::{
    drive::{run_op, Obs, Read, E},
    mock::Peer,
    rsa::Key,
    scen::{self, Item, SHAPES},
    server::{Cfg, Log, Plugin, Server},
    tcp::{self, Host, Manner},
    wire::{ty, Cell, Col, End, Reply},
    Chooser, Level,
};
use mysql_connector::{
    pool::{AsyncPool, AsyncPoolTrait},
    Connection, Stream, TcpStream, TcpStreamOptions,
};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

const V4: IpAddr = IpAddr::V4(Ipv4Addr::LOCALHOST);
const OTHER: IpAddr = IpAddr::V4(Ipv4Addr::new(127, 0, 0, 2));
const V6: IpAddr = IpAddr::V6(Ipv6Addr::LOCALHOST);

/// A server whose greeting is its number.
fn numbered(id: u32) -> Box<dyn Peer> {
    let cfg = Cfg {
        conn_id: id,
        ..Cfg::default()
    };
    Box::new(Server::new(cfg, Box::new(|_| Vec::new())))
}

async fn host(ip: IpAddr, port: u16, id: u32) -> std::io::Result<Host> {
    Host::new(ip, port, move |_| (numbered(id), Manner::default())).await
}

/// Two ports of the first address and the first of them of another one (and of the IPv6 address).
async fn hosts() -> Result<Vec<Host>, String> {
    for _ in 0..100 {
        let first = host(V4, 0, 1).await.map_err(|e| e.to_string())?;
        let port = first.addr.port();
        let (Ok(second), Ok(third)) = (host(V4, 0, 2).await, host(OTHER, port, 3).await) else {
            continue;
        };
        let mut out = vec![first, second, third];
        out.extend(host(V6, port, 4).await);
        return Ok(out);
    }
    Err("no free ports".into())
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Target {
    host: &'static str,
    /// of the servers, or a closed one
    port: Option<usize>,
    nodelay: bool,
}

fn target(ch: &mut Chooser) -> Target {
    Target {
        host: *ch.pick(&["127.0.0.1", "127.0.0.2", "localhost", "::1"]),
        port: *ch.pick(&[Some(0), Some(1), None]),
        nodelay: ch.flag(),
    }
}

/// Several connections with different options.
fn addresses(n: usize, ch: &mut Chooser) -> Result<(), String> {
    let targets: Vec<Target> = (0..n).map(|_| target(ch)).collect();
    let by_pool = ch.flag();
    ch.note(|| format!("{targets:?} {by_pool}"));
    let res = tcp::run(async {
        let hosts = hosts().await?;
        let (_held, closed) = tcp::closed(V4).map_err(|e| e.to_string())?;
        let mut kept = Vec::new();
        for t in &targets {
            let port = t.port.map_or(closed, |i| hosts[i].addr.port());
            let ips: &[IpAddr] = match t.host {
                "127.0.0.1" => &[V4],
                "127.0.0.2" => &[OTHER],
                "localhost" => &[V4, V6],
                _ => &[V6],
            };
            let found: Vec<usize> = (0..hosts.len())
                .filter(|i| ips.iter().any(|ip| hosts[*i].addr == SocketAddr::new(*ip, port)))
                .collect();
            let o = TcpStreamOptions {
                host: t.host.into(),
                port,
                nodelay: t.nodelay,
            };
            match <TcpStream as Stream>::connect(&o).await {
                Ok(s) => {
                    let peer = s.peer_addr().map_err(|e| e.to_string())?;
                    if !found.iter().any(|i| hosts[*i].addr == peer) {
                        return Err(format!("{t:?} reached {peer}"));
                    }
                    let nodelay = s.nodelay().map_err(|e| e.to_string())?;
                    if nodelay != t.nodelay {
                        return Err(format!("{t:?} has no-delay {nodelay}"));
                    }
                }
                Err(e) if !found.is_empty() => return Err(format!("{t:?}: {e}")),
                Err(_) => (),
            }
            let options = Arc::new(tcp::options(t.host, port, t.nodelay));
            let conn = if by_pool {
                let pool: Arc<AsyncPool<Connection, TcpStream, 2>> = Arc::new(AsyncPool::new(options));
                let res = pool.get().await.map(|x| x.data().id());
                kept.push((None, Some(pool)));
                res
            } else {
                Connection::connect(options).await.map(|c| {
                    let id = c.data().id();
                    kept.push((Some(c), None));
                    id
                })
            };
            match conn {
                Ok(id) if found.contains(&(id as usize - 1)) => (),
                Ok(id) => return Err(format!("{t:?} reached the server at {}", hosts[id as usize - 1].addr)),
                Err(e) if !found.is_empty() => return Err(format!("{t:?}: {e:?}")),
                Err(e) => match E::of(&e) {
                    E::Server { .. } => return Err(format!("{t:?}: {e:?}")),
                    _ => (),
                },
            }
            ch.steps(2);
            ch.state(&(t.host, t.port, t.nodelay, &found));
        }
        Ok(())
    })
    .unwrap_or_else(|_| Err("hangs".to_owned()));
    ch.outcome(&res);
    res
}

#[derive(Clone, Copy, Debug)]
enum Auth {
    Native,
    Sha2Cached,
    Sha2Key,
    Switch,
}

const AUTHS: [Auth; 4] = [Auth::Native, Auth::Sha2Cached, Auth::Sha2Key, Auth::Switch];

fn cfg(auth: Auth, deprecate: bool) -> Cfg {
    static KEY: std::sync::OnceLock<Arc<Key>> = std::sync::OnceLock::new();
    let mut cfg = Cfg {
        caps: scen::caps(deprecate),
        ..Cfg::default()
    };
    match auth {
        Auth::Native => (),
        Auth::Sha2Cached => cfg.plugin = Plugin::Sha2,
        Auth::Sha2Key => {
            cfg.plugin = Plugin::Sha2;
            cfg.cached = false;
            cfg.key = Some(KEY.get_or_init(|| Arc::new(Key::generate(512, 1))).clone());
        }
        Auth::Switch => cfg.switch = Some((Plugin::Native, (101..=120).collect())),
    }
    cfg
}

fn any(i: usize, ch: &mut Chooser) -> Item {
    const READS: [Read; 4] = [Read::All, Read::Next(0), Read::Next(1), Read::Next(2)];
    match ch.choose(3) {
        0 => scen::query(i, ch.choose(SHAPES), *ch.pick(&READS)),
        1 => scen::execute(i, *ch.pick(&[0, 1, 6])),
        _ => scen::prepare(i, 2, 1, &[(ch.choose(SHAPES), Some(*ch.pick(&READS)))]),
    }
}

/// A query of `n` bytes with a value of `m` bytes.
fn big(i: usize, n: usize, m: usize) -> Item {
    let mut item = scen::query(i, 0, Read::All);
    let sql = format!("q{i}{}", "x".repeat(n));
    item.op = mc::drive::Op::Query(sql, Read::All);
    item.replies = vec![vec![Reply::Rows {
        cols: vec![Col::new("c", ty::VAR_STRING, 0)],
        rows: vec![vec![Cell::Bytes((0..m).map(|x| 32 + (x % 95) as u8).collect())]],
        end: End::Ok(Default::default()),
    }]];
    item
}

fn conversation(items: &[Item], auth: Auth, deprecate: bool, m: Manner, nodelay: bool, ch: &mut Chooser) -> Result<(), String> {
    let seen = Mutex::new(Vec::new());
    let server = Server::new(cfg(auth, deprecate), scen::handler(items));
    let log = server.log.clone();
    let server = Mutex::new(Some(server));
    let res = tcp::run(async {
        let host = Host::new(V4, 0, move |_| (Box::new(server.lock().unwrap().take().expect("one connection")) as _, m))
            .await
            .map_err(|e| e.to_string())?;
        let conn = Connection::connect(Arc::new(tcp::options("127.0.0.1", host.addr.port(), nodelay)))
            .await
            .map_err(|e| format!("connect: {e:?}"))?;
        scen::talk(conn, items, deprecate, &log, host.settle(), &seen, ch).await
    })
    .unwrap_or_else(|_| Err("hangs".to_owned()));
    let seen = seen.into_inner().unwrap();
    ch.outcome(&seen.iter().flatten().map(|x| format!("{x:?}").len()).collect::<Vec<_>>());
    res?;
    errors(&log)
}

fn errors(log: &Mutex<Log>) -> Result<(), String> {
    match log.lock().unwrap().errors.first() {
        Some(e) => Err(format!("the server received something invalid: {e}")),
        None => Ok(()),
    }
}

/// The first connection of a pool ends after `at` bytes.
fn cut(items: &[Item], auth: Auth, at: usize, reset: bool, ch: &mut Chooser) -> Result<(), String> {
    let probe = scen::probe();
    let all: Vec<Item> = items.iter().cloned().chain([probe.clone()]).collect();
    let mut got_all = Vec::new();
    let logs: Arc<Mutex<Vec<Arc<Mutex<Log>>>>> = Arc::default();
    let l = logs.clone();
    let res = tcp::run(async {
        let host = Host::new(V4, 0, move |n| {
            let server = Server::new(cfg(auth, true), scen::handler(&all));
            l.lock().unwrap().push(server.log.clone());
            let manner = Manner {
                cut: (n == 0).then_some((at, reset)),
                ..Manner::default()
            };
            (Box::new(server) as _, manner)
        })
        .await
        .map_err(|e| e.to_string())?;
        let pool: AsyncPool<Connection, TcpStream, 1> =
            AsyncPool::new(Arc::new(tcp::options("127.0.0.1", host.addr.port(), true)));
        let mut model = scen::Model {
            deprecate_eof: true,
            ..Default::default()
        };
        let mut lost = false;
        match pool.get().await {
            Err(e) => {
                got_all.push(vec![Obs::Err(E::of(&e))]);
                lost = true;
            }
            Ok(mut conn) => {
                for (i, item) in items.iter().enumerate() {
                    let (expected, _) = model.step(item);
                    let mut got = Vec::new();
                    run_op(&mut conn, &item.op, &mut got).await;
                    got_all.push(got.clone());
                    ch.steps(got.len() as u64);
                    let failed = |x: &Obs| matches!(x, Obs::Err(e) if !e.is_server());
                    if lost {
                        // what is known already may still be told
                        if !got.iter().all(|x| failed(x)) && !scen::same(&expected, &got) {
                            return Err(format!("operation {i} of a lost connection returned {got:?}"));
                        }
                    } else if !scen::same(&expected, &got) {
                        lost = true;
                        let n = got.iter().take_while(|x| !failed(x)).count();
                        if n == got.len() || n > expected.len() || !scen::same(&expected[..n], &got[..n]) {
                            return Err(format!("operation {i} returned {got:?} instead of {expected:?}"));
                        }
                    }
                }
            }
        }
        if let Some(Obs::Err(e)) = got_all.iter().flatten().find(|x| matches!(x, Obs::Err(e) if e.is_server())) {
            if lost && got_all.len() == 1 {
                return Err(format!("{e:?} instead of a lost connection"));
            }
        }
        // the pool has another one, or the same if nothing was lost yet
        for k in 0..2 {
            let mut got = Vec::new();
            match pool.get().await {
                Ok(mut conn) => run_op(&mut conn, &probe.op, &mut got).await,
                Err(e) => return Err(format!("the pool does not recover: {e:?}")),
            }
            let (expected, _) = scen::Model {
                deprecate_eof: true,
                ..Default::default()
            }
            .step(&probe);
            if scen::same(&expected, &got) {
                break;
            }
            // the end may also come in the midst of the probe
            let n = got.iter().take_while(|x| !matches!(x, Obs::Err(e) if !e.is_server())).count();
            let ends = n < got.len() && n <= expected.len() && scen::same(&expected[..n], &got[..n]);
            if lost || k > 0 || !ends {
                return Err(format!("after the end of a connection the next one returns {got:?}"));
            }
        }
        Ok(())
    })
    .unwrap_or_else(|_| Err("hangs".to_owned()));
    ch.outcome(&got_all.iter().flatten().map(|x| format!("{x:?}").len()).collect::<Vec<_>>());
    ch.state(&(at, reset));
    ch.note(|| format!("cut after {at} bytes, reset {reset}: {got_all:?}"));
    res.map_err(|e| format!("cut after {at} bytes, reset {reset}, {got_all:?}: {e}"))?;
    let logs = logs.lock().unwrap();
    logs.iter().try_for_each(|l| errors(l))
}

fn main() {
    mc::main(
        "C26",
        Level {
            level: "exploration",
            rule: "every combination of options, conversations and ends of connections within the bounds, over real sockets of the \
                   loopback interface",
            assumptions: &[
                "how the kernel joins segments is up to it: the result must not depend on it",
                "names other than `localhost` are resolved as that one is",
            ],
        },
        |run| {
            run.space("defaults", "the default options and the declared security", |_| {
                let o = TcpStreamOptions::default();
                if (o.host.as_str(), o.port) != ("localhost", 3306) {
                    return Err(format!("{o:?}"));
                }
                if <TcpStream as Stream>::SECURE {
                    return Err("a TCP stream is said to be secure".into());
                }
                Ok(())
            });
            let n = run.by(2, 3);
            run.space(
                "addresses",
                "two (thorough: three) connections, alone or in pools of their own, to each of 4 hosts and 3 ports, one of which is closed, \
                 with and without no-delay, while up to four servers listen",
                |ch| addresses(n, ch),
            );
            let quick = run.quick();
            run.space(
                "conversations",
                "one operation of 108 (thorough: two) and a probe, 4 ways (thorough: one) to log in, segments of 1, 7 or all bytes or without \
                 no-delay, with and (quick) without DEPRECATE_EOF",
                |ch| {
                    let mut items = vec![any(0, ch)];
                    if !quick {
                        items.push(any(1, ch));
                    }
                    items.push(scen::probe());
                    let auth = if quick { *ch.pick(&AUTHS) } else { *ch.pick(&AUTHS[..1]) };
                    let (m, nodelay) = *ch.pick(&[
                        (Manner::default(), true),
                        (Manner { seg: 7, ..Manner::default() }, true),
                        (Manner { seg: 1, read: 1, ..Manner::default() }, true),
                        (Manner::default(), false),
                    ]);
                    let deprecate = !(quick && ch.flag());
                    conversation(&items, auth, deprecate, m, nodelay, ch)
                },
            );
            let sizes: &[usize] = if quick {
                &[0, 1 << 16, 300_000, 5_000_000]
            } else {
                &[0, 1 << 10, 1 << 14, 1 << 16, 1 << 18, 300_000, 1 << 20, 5_000_000, 16_000_000]
            };
            run.space("large packets", "queries and values of up to 5 MB (thorough: 16 MB), one after another", |ch| {
                let items = [big(0, *ch.pick(sizes), *ch.pick(sizes)), big(1, *ch.pick(sizes), 10), scen::probe()];
                let m = *ch.pick(&[Manner::default(), Manner { seg: 10_000, read: 5_000, ..Manner::default() }]);
                conversation(&items, Auth::Native, true, m, true, ch)
            });
            let items = |i: usize| match i {
                0 => vec![scen::query(0, 2, Read::All), scen::prepare(1, 2, 1, &[(1, Some(Read::All))])],
                1 => vec![scen::query(0, 5, Read::Next(1)), scen::execute(1, 0)],
                _ => vec![scen::prepare(0, 1, 2, &[(2, Some(Read::Next(1))), (2, Some(Read::All))]), scen::query(1, 3, Read::All)],
            };
            let max = run.by(400, 900);
            run.each(
                "ends",
                "the first connection of a pool ends or is reset after each number of bytes up to 400 (thorough: 900), in 3 conversations \
                 and 4 ways to log in; then the pool is used again",
                max,
                |at, ch| cut(&items(ch.choose(3)), *ch.pick(&AUTHS), at + 1, ch.flag(), ch),
            );
        },
    )
}

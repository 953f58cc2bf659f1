//! C01: every command is answered by its own response.
use mc::{
    drive::Read,
    scen::{self, Item, READS, SHAPES},
    wire::Reply,
    Chooser, Level,
};

#[global_allocator]
static ALLOC: mc::Alloc = mc::Alloc;

/// Any operation.
fn any(i: usize, ch: &mut Chooser) -> Item {
    match ch.choose(8) {
        0 => {
            let shape = ch.choose(SHAPES);
            scen::query(i, shape, *ch.pick(&READS))
        }
        1 => scen::execute(i, ch.choose(SHAPES)),
        2 => scen::cleanup(),
        3 => scen::prepare_fails(i),
        4 => {
            let (p, c) = *ch.pick(&[(0, 0), (1, 0), (0, 1), (2, 2)]);
            scen::prepare(i, p, c, &[])
        }
        5 => {
            let shape = ch.choose(SHAPES);
            let params = ch.choose(2);
            scen::prepare(i, params, 1, &[(shape, Some(*ch.pick(&READS)))])
        }
        6 => {
            let shape = ch.choose(SHAPES);
            scen::prepare(i, ch.choose(2) * 2, 0, &[(shape, None)])
        }
        _ => {
            let mut exec = || {
                let shape = *ch.pick(&[0, 1, 2, 4, 5, 7]);
                let read = *ch.pick(&[None, Some(Read::All), Some(Read::Next(0)), Some(Read::Next(1))]);
                (shape, read)
            };
            let ops = [exec(), exec()];
            scen::prepare(i, 1, 2, &ops)
        }
    }
}

/// An operation for every state it can leave the connection in.
fn few(i: usize, ch: &mut Chooser) -> Item {
    let shapes = [0, 1, 2, 4, 5, 6, 7];
    match ch.choose(5) {
        0 => {
            let shape = *ch.pick(&shapes);
            scen::query(i, shape, *ch.pick(&[Read::All, Read::Next(0), Read::Next(1)]))
        }
        1 => scen::execute(i, *ch.pick(&[0, 1, 6])),
        2 => scen::cleanup(),
        3 => {
            let shape = *ch.pick(&shapes);
            scen::prepare(i, 1, 2, &[(shape, Some(*ch.pick(&[Read::All, Read::Next(1)])))])
        }
        _ => {
            if ch.flag() {
                scen::prepare_fails(i)
            } else {
                scen::prepare(i, 2, 1, &[(0, None)])
            }
        }
    }
}

/// One of 12 operations.
fn again(i: usize, kind: usize, read: Read) -> Item {
    match kind {
        0 => scen::query(i, 2, read),
        1 => scen::query(i, 0, Read::All),
        2 => scen::query(i, 1, read),
        3 => scen::query(i, 5, read),
        4 => scen::execute(i, 0),
        5 => scen::execute(i, 6),
        6 => scen::query(i, 4, read),
        7 => scen::prepare(i, 2, 1, &[(2, Some(read))]),
        8 => scen::prepare(i, 0, 0, &[]),
        9 => scen::prepare(i, 1, 0, &[(0, None), (1, None)]),
        10 => scen::prepare_fails(i),
        _ => scen::cleanup(),
    }
}

/// Repeats the columns of all results.
fn widen(replies: &mut [Reply], n: usize) {
    for r in replies {
        if let Reply::Rows { cols, rows, .. } = r {
            *cols = cols.iter().cycle().take(n).cloned().collect();
            for row in rows {
                *row = row.iter().cycle().take(n).cloned().collect();
            }
        }
    }
}

fn renumber(item: &mut Item, to: u32) {
    item.stmt = to;
    if let Reply::Prepared { id, .. } = &mut item.replies[0][0] {
        *id = to;
    }
}

fn main() {
    mc::main(
        "C01",
        Level {
            level: "model_checking",
            rule: "every sequence of operations of the stated length and alphabet, run on the real \
                   client against the reference server, each outcome compared with the reference \
                   model of a connection; all of them are compared, none is trivial",
            assumptions: &[
                "the transport delivers everything at once (other transports: C02)",
                "execute_query and execute on a statement that returns rows is misuse: it fails and \
                 the connection refuses further commands",
            ],
        },
        |run| {
            run.space(
                "pairs",
                "all pairs of 900 operations (12 result shapes x 6 ways to read, prepared or not), \
                 then a probe; with and without DEPRECATE_EOF",
                |ch| {
                    let deprecate = !ch.flag();
                    let items = [any(0, ch), few(1, ch), scen::probe()];
                    scen::check(&items, deprecate, ch)
                },
            );
            run.space(
                "pairs reversed",
                "the operations of the larger alphabet after each one of the smaller",
                |ch| {
                    let deprecate = !ch.flag();
                    let items = [few(0, ch), any(1, ch), scen::probe()];
                    scen::check(&items, deprecate, ch)
                },
            );
            run.space(
                "farewells",
                "the operations of the larger alphabet, alone or after each one of the smaller, then \
                 the connection is closed",
                |ch| {
                    let deprecate = !ch.flag();
                    let mut items = Vec::new();
                    if ch.flag() {
                        items.push(few(0, ch));
                    }
                    items.push(any(1, ch));
                    scen::check(&items, deprecate, ch)
                },
            );
            let depth = run.by(3, 4);
            run.space(
                "sequences",
                "all sequences of 3 (thorough: 4) of 41 operations, then a probe; with \
                 DEPRECATE_EOF, at depth 3 also without",
                |ch| {
                    let deprecate = depth == 4 || !ch.flag();
                    let mut items: Vec<Item> = (0..depth).map(|i| few(i, ch)).collect();
                    items.push(scen::probe());
                    scen::check(&items, deprecate, ch)
                },
            );
            if !run.quick() {
                run.space("all pairs", "all pairs of the larger alphabet, then a probe", |ch| {
                    let items = [any(0, ch), any(1, ch), scen::probe()];
                    scen::check(&items, !ch.flag(), ch)
                });
            }
            let sizes: Vec<usize> = run.by(
                (250..262).chain(508..516).collect(),
                (12..530).collect(),
            );
            run.space(
                "wrap",
                "results whose packets exceed the range of sequence ids, read in part or fully, \
                 followed by another command",
                |ch| {
                    let n = *ch.pick(&sizes);
                    let read = *ch.pick(&[
                        Read::All,
                        Read::Next(0),
                        Read::Next(1),
                        Read::Next(n / 2),
                        Read::Next(n),
                        Read::Finish,
                    ]);
                    let deprecate = !ch.flag();
                    let first = if ch.flag() {
                        scen::query(0, n, read)
                    } else {
                        scen::prepare(0, 0, 2, &[(n, Some(read))])
                    };
                    scen::check(&[first, scen::query(1, 2, Read::All)], deprecate, ch)
                },
            );
            run.space(
                "many columns",
                "statements with many columns or parameters (around 255, 65535), prepared and executed, \
                 and results of many columns, followed by another command",
                |ch| {
                    let n = *ch.pick(&[3, 127, 128, 249, 250, 251, 252, 255, 256, 257, 511, 512, 1024, 4096, 65535]);
                    let deprecate = !ch.flag();
                    let ops: &[(usize, Option<Read>)] = *ch.pick(&[
                        &[][..],
                        &[(0, None)],
                        &[(2, Some(Read::All))],
                        &[(2, Some(Read::Next(0)))],
                        &[(2, Some(Read::Next(1))), (1, None)],
                    ]);
                    let first = match ch.choose(4) {
                        0 => scen::prepare(0, 0, n, ops),
                        1 => scen::prepare(0, n, 0, ops),
                        2 => scen::prepare(0, n, n, ops),
                        _ => {
                            let mut x = scen::query(0, 2, ops.first().and_then(|x| x.1).unwrap_or(Read::One));
                            widen(&mut x.replies[0], n.min(4096));
                            x
                        }
                    };
                    scen::check(&[first, scen::query(1, 2, Read::All)], deprecate, ch)
                },
            );
            let lengths: Vec<usize> = run.by(vec![17, 33, 65, 101, 129, 257, 300], vec![33, 65, 129, 257, 300, 513, 1025, 2049]);
            run.each(
                "long sessions",
                "up to 300 (thorough: 2049) times one of 12 operations, or one of them and another one in turn, then a probe; a \
                 statement executed as often; a command with as many results, read in part or fully",
                lengths.len(),
                |i, ch| {
                    let n = lengths[lengths.len() - 1 - i];
                    let read = *ch.pick(&[Read::All, Read::Next(0), Read::Next(1)]);
                    let mut items = match ch.choose(3) {
                        0 => {
                            let kind = ch.choose(12);
                            let other = *ch.pick(&[kind, 0, 4, 7]);
                            (0..n).map(|i| again(100 + i, if i % 2 == 0 { kind } else { other }, read)).collect()
                        }
                        1 => {
                            let ops = [(2, Some(read)), (*ch.pick(&[0, 1, 2]), None), (*ch.pick(&[1, 2, 5, 7]), Some(read))];
                            let k = 1 + ch.choose(3);
                            let ops: Vec<_> = (0..n).map(|i| ops[i % k]).filter(|x| *x != (2, None)).collect();
                            vec![scen::prepare(0, ch.choose(3), 2, &ops)]
                        }
                        _ => {
                            let shapes = *ch.pick(&[&[0][..], &[2], &[3], &[0, 2], &[2, 3, 0]]);
                            let read = *ch.pick(&[
                                Read::All,
                                Read::Next(0),
                                Read::Next(1),
                                Read::Next(2),
                                Read::One,
                                Read::Finish,
                            ]);
                            let mut x = if ch.flag() {
                                scen::prepare(0, 1, 2, &[(2, Some(read))])
                            } else {
                                scen::query(0, 2, read)
                            };
                            let at = x.replies.len() - 1;
                            x.replies[at] = (0..n)
                                .flat_map(|i| scen::replies(shapes[i % shapes.len()], &format!("q{i}")))
                                .collect();
                            vec![x, scen::query(1, 2, Read::All)]
                        }
                    };
                    items.push(scen::probe());
                    scen::check(&items, !ch.flag(), ch)
                },
            );
            run.space(
                "statement ids",
                "two statements with ids that differ in one byte, executed in turn",
                |ch| {
                    let ids = [
                        0u32, 1, 0xFF, 0x100, 0x101, 0xFFFF, 0x1_0000, 0x1_0001, 0xFF_FFFF, 0x100_0000, 0x100_0001,
                        0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FFFE, 0xFFFF_FFFF,
                    ];
                    let a = ch.choose(ids.len());
                    let b = ch.choose(ids.len());
                    if a == b {
                        ch.trivial();
                        return Ok(());
                    }
                    let read = Some(*ch.pick(&[Read::All, Read::Next(0)]));
                    let mut first = scen::prepare(0, 1, 2, &[(2, read), (0, None)]);
                    let mut second = scen::prepare(1, 0, 2, &[(5, read), (0, None)]);
                    renumber(&mut first, ids[a]);
                    renumber(&mut second, ids[b]);
                    scen::check(&[first, second, scen::probe()], true, ch)
                },
            );
        },
    )
}

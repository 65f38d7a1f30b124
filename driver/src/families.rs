//! One generator of cases per property.
use crate::case::{Case, Check, Mode};
use crate::gen::{dag, DagOpts, B};
use crate::rng::Rng;
use crate::topo::{self, render, Kind, Style};
use simcore::scenario::*;
use Check as C;

const ENOENT: i32 = 2;
const EIO: i32 = 5;
const ENOMEM: i32 = 12;
const ENOBUFS: i32 = 105;
const EACCES: i32 = 13;
const EISDIR: i32 = 21;
const EMFILE: i32 = 24;
const ENOSPC: i32 = 28;
const EPIPE: i32 = 32;
const EDQUOT: i32 = 122;

#[allow(dead_code)]
pub const PROPS: [&str; 27] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
    "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27",
];

pub fn generate(prop: &str, seed: u64) -> Case {
    match prop {
        "C01" => c01(seed),
        "C02" => c02(seed),
        "C03" => c03(seed),
        "C04" => c04(seed),
        "C05" => c05(seed),
        "C06" => c06(seed),
        "C07" => c07(seed),
        "C08" => c08(seed),
        "C09" => c09(seed),
        "C10" => c10(seed),
        "C11" => c11(seed),
        "C12" => c12(seed),
        "C13" => c13(seed),
        "C14" => c14(seed),
        "C15" => c15(seed),
        "C16" => c16(seed),
        "C17" => c17(seed),
        "C18" => c18(seed),
        "C19" => c19(seed),
        "C20" => c20(seed),
        "C21" => c21(seed),
        "C22" => c22(seed),
        "C23" => c23(seed),
        "C24" => c24(seed),
        "C25" => c25(seed),
        "C26" => c26(seed),
        "C27" => c27(seed),
        "C31" => c31(seed),
        "C32" => c32(seed),
        _ => panic!("unknown property {}", prop),
    }
}

fn all() -> C {
    C::AllData { mode: Mode::Complete }
}
fn prefix() -> C {
    C::AllData { mode: Mode::Prefix }
}

/// a source of bulk data: `n` lines of about `len` bytes
fn bulk(b: &mut B, tag: &str, n: usize, len: usize) -> Feed {
    let mut segs = vec![];
    for i in 0..n {
        segs.push(Seg { s: format!("{}.{};", tag, i), n: len + (i * 7) % 13, t: 1, ..Default::default() });
    }
    let _ = b;
    Feed { segs, ..Default::default() }
}

/// more messages than usual; the transport gets less fancy
fn lots(b: &mut B, tag: &str) -> Feed {
    let n = b.r.of(&[300usize, 1100, 2500, 6000]);
    let len = b.r.of(&[0usize, 3, 40]);
    b.lots = true;
    bulk(b, tag, n, len)
}
/// either a faucet or a program that produces the feed's lines on stdout
fn source(b: &mut B, f: Feed, stdin_ok: &mut bool) -> (usize, u8) {
    match b.r.below(4) {
        0 | 1 => (b.faucet(f), 0),
        2 if *stdin_ok => {
            *stdin_ok = false;
            (b.faucet_stdin(f), 0)
        }
        _ => {
            let port = if b.r.chance(70) { 0 } else { 1 };
            let n = b.launch(ProgSpec { exit_on: 1, ..Default::default() });
            let emit = f
                .segs
                .iter()
                .enumerate()
                .map(|(i, s)| Emit { port: 1 << port, seg: s.clone(), gap: f.gaps.iter().find(|g| g.0 == i).map(|g| g.1).unwrap_or(0) })
                .collect();
            b.prog(n).emit = emit;
            (n, port)
        }
    }
}

/// put up to `max` pass-through parts behind (s, port); returns the new end
fn pad(b: &mut B, mut at: (usize, u8), max: usize, kinds: &[Kind], brk: char) -> (usize, u8) {
    let k = b.r.below(max + 1);
    for _ in 0..k {
        let kind = b.r.of(kinds);
        let n = match kind {
            Kind::Buffer => b.buffer(),
            Kind::Junction => b.junction(),
            Kind::Regulator if kinds.contains(&Kind::Buffer) && b.r.chance(50) => {
                at = watched(b, at, kinds, brk);
                continue;
            }
            Kind::Regulator => {
                let n = b.regulator(0, 1, vec![]);
                if b.r.chance(30) {
                    b.t.nodes[n].reg = None;
                }
                n
            }
            _ => {
                let port = if b.r.chance(80) { 1u8 } else { 2 };
                let n = b.launch(ProgSpec { rule: Rule::Lines { route: vec![port] }, ..Default::default() });
                let e = b.t.edge(at.0, at.1, n);
                b.t.edges[e].brk = brk;
                at = (n, port - 1);
                continue;
            }
        };
        let e = b.t.edge(at.0, at.1, n);
        b.t.edges[e].brk = brk;
        at = (n, 0);
    }
    at
}
/// a regulator and, somewhere behind it, the buffer it watches
fn watched(b: &mut B, mut at: (usize, u8), kinds: &[Kind], brk: char) -> (usize, u8) {
    let r = b.node(Kind::Regulator);
    join(b, at, r, brk);
    at = (r, 0);
    match b.r.below(4) {
        0 => {
            let j = b.junction();
            join(b, at, j, brk);
            at = (j, 0);
        }
        1 if kinds.contains(&Kind::Launch) => {
            let n = b.launch(ProgSpec { rule: Rule::Lines { route: vec![1] }, ..Default::default() });
            join(b, at, n, brk);
            at = (n, 0);
        }
        _ => (),
    }
    let bu = b.buffer();
    join(b, at, bu, brk);
    let low = b.r.of(&[0usize, 0, 1, 3]);
    let high = low + b.r.of(&[1usize, 1, 2, 10]);
    b.t.nodes[r].reg = Some((low, high, vec![bu]));
    (bu, 0)
}
const RELAYS: [Kind; 4] = [Kind::Buffer, Kind::Junction, Kind::Regulator, Kind::Junction];

fn join(b: &mut B, at: (usize, u8), d: usize, brk: char) -> usize {
    let e = b.t.edge(at.0, at.1, d);
    b.t.edges[e].brk = brk;
    e
}

/// Puts a regulator and the buffer it watches into a connection, at node `d` if it has any.
fn regulate_at(b: &mut B, d: usize) {
    let v: Vec<usize> = (0..b.t.edges.len()).filter(|e| b.t.edges[*e].d == d).collect();
    let e = if v.is_empty() || b.r.chance(30) { b.r.below(b.t.edges.len()) } else { b.r.of(&v) };
    let (d, prio, brk) = (b.t.edges[e].d, b.t.edges[e].prio, b.t.edges[e].brk);
    let r = b.node(Kind::Regulator);
    let bu = b.buffer();
    b.t.edges[e].d = r;
    b.t.edges[e].prio = 0;
    join(b, (r, 0), bu, brk);
    let x = join(b, (bu, 0), d, brk);
    b.t.edges[x].prio = prio;
    let low = b.r.of(&[0usize, 0, 1, 3]);
    let high = low + b.r.of(&[1usize, 1, 2, 10]);
    b.t.nodes[r].reg = Some((low, high, vec![bu]));
}

/// As long as nobody is lost, the pipe variations make no difference.
fn mix(b: &mut B) {
    if !b.r.chance(40) {
        return;
    }
    let one = b.r.of(&['T', 'F', 'C', '*', '*']);
    for i in 0..b.t.edges.len() {
        b.t.edges[i].brk = if one == '*' { b.r.of(&['T', 'F', 'C']) } else { one };
    }
}

// ------------------------------------------------------------------------------------------------ C01
fn c01(seed: u64) -> Case {
    let mut b = B::new(seed);
    let long = b.r.chance(40);
    b.timing(long);
    let chains = b.r.of(&[1usize, 1, 1, 2]);
    let mut stdin_used = false;
    let mut std_used = [false, false];
    for _ in 0..chains {
        let mut at;
        if b.r.chance(65) {
            let f = if chains == 1 && b.r.chance(3) { lots(&mut b, "N") } else { b.blob_feed() };
            at = if !stdin_used && b.r.chance(40) {
                stdin_used = true;
                (b.faucet_stdin(f), 0)
            } else {
                (b.faucet(f), 0)
            };
        } else {
            let port = b.r.of(&[1u8, 1, 2]);
            let segs = b.blob();
            let emit = b.emits(port, segs);
            let n = b.launch(ProgSpec { exit_on: 1, ..Default::default() });
            b.vary(n);
            b.prog(n).emit = emit;
            at = (n, port - 1);
        }
        let hops = if b.r.chance(4) { b.r.range(6, 14) } else { b.r.below(5) };
        for _ in 0..hops {
            match b.r.below(7) {
                0 => at = pad(&mut b, at, 1, &[Kind::Buffer], 'T'),
                1 => at = pad(&mut b, at, 1, &[Kind::Junction], 'T'),
                2 => at = pad(&mut b, at, 1, &[Kind::Regulator], 'T'),
                3 => {
                    // a regulator that really watches the buffer behind it
                    let r = b.node(Kind::Regulator);
                    let bu = b.buffer();
                    let low = b.r.below(4);
                    let high = low + b.r.range(1, 6);
                    b.t.nodes[r].reg = Some((low, high, vec![bu]));
                    b.t.edge(at.0, at.1, r);
                    b.t.edge(r, 0, bu);
                    at = (bu, 0);
                }
                4 | 5 => {
                    let port = b.r.of(&[0u8, 0, 1]);
                    let n = b.launch(ProgSpec { rule: Rule::Raw { port: 1 << port }, ..Default::default() });
                    b.vary(n);
                    b.t.edge(at.0, at.1, n);
                    at = (n, port);
                }
                _ => {
                    let n = b.launch(ProgSpec { rule: Rule::Lines { route: vec![1] }, ..Default::default() });
                    b.vary(n);
                    b.t.edge(at.0, at.1, n);
                    at = (n, 0);
                }
            }
        }
        let d = match b.r.below(5) {
            0 if !std_used[0] => {
                std_used[0] = true;
                b.drain_std(false)
            }
            1 if !std_used[1] => {
                std_used[1] = true;
                b.drain_std(true)
            }
            2 => {
                let n = b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() });
                b.vary(n);
                n
            }
            _ => b.drain(),
        };
        b.t.edge(at.0, at.1, d);
    }
    mix(&mut b);
    b.finish("C01", "straight", seed, vec![C::Ends, C::ExitZero, all()], true)
}

// ------------------------------------------------------------------------------------------------ C02
fn c02(seed: u64) -> Case {
    let mut b = B::new(seed);
    b.huge_ok = true;
    let long = b.r.chance(40);
    b.timing(long);
    let mut stdin_ok = true;
    let k = if b.r.chance(6) { b.r.range(6, 20) } else { b.r.range(2, 5) };
    let many = b.r.chance(3);
    let mut ends: Vec<(usize, u8)> = vec![];
    for i in 0..k {
        let lines = b.r.of(&[0usize, 1, 5, 20, 40, 60]);
        let lines = b.r.range(0, lines);
        if b.r.chance(75) {
            let tag = format!("S{}", i);
            let f = if many && i < 3 { lots(&mut b, &tag) } else { b.tagged_feed(&tag, lines) };
            let s = source(&mut b, f, &mut stdin_ok);
            ends.push(s);
        } else {
            // stdout and stderr of one program, and its exit status
            let n = b.launch(ProgSpec { exit_on: 1, ..Default::default() });
            b.vary(n);
            let mut emit = vec![];
            for j in 0..lines {
                let port = b.r.of(&[1u8, 2]);
                let len = b.line_len();
                let seg = b.tagged(&format!("S{}", i), j, len, 1);
                emit.push(Emit { port, seg, gap: 0 });
            }
            b.prog(n).emit = emit;
            ends.push((n, 0));
            ends.push((n, 1));
            if b.r.chance(50) {
                ends.push((n, 2));
            }
        }
    }
    if b.r.chance(15) {
        let d = b.r.of(&ends);
        ends.push(d); // the same stream twice
    }
    let mut paths: Vec<(usize, u8)> = vec![];
    for e in ends {
        let p = pad(&mut b, e, 2, &RELAYS, 'T');
        paths.push(p);
    }
    // merge everything, possibly in two stages
    let stages = b.r.range(1, 2);
    for s in 0..stages {
        let last = s + 1 == stages;
        let take = if last { paths.len() } else { b.r.range(2, paths.len()) };
        let ins: Vec<(usize, u8)> = paths.drain(..take).collect();
        let kind = if last { b.r.below(5) } else { b.r.of(&[0usize, 0, 1]) };
        let n = match kind {
            0 => b.junction(),
            1 => b.buffer(),
            2 => {
                let n = b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() });
                b.vary(n);
                n
            }
            3 => {
                let n = b.launch(ProgSpec { rule: Rule::Lines { route: vec![1] }, ..Default::default() });
                b.vary(n);
                n
            }
            _ => b.drain(),
        };
        for (s, p) in ins {
            // the same connection cannot be listed twice
            if b.t.edges.iter().any(|e| e.s == s && e.port == p && e.d == n) {
                let j = b.junction();
                b.t.edge(s, p, j);
                b.t.edge(j, 0, n);
            } else {
                let e = b.t.edge(s, p, n);
                if kind == 0 && b.r.chance(20) {
                    b.t.edges[e].prio = b.r.below(3) as i64;
                }
            }
        }
        if matches!(kind, 0 | 1 | 3) {
            paths.insert(0, (n, 0));
        }
    }
    for p in paths {
        let d = b.drain();
        b.t.edge(p.0, p.1, d);
    }
    mix(&mut b);
    b.finish("C02", "merge", seed, vec![C::Ends, C::ExitZero, all()], true)
}

// ------------------------------------------------------------------------------------------------ C03
fn c03(seed: u64) -> Case {
    let mut b = B::new(seed);
    b.huge_ok = true;
    let long = b.r.chance(40);
    b.timing(long);
    let mut stdin_ok = true;
    let nsrc = b.r.of(&[1usize, 1, 2, 3]);
    let lines = b.r.of(&[5usize, 30, 80, 200]);
    let mut srcs = vec![];
    for i in 0..nsrc {
        let n = b.r.range(0, lines);
        let tag = format!("S{}", i);
        let f = if i == 0 && b.r.chance(3) { lots(&mut b, &tag) } else { b.tagged_feed(&tag, n) };
        let s = source(&mut b, f, &mut stdin_ok);
        // (also the status of a program is a stream, of one message)
        srcs.push(if b.t.nodes[s.0].kind == Kind::Launch && b.r.chance(15) { (s.0, 2) } else { s });
    }
    let at = if nsrc > 1 || b.r.chance(30) {
        let j = if b.r.chance(70) { b.junction() } else { b.buffer() };
        for s in srcs {
            b.t.edge(s.0, s.1, j);
        }
        (j, 0)
    } else {
        srcs[0]
    };
    let outs = if b.r.chance(6) { b.r.range(6, 20) } else { b.r.range(2, 5) };
    let mut same = vec![];
    let mut dead = false;
    for i in 0..outs {
        let p = pad(&mut b, at, 2, &RELAYS, 'T');
        let d = match b.r.below(5) {
            0..=1 => {
                let n = b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() });
                b.vary(n);
                if b.r.chance(50) {
                    let slow = b.r.of(&[50u64, 2000, 30_000]);
                    b.prog(n).slow = slow;
                }
                if b.r.chance(30) {
                    let w = When::LinesIn(b.r.range(1, lines) as u64);
                    let us = b.gap();
                    b.prog(n).acts.push((w, What::Stall(us)));
                }
                n
            }
            2 => {
                let n = b.drain();
                let us = b.gap();
                let at = b.r.below(lines * 20);
                if let topo::End::File(f) = b.t.nodes[n].end {
                    b.sc.files[f].sink.stalls.push((at, us));
                }
                n
            }
            3 if b.r.chance(40) => b.drain_null(),
            _ => b.drain(),
        };
        // one consumer may go away on a connection that allows it; the others must not notice
        let mut brk = 'T';
        if !dead && i > 0 && b.t.nodes[d].kind == Kind::Launch && p == at && b.r.chance(25) {
            dead = true;
            let w = When::LinesIn(b.r.below(lines / 2 + 1) as u64);
            let act = if b.r.chance(50) { What::Exit(0) } else { What::CloseStdin };
            b.prog(d).acts.push((w, act));
            brk = b.r.of(&['F', 'C']);
        } else if b.t.nodes[d].end != topo::End::Null {
            same.push(d);
        }
        join(&mut b, p, d, brk);
    }
    if dead {
        // all outgoing connections get the same tolerance
        let brk = if b.r.chance(50) { 'F' } else { 'C' };
        for e in b.t.edges.iter_mut() {
            if e.s == at.0 && e.port == at.1 {
                e.brk = brk;
            }
        }
    }
    let mut aside = vec![];
    if b.r.chance(30) {
        // what the other ports have to say goes elsewhere
        for n in 0..b.t.nodes.len() {
            if b.t.nodes[n].kind != Kind::Launch || (dead && b.t.edges.iter().any(|e| e.d == n && e.brk != 'T')) {
                continue;
            }
            for port in 0..3u8 {
                if (n, port) != at && !b.t.edges.iter().any(|e| e.s == n && e.port == port) && b.r.chance(40) {
                    for _ in 0..b.r.of(&[1usize, 1, 2, 3]) {
                        let d = b.drain();
                        b.t.edge(n, port, d);
                        aside.push(d);
                    }
                }
            }
        }
    }
    if !dead {
        mix(&mut b);
    }
    let mut checks = vec![C::Ends, C::ExitZero];
    for n in &aside {
        checks.push(C::Data { node: *n, mode: Mode::Complete });
    }
    for n in &same {
        checks.push(C::Data { node: *n, mode: Mode::Complete });
    }
    checks.push(C::Same { nodes: same });
    b.finish("C03", "branch", seed, checks, true)
}

// ------------------------------------------------------------------------------------------------ C04
fn c04(seed: u64) -> Case {
    let mut b = B::new(seed);
    if b.r.chance(50) {
        return c04_idle(b, seed);
    }
    // everything is backlogged before the consumer starts; then it takes one message at a time
    let k = if b.r.chance(8) { b.r.range(6, 12) } else { b.r.range(2, 5) };
    let lines = if b.r.chance(5) { 400 } else { b.r.of(&[40usize, 60, 90]) };
    let mut stdin_ok = true;
    let j = b.junction();
    let mut ins: Vec<((usize, u8), i64)> = vec![];
    let prios: Vec<i64> = match b.r.below(4) {
        0 => vec![0],
        1 => vec![0, 1],
        2 => vec![-3, 0, 7],
        _ => (0..3).map(|_| b.r.below(7) as i64 - 3).collect(),
    };
    for i in 0..k {
        let f = bulk(&mut b, &format!("S{}", i), lines, 280);
        let s = source(&mut b, f, &mut stdin_ok);
        let pr = b.r.of(&prios);
        let e = b.t.edge(s.0, s.1, j);
        b.t.edges[e].prio = pr;
        ins.push((s, pr));
    }
    // others are open but silent: nobody has to wait for them, and nobody may profit from that
    let mut idle = 0;
    if b.r.chance(50) {
        for i in 0..b.r.range(1, 2) {
            let mut f = bulk(&mut b, &format!("Q{}", i), 1, 10);
            f.gaps = vec![(0, 3_000_000_000)];
            let s = source(&mut b, f, &mut stdin_ok);
            let e = b.t.edge(s.0, s.1, j);
            b.t.edges[e].prio = b.r.of(&prios);
            idle += 1;
        }
    }
    if idle > 0 {
        // listed anywhere among the others
        let mut es = b.t.edges.clone();
        b.r.shuffle(&mut es);
        b.t.edges = es;
    }
    let n = b.launch(ProgSpec { rule: Rule::Sink, pipe_cap: 300, slow: 8_000, start: 12_000_000, ..Default::default() });
    let relay = b.r.of(&[0usize, 0, 1]);
    let at = if relay == 1 {
        let x = b.junction();
        b.t.edge(j, 0, x);
        (x, 0)
    } else {
        (j, 0)
    };
    b.t.edge(at.0, at.1, n);
    let skip = 30 + 12 * relay;
    let mut checks = vec![C::Ends, C::ExitZero];
    let mut ps: Vec<i64> = ins.iter().map(|x| x.1).collect();
    ps.sort();
    ps.dedup();
    for w in 1..ps.len() {
        checks.push(C::Priority {
            sink: n,
            hi: ins.iter().filter(|x| x.1 < ps[w]).map(|x| x.0).collect(),
            lo: ins.iter().filter(|x| x.1 >= ps[w]).map(|x| x.0).collect(),
            // (an input that can hold only one message is empty for a moment now and then,
            // then it is the turn of each of the others once)
            slack: 12.max(lines / 6) * (1 + (ins.iter().filter(|x| x.1 >= ps[w]).count() - 1) / 4),
            skip,
        });
    }
    for p in &ps {
        let of: Vec<(usize, u8)> = ins.iter().filter(|x| x.1 == *p).map(|x| x.0).collect();
        if of.len() > 1 {
            checks.push(C::Fair { sink: n, of, slack: 18 + 10 * relay, skip: 0 });
        }
    }
    // slight disturbances only: what is backlogged has to stay backlogged
    b.sc.timing = Timing { cls: vec![(0, 0); class::COUNT] };
    if b.r.chance(50) {
        b.sc.timing.cls[class::BLOCKING as usize] = (30, 3);
        b.sc.timing.cls[class::TASK_PICK as usize] = (50, 64);
        b.sc.timing.cls[class::PROG_STEP as usize] = (30, 3);
        b.sc.timing.cls[class::SPURIOUS as usize] = (5, 1);
    }
    b.finish("C04", "backlog", seed, checks, false)
}

fn c04_idle(mut b: B, seed: u64) -> Case {
    b.timing(false);
    // preferred inputs are silent for a long time or ended; less preferred data has to flow meanwhile
    let j = b.junction();
    let k = b.r.range(1, 3);
    let mut stdin_ok = true;
    let quiet = b.r.of(&[60_000_000u64, 200_000_000, 1_000_000_000]);
    let mut checks = vec![C::Ends, C::ExitZero, all()];
    for i in 0..k {
        let n = b.r.range(1, 10);
        let mut f = b.tagged_feed(&format!("H{}", i), n);
        f.segs.iter_mut().for_each(|s| s.t = s.t.max(1));
        f.gaps = vec![];
        f.eof_gap = 0;
        if b.r.chance(75) {
            let at = b.r.below(n);
            f.gaps = vec![(at, quiet)];
        }
        let s = source(&mut b, f, &mut stdin_ok);
        let e = b.t.edge(s.0, s.1, j);
        b.t.edges[e].prio = -(b.r.below(3) as i64);
    }
    let m = b.r.range(1, 3);
    let mut lows = vec![];
    for i in 0..m {
        let n = b.r.range(1, 150);
        let mut f = b.tagged_feed(&format!("L{}", i), n);
        f.segs.iter_mut().for_each(|s| s.t = s.t.max(1));
        f.gaps = vec![];
        f.eof_gap = 0;
        let s = source(&mut b, f, &mut stdin_ok);
        let e = b.t.edge(s.0, s.1, j);
        b.t.edges[e].prio = 1 + b.r.below(4) as i64;
        lows.push(s);
        if b.r.chance(30) {
            // a silent peer
            let mut f = bulk(&mut b, &format!("Q{}", i), 1, 10);
            f.gaps = vec![(0, quiet)];
            let s = source(&mut b, f, &mut stdin_ok);
            let p = b.t.edges[e].prio;
            let e = b.t.edge(s.0, s.1, j);
            b.t.edges[e].prio = p;
        }
    }
    // (a drain on a file may hold data back in its write buffer)
    let d = if b.r.chance(50) { b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() }) } else { b.drain_std(false) };
    b.t.edge(j, 0, d);
    for of in lows {
        checks.push(C::ArrivedBy { sink: d, of, by: quiet - 10_000_000 });
    }
    // (the line writer of std may hold back what a short write left over)
    b.sc.timing.cls[class::FILE_SHORT as usize] = (0, 0);
    // no long delays inside pa2 here
    for c in [class::POLL_LAT, class::OP_COST, class::BLOCKING] {
        let x = &mut b.sc.timing.cls[c as usize];
        x.1 = x.1.min(4);
    }
    b.finish("C04", "idle_preferred", seed, checks, false)
}

// ------------------------------------------------------------------------------------------------ C05
fn stall_somewhere(b: &mut B, n: usize, upto_lines: usize) -> u64 {
    let us = b.r.of(&[20_000_000u64, 100_000_000, 600_000_000]);
    match b.t.nodes[n].kind {
        Kind::Launch => {
            let at = b.r.below(upto_lines) as u64;
            if at == 0 || b.r.chance(30) {
                b.prog(n).start = us;
            } else {
                b.prog(n).acts.push((When::LinesIn(at), What::Stall(us)));
            }
        }
        _ => {
            let at = b.r.below(upto_lines * 40);
            match b.t.nodes[n].end.clone() {
                topo::End::File(f) => b.sc.files[f].sink.stalls.push((at, us)),
                topo::End::Std => b.sc.stdout.stalls.push((at, us)),
                _ => b.sc.stderr.stalls.push((at, us)),
            }
        }
    }
    us
}
fn c05(seed: u64) -> Case {
    let mut b = B::new(seed);
    b.timing(false);
    b.r.u64();
    let mut stdin_ok = true;
    let nlines = b.r.of(&[3000usize, 4500]);
    let f = bulk(&mut b, "S", nlines, 50);
    let s = source(&mut b, f, &mut stdin_ok);
    let pass = [Kind::Junction, Kind::Regulator, Kind::Launch, Kind::Junction];
    let at = pad(&mut b, s, 3, &pass, 'T');
    let outs = b.r.of(&[1usize, 1, 2, 3]);
    let mut sinks = vec![];
    for _ in 0..outs {
        let p = pad(&mut b, at, 2, &pass, 'T');
        let d = match b.r.below(4) {
            0 => b.drain(),
            1 if outs == 1 => b.drain_std(false),
            _ => b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() }),
        };
        b.t.edge(p.0, p.1, d);
        sinks.push(d);
    }
    for n in 0..b.t.nodes.len() {
        if b.t.nodes[n].kind == Kind::Launch && b.r.chance(60) {
            let cap = b.r.of(&[40usize, 512, 4096]);
            b.prog(n).pipe_cap = cap;
        }
    }
    b.sc.limits.max_polls = 2_000_000;
    // how the loss of a consumer would be taken must not matter as long as nobody is lost
    let style = b.r.below(4);
    for i in 0..b.t.edges.len() {
        b.t.edges[i].brk = match style {
            0 => 'T',
            1 => 'C',
            2 => 'F',
            _ => b.r.of(&['T', 'F', 'C']),
        };
    }
    let st = b.r.of(&sinks);
    stall_somewhere(&mut b, st, 60);
    let mut checks = vec![C::Ends, C::ExitZero, all()];
    // every stretch from a source or program to the next program or drain
    for d in 0..b.t.nodes.len() {
        if !matches!(b.t.nodes[d].kind, Kind::Launch | Kind::Drain) {
            continue;
        }
        for (sn, sp) in b.t.feeds(d) {
            if sp == 2 {
                continue;
            }
            let relays = b.t.upstream(d).iter().zip(b.t.downstream(sn)).enumerate().filter(|(i, (u, w))| **u && *w && b.t.nodes[*i].kind.relay()).count();
            checks.push(C::InFlight { src: sn, port: sp, dst: vec![d], bytes: 24_000 + 12_000 * (relays + 2) });
        }
    }
    // for deep stretches time is no concern, but keep internal delays short
    for c in [class::POLL_LAT, class::OP_COST, class::BLOCKING] {
        let x = &mut b.sc.timing.cls[c as usize];
        x.1 = x.1.min(4);
    }
    b.finish("C05", "stalled", seed, checks, false)
}

// ------------------------------------------------------------------------------------------------ C06
fn c06(seed: u64) -> Case {
    let mut b = B::new(seed);
    b.timing(false);
    let mut stdin_ok = true;
    let (nlines, len) = match b.r.below(60) {
        0 => (70_000usize, 2usize),
        1..=3 => (12_000, 20),
        _ => (b.r.of(&[600usize, 2500, 4000]), 50),
    };
    let f = bulk(&mut b, "S", nlines, len);
    let s = source(&mut b, f, &mut stdin_ok);
    let before = [Kind::Junction, Kind::Regulator, Kind::Launch];
    let at = pad(&mut b, s, 2, &before, 'T');
    let outs = b.r.of(&[1usize, 1, 2]);
    let mut launches_before: Vec<usize> = (0..b.t.nodes.len()).filter(|n| b.t.nodes[*n].kind == Kind::Launch).collect();
    launches_before.retain(|n| *n != s.0);
    let mut stalled = 0;
    let mut buffers = vec![];
    for i in 0..outs {
        let bu = b.buffer();
        buffers.push(bu);
        b.t.edge(at.0, at.1, bu);
        let p = pad(&mut b, (bu, 0), 1, &[Kind::Junction, Kind::Buffer], 'T');
        let d = if b.r.chance(70) { b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() }) } else { b.drain() };
        b.t.edge(p.0, p.1, d);
        if i == 0 || b.r.chance(50) {
            let us = 4_000_000_000;
            match b.t.nodes[d].kind {
                Kind::Launch => {
                    let cap = b.r.of(&[0usize, 1, 512]);
                    b.prog(d).pipe_cap = cap;
                    let at = b.r.below(30) as u64;
                    if at == 0 {
                        b.prog(d).start = us
                    } else {
                        b.prog(d).acts.push((When::LinesIn(at), What::Stall(us)))
                    }
                }
                _ => {
                    let at = b.r.below(3000);
                    if let topo::End::File(f) = b.t.nodes[d].end {
                        b.sc.files[f].sink.stalls.push((at, us))
                    }
                }
            }
            stalled += 1;
        }
    }
    let _ = stalled;
    let by = 3_900_000_000;
    let mut checks = vec![C::Ends, C::ExitZero, all(), C::TakenBy { src: s.0, port: s.1, by }];
    for l in launches_before {
        for e in b.t.outs(l) {
            if e.port < 2 {
                checks.push(C::TakenBy { src: l, port: e.port, by });
            }
        }
    }
    if nlines > 4000 {
        b.sc.timing = Timing { cls: vec![(0, 0); class::COUNT] };
        b.sc.timing.cls[class::TASK_PICK as usize] = (50, 64);
        for p in b.sc.progs.iter_mut() {
            if p.pipe_cap > 0 {
                p.pipe_cap = p.pipe_cap.max(512)
            }
        }
        b.sc.limits.max_polls = 8_000_000;
    }
    for c in [class::POLL_LAT, class::OP_COST, class::BLOCKING] {
        let x = &mut b.sc.timing.cls[c as usize];
        x.1 = x.1.min(4);
    }
    mix(&mut b);
    b.finish("C06", "buffered", seed, checks, false)
}

// ------------------------------------------------------------------------------------------------ C07
fn c07(seed: u64) -> Case {
    let mut b = B::new(seed);
    if b.r.chance(20) {
        return c07_elsewhere(b, seed);
    }
    b.sc.timing = Timing { cls: vec![(0, 0); class::COUNT] };
    if b.r.chance(60) {
        b.timing(false);
        for c in [class::POLL_LAT, class::OP_COST, class::BLOCKING, class::PROG_STEP, class::TIMER_LATE] {
            let x = &mut b.sc.timing.cls[c as usize];
            x.1 = x.1.min(4);
        }
    }
    let mut stdin_ok = true;
    let low = b.r.of(&[0usize, 10, 40]);
    let wide = b.r.chance(8);
    let high = low + if wide { 800 } else { b.r.of(&[200usize, 350]) };
    let lines = high * 3 + b.r.below(300);
    let f = bulk(&mut b, "S", lines, 290);
    let s = source(&mut b, f, &mut stdin_ok);
    let at = pad(&mut b, s, 1, &[Kind::Junction], 'T');
    let r = b.node(Kind::Regulator);
    b.t.edge(at.0, at.1, r);
    let nb = b.r.of(&[1usize, 1, 2, 2, 3]);
    let mut dst = vec![];
    let mut bufs = vec![];
    let mut at2 = (r, 0u8);
    if b.r.chance(30) {
        at2 = pad(&mut b, at2, 1, &[Kind::Junction], 'T');
    }
    let first = b.r.below(nb);
    for i in 0..nb {
        let bu = b.buffer();
        bufs.push(bu);
        b.t.edge(at2.0, at2.1, bu);
        // one of them is slow, the others may be quick
        let quick = i != first && b.r.chance(50);
        let slow = if quick { 0 } else { b.r.of(&[2_000u64, 10_000, 25_000]) };
        let start = if quick { 0 } else { b.r.of(&[0u64, 30_000_000]) };
        let n = b.launch(ProgSpec { rule: Rule::Sink, pipe_cap: if quick { 0 } else { 300 }, slow, start, ..Default::default() });
        if !quick && b.r.chance(30) {
            let at = b.r.range(1, lines - 1) as u64;
            b.prog(n).acts.push((When::LinesIn(at), What::Stall(60_000_000)));
        }
        b.t.edge(bu, 0, n);
        dst.push(n);
    }
    b.t.nodes[r].reg = Some((low, high, bufs));
    let checks =
        vec![C::Ends, C::ExitZero, C::Watermark { src: s.0, port: s.1, dst, low, high, slack: 110 * nb }];
    mix(&mut b);
    b.finish("C07", "watermarks", seed, checks, false)
}

/// The watched buffer is filled by another stream than the regulated one.
fn c07_elsewhere(mut b: B, seed: u64) -> Case {
    b.sc.timing = Timing { cls: vec![(0, 0); class::COUNT] };
    if b.r.chance(60) {
        b.timing(false);
        for c in [class::POLL_LAT, class::OP_COST, class::BLOCKING, class::PROG_STEP, class::TIMER_LATE] {
            let x = &mut b.sc.timing.cls[c as usize];
            x.1 = x.1.min(4);
        }
    }
    let mut stdin_ok = true;
    let low = b.r.of(&[0usize, 10, 40]);
    let high = low + b.r.of(&[30usize, 100, 250]);
    // A: regulated, with a steady flow
    let lines = 1200;
    let mut f = bulk(&mut b, "A", lines, 290);
    f.gaps = (1..lines).filter(|i| i % 10 == 0).map(|i| (i, 1_000_000)).collect();
    let s = source(&mut b, f, &mut stdin_ok);
    let at = pad(&mut b, s, 1, &[Kind::Junction], 'T');
    let r = b.node(Kind::Regulator);
    b.t.edge(at.0, at.1, r);
    let at = pad(&mut b, (r, 0), 1, &[Kind::Junction], 'T');
    let d = if b.r.chance(50) { b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() }) } else { b.drain() };
    b.t.edge(at.0, at.1, d);
    // B: fills the buffers, whose consumers wait
    let nb = b.r.of(&[1usize, 1, 2, 3]);
    let mut bufs = vec![];
    let mut fill = vec![];
    let until = b.r.range(30, 60) as u64 * 1_000_000;
    let together = b.r.chance(50);
    let mut src = (0, 0);
    for i in 0..nb {
        if i == 0 || !together {
            let lines = (high + 60) / nb + 150 + b.r.below(200);
            let f = bulk(&mut b, &format!("B{}", i), lines, 290);
            src = source(&mut b, f, &mut stdin_ok);
        }
        let bu = b.buffer();
        bufs.push(bu);
        b.t.edge(src.0, src.1, bu);
        let slow = b.r.of(&[0u64, 2_000, 10_000]);
        let n = b.launch(ProgSpec { rule: Rule::Sink, pipe_cap: 300, slow, start: until, ..Default::default() });
        b.t.edge(bu, 0, n);
        fill.push((src.0, src.1, n));
    }
    b.t.nodes[r].reg = Some((low, high, bufs));
    let checks = vec![C::Ends, C::ExitZero, all(), C::Gated { src: s.0, port: s.1, fill, low, high, slack: 110 * nb, after: 8_000_000 }];
    mix(&mut b);
    b.finish("C07", "elsewhere", seed, checks, false)
}

// ------------------------------------------------------------------------------------------------ C08
fn c08(seed: u64) -> Case {
    let mut b = B::new(seed);
    if b.r.chance(30) {
        return loops("C08", b, seed);
    }
    if b.r.chance(20) {
        return c08_held(b, seed);
    }
    let long = b.r.chance(40);
    b.timing(long);
    let mut stdin_ok = true;
    let mut checks = vec![C::Ends, C::ExitZero, all()];
    let nreg = b.r.of(&[1usize, 1, 1, 2]);
    let mut ats = vec![];
    let mut regs = vec![];
    for i in 0..nreg {
        let lines = b.r.of(&[0usize, 3, 20, 60, 150]);
        let f = b.tagged_feed(&format!("S{}", i), lines);
        let s = source(&mut b, f, &mut stdin_ok);
        let at = pad(&mut b, s, 1, &[Kind::Junction, Kind::Buffer, Kind::Launch], 'T');
        let r = b.node(Kind::Regulator);
        regs.push(r);
        b.t.edge(at.0, at.1, r);
        ats.push((r, 0u8));
    }
    let mut bufs: Vec<usize> = vec![];
    let merged = nreg == 2 && b.r.chance(50);
    let starts = if merged {
        let j = b.junction();
        for a in &ats {
            b.t.edge(a.0, a.1, j);
        }
        vec![(j, 0u8)]
    } else {
        ats
    };
    for at in starts {
        let outs = b.r.of(&[1usize, 1, 2]);
        for _ in 0..outs {
            let at = pad(&mut b, at, 1, &[Kind::Junction, Kind::Launch], 'T');
            let bu = b.buffer();
            bufs.push(bu);
            b.t.edge(at.0, at.1, bu);
            let p = pad(&mut b, (bu, 0), 1, &[Kind::Junction, Kind::Buffer, Kind::Launch], 'T');
            let d = if b.r.chance(70) {
                let n = b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() });
                b.vary(n);
                let slow = b.r.of(&[0u64, 1000, 30_000, 400_000]);
                b.prog(n).slow = slow;
                if b.r.chance(40) {
                    let w = When::LinesIn(b.r.range(1, 60) as u64);
                    let us = b.gap();
                    b.prog(n).acts.push((w, What::Stall(us)));
                }
                n
            } else {
                b.drain()
            };
            b.t.edge(p.0, p.1, d);
        }
    }
    // a buffer is watched by one regulator; a regulator may watch none, or one that is not behind it
    b.r.u64();
    for r in regs {
        let mut mine = vec![];
        let avail: Vec<usize> = bufs.iter().cloned().filter(|x| !b.t.downstream(*x)[r]).collect();
        for x in avail {
            if b.r.chance(75) {
                bufs.retain(|y| *y != x);
                mine.push(x);
            }
        }
        let low = b.r.of(&[0usize, 0, 1, 3, 10]);
        let high = low + b.r.of(&[1usize, 1, 2, 5, 30]);
        b.t.nodes[r].reg = Some((low, high, mine));
    }
    if !long {
        short_internal(&mut b);
        let n = b.t.nodes.len() as u64;
        checks.push(C::EndBound { us: 4_000_000 * (n + 3) });
    }
    mix(&mut b);
    b.finish("C08", "regulated", seed, checks, true)
}
/// The regulator is held up by what comes behind it while the watched total goes up and down.
fn c08_held(mut b: B, seed: u64) -> Case {
    let long = b.r.chance(30);
    b.timing(long);
    let mut stdin_ok = true;
    let lines = b.r.of(&[20usize, 40, 80]);
    let f = bulk(&mut b, "S", lines, 150);
    let s = source(&mut b, f, &mut stdin_ok);
    let r = b.node(Kind::Regulator);
    b.t.edge(s.0, s.1, r);
    let at = pad(&mut b, (r, 0), 1, &[Kind::Junction], 'T');
    // talks a lot by itself, and listens slowly
    let n = b.launch(ProgSpec { rule: Rule::Lines { route: vec![1] }, ..Default::default() });
    b.t.edge(at.0, at.1, n);
    let cap = b.r.of(&[1usize, 64, 512]);
    let slow = b.r.of(&[0u64, 100, 50_000]);
    let own = b.r.of(&[60usize, 120, 300]);
    let gap = b.r.of(&[200u64, 3_000, 30_000, 100_000]);
    let first = b.r.chance(80);
    let mut emit = vec![];
    for i in 0..own {
        emit.push(Emit { port: 1, seg: Seg { s: format!("own.{};", i), n: 20, t: 1, ..Default::default() }, gap });
    }
    let p = b.prog(n);
    p.pipe_cap = cap;
    p.slow = slow;
    p.emit_first = first;
    p.emit = emit;
    let bu = b.buffer();
    b.t.edge(n, 0, bu);
    let d = b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() });
    let slow = b.r.of(&[0u64, 0, 1_000, 20_000]);
    let cap = b.r.of(&[1usize, 20, 512]);
    b.prog(d).slow = slow;
    b.prog(d).pipe_cap = cap;
    for _ in 0..b.r.range(1, 3) {
        let at = b.r.below(own / 2) as u64 + 1;
        let us = b.r.of(&[50_000u64, 400_000, 3_000_000]);
        b.prog(d).acts.push((When::LinesIn(at), What::Stall(us)));
    }
    b.t.edge(bu, 0, d);
    let low = b.r.of(&[0usize, 0, 1]);
    let high = low + b.r.of(&[1usize, 1, 2]);
    b.t.nodes[r].reg = Some((low, high, vec![bu]));
    mix(&mut b);
    b.finish("C08", "held_up", seed, vec![C::Ends, C::ExitZero, all()], true)
}
/// keep injected delays inside pa2 short where time is judged
fn short_internal(b: &mut B) {
    for c in [class::POLL_LAT, class::OP_COST, class::BLOCKING] {
        let x = &mut b.sc.timing.cls[c as usize];
        x.1 = x.1.min(4);
    }
    let x = &mut b.sc.timing.cls[class::TIMER_LATE as usize];
    x.1 = x.1.min(6);
}

// ------------------------------------------------------------------------------------------------ consumers that go away
fn leave(b: &mut B, n: usize, lines: usize) {
    let at = b.r.of(&[0u64, 1, 2, 10, 40]).min(lines as u64 / 4);
    let what = match b.r.below(5) {
        0 => What::CloseStdin,
        1 => What::Kill(9),
        2 => What::Exit(b.r.below(256) as i32),
        _ => What::Exit(0),
    };
    let deaf = b.r.chance(12);
    let when = if at == 0 || deaf { When::Time(b.r.of(&[0u64, 100, 5_000, 50_000, 1_000_000])) } else { When::LinesIn(at) };
    let cap = b.r.of(&[0usize, 1, 512, 4096]);
    let p = b.prog(n);
    p.no_read = deaf;
    p.acts.push((when, what));
    p.pipe_cap = cap;
    p.exit_on = 1;
    if matches!(p.acts[0].1, What::CloseStdin) {
        // it lives on for a while without its input
        p.linger = 3_000_000;
    } else {
        p.exit_on = 2;
    }
}

/// programs that do not die of a closed output but go on without it
fn stubborn(b: &mut B) {
    for p in b.sc.progs.iter_mut() {
        p.ignore_sigpipe = b.r.chance(40);
    }
}

fn c09(seed: u64) -> Case {
    let mut b = B::new(seed);
    let long = b.r.chance(40);
    b.timing(long);
    let mut stdin_ok = true;
    let lines = 2500;
    let len = b.r.of(&[0usize, 5, 60, 60, 60, 150]);
    let f = bulk(&mut b, "S", lines, len);
    let s = source(&mut b, f, &mut stdin_ok);
    let pass = [Kind::Junction, Kind::Buffer, Kind::Regulator, Kind::Launch];
    // only one of the connections in front of it may be Terminate: nobody else has anything to report
    let quiet = b.r.chance(35);
    let before = if quiet { b.r.of(&['F', 'C']) } else { 'T' };
    let at = pad(&mut b, s, 2, &pass, before);
    let outs = if quiet { 1 } else { b.r.of(&[1usize, 1, 2, 3]) };
    let mut dead = 0;
    let mut mixed = false;
    for i in 0..outs {
        let p = pad(&mut b, at, 1, &pass, before);
        let d = if i == 0 {
            let n = b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() });
            leave(&mut b, n, lines);
            dead = n;
            n
        } else if b.r.chance(50) {
            b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() })
        } else {
            b.drain()
        };
        let brk = if i == 0 { 'T' } else { b.r.of(&['T', 'T', 'F', 'C']) };
        join(&mut b, p, d, brk);
        for j in 0..b.r.of(&[0usize, 0, 0, 0, 1, 1, 2]) {
            // another source for it as well
            let n = b.r.of(&[20usize, 700]);
            let f = bulk(&mut b, &format!("V{}{}", i, j), n, 60);
            let s2 = source(&mut b, f, &mut stdin_ok);
            let p2 = pad(&mut b, s2, 1, &pass, 'T');
            let brk = b.r.of(&['T', 'T', 'F', 'C', 'C']);
            join(&mut b, p2, d, brk);
            if i == 0 && brk != 'T' {
                mixed = true;
            }
        }
        // output of the dying program
        if i == 0 && b.r.chance(50) {
            let port = b.r.of(&[0u8, 1, 2]);
            let x = b.drain();
            b.t.edge(d, port, x);
        }
    }
    // an independent source merged in
    if b.r.chance(25) {
        let n = b.r.below(20);
        let f = b.tagged_feed("M", n);
        let s2 = source(&mut b, f, &mut stdin_ok);
        let d = b.drain();
        b.t.edge(s2.0, s2.1, d);
    }
    let mut checks = vec![
        C::Ends,
        if mixed {
            C::IfUndeliveredOf { node: dead, tag: "S.".into(), then: vec![C::ExitNonZero] }
        } else {
            C::IfUndelivered { node: dead, then: vec![C::ExitNonZero] }
        },
        C::Reports { names: vec![] },
        prefix(),
    ];
    if !long && before != 'C' {
        short_internal(&mut b);
        let n = b.t.nodes.len() as u64;
        checks.push(C::EndBound { us: 4_000_000 * (n + 3) });
    }
    if b.r.chance(25) {
        stubborn(&mut b);
    }
    b.finish("C09", "terminate", seed, checks, false)
}

fn c10(seed: u64) -> Case {
    let mut b = B::new(seed);
    let long = b.r.chance(40);
    b.timing(long);
    let mut stdin_ok = true;
    let lines = b.r.of(&[2500usize, 5000]);
    let len = b.r.of(&[0usize, 5, 60, 60, 60, 60, 60, 150]);
    let mut f = bulk(&mut b, "S", lines, len);
    let buffered = b.r.chance(40);
    // a source that takes its time: a buffer cannot have taken everything before its consumer goes
    let slow = !long && b.r.chance(if buffered { 60 } else { 15 });
    if slow {
        let step = 40 * 60 / (len + 6);
        f.gaps = (1..lines).filter(|i| i % step == 0).map(|i| (i, 1_000_000)).collect();
    }
    let s = source(&mut b, f, &mut stdin_ok);
    let pass: Vec<Kind> = if buffered { vec![Kind::Junction, Kind::Regulator, Kind::Launch, Kind::Buffer, Kind::Regulator] } else { vec![Kind::Junction, Kind::Regulator, Kind::Launch] };
    let mut at = pad(&mut b, s, 2, &pass, 'F');
    let mut extra = 0;
    let mut others = 0;
    if b.r.chance(25) {
        // the exit status of another program comes along
        let n = b.launch(ProgSpec { exit_on: 1, ..Default::default() });
        b.vary(n);
        let g = b.gap();
        b.prog(n).linger = g;
        let j = b.junction();
        join(&mut b, at, j, 'F');
        let brk = b.r.of(&['F', 'F', 'C']);
        join(&mut b, (n, 2), j, brk);
        at = (j, 0);
        extra = 1;
    }
    let outs = b.r.of(&[1usize, 1, 2, 3]);
    let alive = outs > 1 && b.r.chance(50);
    let mut checks = vec![C::Ends, C::ExitZero, C::QuietStderr];
    let mut keep = vec![];
    let mut dying = vec![];
    for i in 0..outs {
        let p = pad(&mut b, at, 1, &pass, 'F');
        let d = if alive && i == 0 {
            let d = if b.r.chance(50) { b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() }) } else { b.drain() };
            keep.push(d);
            d
        } else {
            let n = b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() });
            leave(&mut b, n, lines);
            dying.push(n);
            n
        };
        let brk = if alive && i == 0 { b.r.of(&['F', 'F', 'T', 'C']) } else { 'F' };
        join(&mut b, p, d, brk);
        if b.r.chance(12) {
            let f = bulk(&mut b, &format!("V{}", i), 700, 60);
            let s2 = source(&mut b, f, &mut stdin_ok);
            let brk = b.r.of(&['F', 'F', 'C']);
            join(&mut b, s2, d, brk);
            others += 1;
        }
    }
    for d in &keep {
        checks.push(C::Data { node: *d, mode: Mode::Complete });
    }
    checks.push(prefix());
    if keep.is_empty() && slow {
        let n = b.t.nodes.len();
        checks.push(C::StoppedEarly { src: s.0, port: s.1, who: dying.clone(), bytes: 12_000 + 12_000 * n });
    } else if keep.is_empty() && buffered {
        // a buffer may have taken everything already
    } else if keep.is_empty() {
        // what fits into channels and pipes may still be taken
        let pipes: usize = (0..b.t.nodes.len()).filter(|n| b.t.nodes[*n].kind == Kind::Launch && !dying.contains(n)).count() - extra + others;
        checks.push(C::StoppedEarly { src: s.0, port: s.1, who: dying.clone(), bytes: 12_000 + 3_000 * b.t.nodes.len() + 150_000 * pipes });
        for sn in 0..b.t.nodes.len() {
            for sp in 0..2u8 {
                let dst: Vec<usize> =
                    (0..b.t.nodes.len()).filter(|d| b.t.nodes[*d].kind == Kind::Launch && b.t.feeds(*d).contains(&(sn, sp))).collect();
                if !dst.is_empty() && !b.t.nodes[sn].kind.relay() {
                    checks.push(C::InFlight { src: sn, port: sp, dst, bytes: 24_000 + 12_000 * b.t.nodes.len() });
                }
            }
        }
    } else {
        checks.push(C::ReadFully { src: s.0, port: s.1 });
    }
    if !long {
        short_internal(&mut b);
        let n = b.t.nodes.len() as u64;
        checks.push(C::EndBound { us: 4_000_000 * (n + 3) });
    }
    if !checks.iter().any(|c| matches!(c, C::StoppedEarly { .. } | C::InFlight { .. })) && b.r.chance(30) {
        stubborn(&mut b);
    }
    b.finish("C10", if slow { "slow_source" } else { "finish" }, seed, checks, false)
}

fn c11(seed: u64) -> Case {
    let mut b = B::new(seed);
    let long = b.r.chance(40);
    b.timing(long);
    let mut stdin_ok = true;
    let lines = 1500;
    let len = b.r.of(&[0usize, 5, 60, 60, 60, 150]);
    let f = bulk(&mut b, "S", lines, len);
    let s = source(&mut b, f, &mut stdin_ok);
    let pass = [Kind::Junction, Kind::Buffer, Kind::Regulator, Kind::Launch];
    let at = pad(&mut b, s, 2, &pass, 'C');
    let outs = b.r.of(&[1usize, 1, 2, 3]);
    let mut checks = vec![C::Ends, C::ExitZero, C::QuietStderr];
    let mut dying = vec![];
    for i in 0..outs {
        let p = pad(&mut b, at, 1, &pass, 'C');
        if i == 0 || b.r.chance(40) {
            let n = b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() });
            leave(&mut b, n, lines);
            // (beside one marked C, losing one marked F must not end anything either)
            let brk = if i > 0 && p == at && b.r.chance(60) { 'F' } else { 'C' };
            join(&mut b, p, n, brk);
            dying.push(n);
            if brk == 'C' && b.r.chance(20) {
                let f = bulk(&mut b, &format!("V{}", i), 700, 60);
                let s2 = source(&mut b, f, &mut stdin_ok);
                join(&mut b, s2, n, 'C');
                checks.push(C::ReadFully { src: s2.0, port: s2.1 });
            }
        } else {
            let d = if b.r.chance(50) { b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() }) } else { b.drain() };
            let brk = b.r.of(&['C', 'T', 'F']);
            join(&mut b, p, d, brk);
            checks.push(C::Data { node: d, mode: Mode::Complete });
        }
    }
    checks.push(prefix());
    for n in 0..b.t.nodes.len() {
        if b.t.nodes[n].kind == Kind::Launch && !dying.contains(&n) {
            checks.push(C::Undisturbed { launch: n });
            for e in b.t.outs(n) {
                checks.push(C::ReadFully { src: n, port: e.port });
            }
        }
    }
    checks.push(C::ReadFully { src: s.0, port: s.1 });
    if !long {
        short_internal(&mut b);
        let n = b.t.nodes.len() as u64;
        checks.push(C::EndBound { us: 4_000_000 * (n + 3) });
    }
    if b.r.chance(25) {
        stubborn(&mut b);
    }
    b.finish("C11", "consume", seed, checks, false)
}

// ------------------------------------------------------------------------------------------------ C12
fn c12(seed: u64) -> Case {
    let mut b = B::new(seed);
    let long = b.r.chance(50);
    b.timing(long);
    let o = DagOpts::default();
    dag(&mut b, &o);
    let mut checks = vec![C::Ends, C::ExitZero, C::QuietStderr, C::InputsEnded, all(), C::Outlives];
    if !long {
        short_internal(&mut b);
        let n = b.t.nodes.len() as u64;
        checks.push(C::EndBound { us: 4_000_000 * (n + 3) });
    }
    mix(&mut b);
    b.finish("C12", "dag", seed, checks, true)
}

// ------------------------------------------------------------------------------------------------ C13
fn c13(seed: u64) -> Case {
    let mut b = B::new(seed);
    let long = b.r.chance(40);
    b.timing(long);
    let o = DagOpts { stderr_drain: false, max_ops: 7, max_lines: 60, ..Default::default() };
    dag(&mut b, &o);
    let mut checks = vec![C::Ends, prefix()];
    // candidates: faucets and captured program outputs
    let faucets: Vec<usize> = (0..b.t.nodes.len()).filter(|n| b.t.nodes[*n].kind == Kind::Faucet && !b.t.outs(*n).is_empty()).collect();
    let launches: Vec<(usize, u8)> =
        b.t.edges.iter().filter(|e| b.t.nodes[e.s].kind == Kind::Launch && e.port < 2).map(|e| (e.s, e.port)).collect();
    if !faucets.is_empty() && (launches.is_empty() || b.r.chance(70)) {
        let many = if b.r.chance(25) { 3 } else { 1 };
        let mut names = vec![];
        for _ in 0..many {
        let n = b.r.of(&faucets);
        let errno = b.r.of(&[EIO, EISDIR, EACCES]);
        let name = b.t.full_name(n);
        if names.contains(&name) {
            continue;
        }
        names.push(name);
        match b.t.nodes[n].end.clone() {
            topo::End::File(i) => match b.r.below(3) {
                0 => b.sc.files[i].open_err = Some(b.r.of(&[ENOENT, EACCES, EMFILE])),
                1 => {
                    // file is simply missing
                    b.sc.files[i].feed = None;
                }
                _ => {
                    let len: usize = b.sc.files[i].feed.as_ref().unwrap().segs.iter().map(|s| s.bytes().len()).sum();
                    let at = b.r.below(len + 1);
                    b.sc.files[i].feed.as_mut().unwrap().err_at = Some((at, errno));
                }
            },
            _ => {
                let len: usize = b.sc.stdin.segs.iter().map(|s| s.bytes().len()).sum();
                let at = b.r.below(len + 1);
                b.sc.stdin.err_at = Some((at, EIO));
            }
        }
        }
        checks.push(C::ExitNonZero);
        checks.push(C::Reports { names });
    } else if !launches.is_empty() {
        let (n, port) = b.r.of(&launches);
        let at = b.r.below(900);
        let name = b.t.full_name(n);
        b.prog(n).read_err = Some((port + 1, at, EIO));
        if b.r.chance(20) {
            regulate_at(&mut b, n);
        }
        checks.push(C::IfFault { kind: simcore::hist::fault::READ_ERR, then: vec![C::ExitNonZero, C::Reports { names: vec![name] }] });
    }
    if !long {
        short_internal(&mut b);
        let n = b.t.nodes.len() as u64;
        checks.push(C::EndBound { us: 4_000_000 * (n + 3) });
    }
    mix(&mut b);
    b.finish("C13", "input_failure", seed, checks, false)
}

// ------------------------------------------------------------------------------------------------ C14
fn break_drain(b: &mut B, n: usize) {
    let errno = b.r.of(&[EIO, ENOSPC, EDQUOT, EPIPE]);
    let at = b.r.of(&[0usize, 1, 20, 300, 1500, 5000]);
    let at = b.r.below(at + 1);
    match b.t.nodes[n].end.clone() {
        topo::End::File(i) => {
            if b.r.chance(35) {
                b.sc.files[i].create_err = Some(b.r.of(&[EACCES, EISDIR, ENOSPC, ENOENT, EMFILE]));
            } else {
                b.sc.files[i].sink.err_at = Some((at, errno));
            }
        }
        topo::End::Std => b.sc.stdout.err_at = Some((at, errno)),
        _ => b.sc.stderr.err_at = Some((at, errno)),
    }
}
fn c14(seed: u64) -> Case {
    let mut b = B::new(seed);
    let long = b.r.chance(40);
    b.timing(long);
    let onto_stderr = b.r.chance(20);
    let o = DagOpts { stderr_drain: onto_stderr, max_ops: 6, max_lines: 60, need_drain: true, ..Default::default() };
    if b.r.chance(4) {
        // a long way back, so that one failure becomes many
        let f = bulk(&mut b, "L", 4000, 3);
        let mut stdin_ok = true;
        let mut at = source(&mut b, f, &mut stdin_ok);
        let kinds = [Kind::Junction, Kind::Buffer, Kind::Buffer, Kind::Regulator, Kind::Launch];
        for _ in 0..b.r.range(20, 50) {
            at = pad(&mut b, at, 1, &kinds, 'T');
        }
        let d = b.drain();
        b.t.edge(at.0, at.1, d);
    } else {
        dag(&mut b, &o);
    }
    let drains: Vec<usize> = (0..b.t.nodes.len()).filter(|n| b.t.nodes[*n].kind == Kind::Drain && b.t.nodes[*n].end != topo::End::Null).collect();
    let mut n = b.r.of(&drains);
    if let Some(e) = drains.iter().find(|n| b.t.nodes[**n].end == topo::End::StdErr) {
        if b.r.chance(70) {
            n = *e;
        }
    }
    break_drain(&mut b, n);
    if b.r.chance(15) {
        regulate_at(&mut b, n);
    }
    let mut broken = vec![n];
    if b.r.chance(30) {
        for _ in 0..2 {
            let n = b.r.of(&drains);
            if !broken.contains(&n) {
                break_drain(&mut b, n);
                broken.push(n);
            }
        }
    }
    // with several, one may end before it comes to the point where another would fail
    let mut names: Vec<String> = broken
        .iter()
        .filter(|n| matches!(b.t.nodes[**n].end, topo::End::File(i) if b.sc.files[i].create_err.is_some()))
        .map(|n| b.t.full_name(*n))
        .collect();
    if broken.len() == 1 {
        names = vec![b.t.full_name(n)];
    }
    let mut checks = vec![C::Ends, prefix(), C::SuccessMeansAll];
    checks.push(C::IfFault { kind: simcore::hist::fault::WRITE_ERR, then: vec![C::ExitNonZero] });
    checks.push(C::IfFault { kind: simcore::hist::fault::CREATE_FAIL, then: vec![C::ExitNonZero] });
    // (where stderr itself fails nothing can be said there)
    if !broken.iter().any(|n| b.t.nodes[*n].end == topo::End::StdErr) {
        checks.push(C::Reports { names });
    }
    if !long {
        short_internal(&mut b);
        let n = b.t.nodes.len() as u64;
        checks.push(C::EndBound { us: 4_000_000 * (n + 3) });
    }
    mix(&mut b);
    b.finish("C14", "output_failure", seed, checks, false)
}

// ------------------------------------------------------------------------------------------------ C15
fn c15(seed: u64) -> Case {
    let mut b = B::new(seed);
    let long = b.r.chance(50);
    b.timing(long);
    let mut checks = vec![C::Ends];
    let k = b.r.of(&[1usize, 1, 2, 3]);
    let mut stdin_ok = true;
    let mut tolerant = true;
    for i in 0..k {
        let lines = b.r.of(&[0usize, 3, 30, 100]);
        let has_in = b.r.chance(70);
        let n = b.launch(ProgSpec { rule: Rule::Lines { route: vec![1, 2, 3] }, ..Default::default() });
        b.vary(n);
        let code = if b.r.chance(50) { b.r.below(256) as i32 } else { b.r.of(&[0i32, 1, 2, 3, 9, 10, 42, 100, 127, 128, 130, 137, 255]) };
        b.prog(n).exit_code = code;
        if b.r.chance(30) {
            b.prog(n).status_errs = b.r.range(1, 3) as u32;
        }
        if has_in {
            let f = b.tagged_feed(&format!("S{}", i), lines);
            let s = source(&mut b, f, &mut stdin_ok);
            let brk = b.r.of(&['C', 'F', 'T']);
            join(&mut b, s, n, brk);
            if brk == 'T' {
                tolerant = false;
            }
        } else {
            let mut emit = vec![];
            for j in 0..lines {
                let port = b.r.of(&[1u8, 2, 3]);
                let len = b.line_len();
                let seg = b.tagged(&format!("S{}", i), j, len, 1);
                emit.push(Emit { port, seg, gap: 0 });
            }
            b.prog(n).emit = emit;
        }
        // sometimes it ends differently
        match b.r.below(5) {
            0 => {
                // (with and without a core dump, and real-time signals)
                let sig = b.r.of(&[1, 2, 3, 6, 9, 11, 13, 14, 15, 24, 31, 34, 64, 6 | 0x80, 11 | 0x80]);
                let w = if b.r.chance(50) { When::LinesIn(b.r.below(lines + 1) as u64) } else { When::Time(b.r.of(&[100u64, 900_000, 20_000_000])) };
                b.prog(n).acts.push((w, What::Kill(sig)));
            }
            1 => {
                let c = b.r.below(256) as i32;
                let at = b.r.below(lines + 1) as u64;
                b.prog(n).acts.push((When::LinesIn(at), What::Exit(c)));
            }
            2 => {
                // closes its streams long before it ends
                b.prog(n).close_first = true;
                let g = b.gap();
                b.prog(n).linger = g;
            }
            _ => (),
        }
        // the other ports
        for port in 0..2u8 {
            if b.r.chance(50) {
                for _ in 0..b.r.of(&[1usize, 1, 1, 2]) {
                    let d = b.drain();
                    b.t.edge(n, port, d);
                    if b.r.chance(5) {
                        // its output cannot be passed on: that is an error, and the status is reported all the same
                        break_drain(&mut b, d);
                        tolerant = false;
                    }
                }
            }
        }
        if has_in && b.r.chance(10) {
            let at = b.r.below(200);
            let e = b.r.of(&[EIO, ENOMEM, ENOBUFS]);
            b.prog(n).write_err = Some((at, e));
            tolerant = false;
        }
        // who gets the status
        let nsink = b.r.of(&[1usize, 1, 2, 3]);
        for _ in 0..nsink {
            let p = pad(&mut b, (n, 2), 2, &[Kind::Buffer, Kind::Junction, Kind::Regulator], 'T');
            let d = if b.r.chance(60) { b.drain() } else { b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() }) };
            b.t.edge(p.0, p.1, d);
            checks.push(C::ExitStatus { launch: n, sink: d });
        }
    }
    if tolerant {
        checks.push(C::ExitZero);
    }
    checks.push(C::IfExitZero { then: vec![C::Outlives] });
    b.finish("C15", "exit_status", seed, checks, false)
}

// ------------------------------------------------------------------------------------------------ C16
fn c16(seed: u64) -> Case {
    let mut b = B::new(seed);
    let long = b.r.chance(40);
    b.timing(long);
    let o = DagOpts { need_drain: true, max_ops: 6, max_lines: 60, ..Default::default() };
    dag(&mut b, &o);
    // files always chopped up
    b.sc.timing.cls[class::FILE_SHORT as usize] = (b.r.of(&[0u8, 50, 95]), b.r.of(&[1u32, 5, 100]));
    let drains: Vec<usize> = (0..b.t.nodes.len()).filter(|n| b.t.nodes[*n].kind == Kind::Drain && b.t.nodes[*n].end != topo::End::Null).collect();
    let nf = b.r.of(&[0usize, 1, 1, 2]);
    for _ in 0..nf {
        match b.r.below(7) {
            0..=2 => {
                let n = b.r.of(&drains);
                break_drain(&mut b, n);
            }
            6 => {
                // writing to a program fails, although it is there
                let ls: Vec<usize> = (0..b.t.nodes.len()).filter(|n| b.t.nodes[*n].kind == Kind::Launch && !b.t.ins(*n).is_empty()).collect();
                if !ls.is_empty() {
                    let n = b.r.of(&ls);
                    let at = b.r.of(&[0usize, 1, 40, 600]);
                    let e = b.r.of(&[EIO, ENOMEM, ENOBUFS]);
                    b.prog(n).write_err = Some((at, e));
                }
            }
            3 => {
                let n = b.r.of(&drains);
                let us = b.gap();
                let at = b.r.below(2000);
                match b.t.nodes[n].end.clone() {
                    topo::End::File(i) => b.sc.files[i].sink.stalls.push((at, us)),
                    topo::End::Std => b.sc.stdout.stalls.push((at, us)),
                    _ => b.sc.stderr.stalls.push((at, us)),
                }
            }
            4 => {
                let fs: Vec<usize> = (0..b.sc.files.len()).filter(|i| b.sc.files[*i].feed.is_some()).collect();
                if !fs.is_empty() {
                    let i = b.r.of(&fs);
                    let at = b.r.below(600);
                    b.sc.files[i].feed.as_mut().unwrap().err_at = Some((at, EIO));
                }
            }
            _ => {
                let ls: Vec<usize> = (0..b.t.nodes.len()).filter(|n| b.t.nodes[*n].kind == Kind::Launch).collect();
                if !ls.is_empty() {
                    let n = b.r.of(&ls);
                    let w = if b.r.chance(50) { When::LinesIn(b.r.below(30) as u64) } else { When::LinesOut(b.r.range(1, 20) as u64) };
                    let a = if b.r.chance(50) { What::Kill(9) } else { What::Exit(1) };
                    b.prog(n).acts.push((w, a));
                }
            }
        }
    }
    mix(&mut b);
    b.finish("C16", "success", seed, vec![C::SuccessMeansAll], false)
}

// ------------------------------------------------------------------------------------------------ C17
fn c17(seed: u64) -> Case {
    let mut b = B::new(seed);
    let long = b.r.chance(30);
    b.timing(long);
    let o = DagOpts { max_ops: 7, max_lines: 12, ..Default::default() };
    dag(&mut b, &o);
    settings(&mut b);
    mix(&mut b);
    b.finish("C17", "wiring", seed, vec![C::Ends, C::ExitZero, C::Launches, all()], true)
}
/// Arguments, environment and directory of the programs.
fn settings(b: &mut B) {
    let strs = ["", " ", "a", "-x", "--long=1", "two words", "quote\"s", "it's", "$HOME", "back\\slash", "tab\there", "new\nline", "-", "é", "*", "a=b", "0", "null", "true", "~", "- x", "#c", "{}", "[1]", "a: b"];
    for n in 0..b.t.nodes.len() {
        if b.t.nodes[n].kind != Kind::Launch {
            continue;
        }
        let k = b.r.of(&[0usize, 0, 0, 1, 1, 2, 2, 5, 5, 40, 120]);
        b.t.nodes[n].arg = (0..k).map(|_| b.r.of(&strs).to_string()).collect();
        if k > 0 && b.r.chance(5) {
            let i = b.r.below(k);
            b.t.nodes[n].arg[i] = "long ".repeat(b.r.of(&[60usize, 900, 5000]));
        }
        let k = b.r.of(&[0usize, 0, 0, 1, 1, 3, 3, 9, 33]);
        let mut env: Vec<(String, String)> = vec![];
        let odd = ["PATH", "HOME", "IFS", "LANG", "lower", "Lower", "LOWER", "with.dot", "with-dash", "with space", "_", "1", "LD_LIBRARY_PATH", "é", "null", "true", "12"];
        let odd_at = b.r.below(odd.len());
        let odd_n = b.r.of(&[0usize, 0, 1, 4]);
        for i in 0..k {
            let name = if i < odd_n { odd[(odd_at + i) % odd.len()].to_string() } else { format!("V{}", i) };
            let v = b.r.of(&strs).to_string();
            env.push((name, v));
        }
        if b.r.chance(15) {
            let (a, _) = b.r.of(&crate::exec::INHERITED);
            if !env.iter().any(|e| e.0 == a) {
                env.push((a.into(), "changed".into()));
            }
        }
        b.t.nodes[n].env = env;
        if b.r.chance(40) {
            b.t.nodes[n].path = Some(b.r.of(&["/", "/tmp", "sub/dir", "..", "./x y"]).to_string());
        }
    }
}

// ------------------------------------------------------------------------------------------------ C18
/// One loop behind `at`, which carries lines with the given counters: the way on, the program, its buffers.
/// The program leaves by itself once everything has made its rounds.
fn one_loop(b: &mut B, at: (usize, u8), total: u64, reg: bool) -> ((usize, u8), usize, Vec<usize>) {
    let j = b.junction();
    let e = b.t.edge(at.0, at.1, j);
    if b.r.chance(30) {
        b.t.edges[e].prio = b.r.of(&[-1i64, 1, 2]);
    }
    // either the program keeps apart what is done (stdout) and what is not (stderr), or filters behind it do
    let filters = !reg && b.r.chance(30);
    let l = b.launch(ProgSpec { rule: if filters { Rule::LoopAll } else { Rule::Loop }, exit_on: 2, ..Default::default() });
    b.vary(l);
    b.prog(l).block = 0;
    b.prog(l).orphan = 0;
    b.prog(l).orphan_says = None;
    let slow = b.r.of(&[0u64, 0, 100, 5000]);
    b.prog(l).slow = slow;
    b.prog(l).exit_code = 0;
    let where_ = b.r.below(2);
    let mut bufs = vec![];
    let mut fwd = (j, 0u8);
    let mut on = (l, 0u8);
    let mut back = (l, 1u8);
    if where_ == 0 {
        let x = b.buffer();
        bufs.push(x);
        b.t.edge(fwd.0, fwd.1, x);
        fwd = (x, 0);
    }
    if b.r.chance(25) {
        fwd = pad(b, fwd, 1, &[Kind::Junction], 'T');
    }
    b.t.edge(fwd.0, fwd.1, l);
    if filters {
        let mut from = (l, 0u8);
        if b.r.chance(30) {
            from = pad(b, from, 1, &[Kind::Junction, Kind::Buffer], 'T');
        }
        let mut two = vec![];
        for keep in [";k=d;", ";k=a;"] {
            let n = b.launch(ProgSpec { rule: Rule::Filter { keep: keep.into() }, ..Default::default() });
            b.vary(n);
            b.prog(n).block = 0;
            b.prog(n).orphan_says = None;
            b.t.edge(from.0, from.1, n);
            two.push(n);
        }
        on = (two[0], 0);
        back = (two[1], 0);
    }
    if where_ == 1 || b.r.chance(20) {
        let x = b.buffer();
        bufs.push(x);
        b.t.edge(back.0, back.1, x);
        back = (x, 0);
    }
    // other programs on the way back
    if !reg {
        for _ in 0..b.r.of(&[0usize, 0, 0, 1, 2]) {
            let n = b.launch(ProgSpec { rule: Rule::Lines { route: vec![1] }, ..Default::default() });
            b.vary(n);
            b.prog(n).block = 0;
            b.prog(n).orphan_says = None;
            b.t.edge(back.0, back.1, n);
            back = (n, 0);
        }
    }
    b.t.edge(back.0, back.1, j);
    let _ = total;
    (on, l, bufs)
}
fn loops(prop: &str, mut b: B, seed: u64) -> Case {
    let long = b.r.chance(30);
    b.timing(long);
    let reg = prop == "C08" || b.r.chance(25);
    let far = b.r.chance(4);
    b.lots = far;
    let mut stdin_ok = true;
    let two_loops = prop == "C18" && !far && b.r.chance(20);
    let more = if far { 0 } else { b.r.of(&[0usize, 0, 0, 1, 2]) };
    let mut seeds = vec![];
    let mut seeds2 = vec![];
    let mut total = 0u64;
    let mut total2 = 0u64;
    let mut srcs = vec![];
    for i in 0..=more {
        let most = if more > 0 || two_loops { 4 } else { 6 };
        let k = if far { 400 } else { b.r.of(&[0usize, 1, 5, 40, 120, 300][..most]) };
        let rounds = if far { 25 } else { b.r.of(&[0u32, 1, 3, 8]) };
        let padlen = b.r.of(&[0usize, 10, 200, 400]);
        let mut segs = vec![];
        for m in 0..k {
            let h = b.r.below(rounds as usize + 1) as u32;
            let g = if two_loops { b.r.below(rounds as usize + 1) as u32 } else { 0 };
            let n = if b.r.chance(70) { padlen } else { 3 };
            let gs = if g > 0 { format!("g={};", g) } else { String::new() };
            segs.push(Seg { s: format!("id={}_{};h={};{}p=", i, m, h, gs), n, t: 1, ..Default::default() });
            seeds.push((format!("{}_{}", i, m), h));
            seeds2.push((format!("{}_{}", i, m), g));
            total += h as u64 + 1;
            total2 += g as u64 + 1;
        }
        let gaps = b.gaps(k);
        srcs.push(source(&mut b, Feed { segs, gaps, ..Default::default() }, &mut stdin_ok));
    }
    let r = if reg { Some(b.node(Kind::Regulator)) } else { None };
    let mut at = srcs[0];
    if srcs.len() > 1 && (r.is_none() || b.r.chance(50)) {
        let x = b.junction();
        for s in &srcs {
            b.t.edge(s.0, s.1, x);
        }
        at = (x, 0);
    } else if srcs.len() > 1 {
        for s in &srcs[1..] {
            b.t.edge(s.0, s.1, r.unwrap());
        }
    }
    if let Some(r) = r {
        b.t.edge(at.0, at.1, r);
        at = (r, 0);
    }
    let (mut on, l, bufs) = one_loop(&mut b, at, total, reg);
    if let Some(r) = r {
        let low = b.r.of(&[0usize, 1, 3, 10]);
        let high = low + b.r.of(&[1usize, 2, 5, 30]);
        b.t.nodes[r].reg = Some((low, high, bufs));
    }
    let mut last = (l, total);
    let mut checks = vec![C::Ends, C::ExitZero];
    let mut l2 = None;
    if two_loops {
        let x = one_loop(&mut b, on, total2, false);
        on = x.0;
        last = (x.1, total2);
        l2 = Some(x.1);
    }
    // the program may also leave before everything has made its rounds
    let early = prop == "C18" && last.1 > 1 && b.r.chance(30);
    for (n, t) in [Some((l, total)), l2.map(|x| (x, total2))].iter().flatten() {
        let act = if early && *n == last.0 {
            let w = if b.r.chance(50) { When::LinesIn(b.r.range(1, *t as usize - 1) as u64) } else { When::LinesOut(b.r.range(1, *t as usize - 1) as u64) };
            let what = if b.r.chance(70) { What::Exit(0) } else { What::CloseStdin };
            if what == What::CloseStdin {
                b.prog(*n).exit_on = 0;
            }
            (w, what)
        } else if *t > 0 {
            (When::LinesOut(*t), What::Exit(0))
        } else {
            (When::Time(5_000_000), What::Exit(0))
        };
        b.prog(*n).acts.push(act);
    }
    // what comes out
    let tail = [Kind::Junction, Kind::Buffer, Kind::Launch];
    let outs = b.r.of(&[1usize, 1, 1, 2]);
    let mut drains = vec![];
    for _ in 0..outs {
        let p = if b.r.chance(40) { pad(&mut b, on, 2, &tail, 'T') } else { on };
        let d = b.drain();
        b.t.edge(p.0, p.1, d);
        drains.push(d);
    }
    if early {
        for i in 0..b.t.edges.len() {
            b.t.edges[i].brk = 'F';
        }
        for d in drains {
            checks.push(C::Data { node: d, mode: Mode::Complete });
        }
        return b.finish(prop, "unwinding", seed, checks, false);
    }
    checks.push(C::Loop { prog: l, seeds });
    if let Some(x) = l2 {
        checks.push(C::Loop { prog: x, seeds: seeds2 });
    }
    checks.push(all());
    b.finish(prop, "loop", seed, checks, false)
}
fn c18(seed: u64) -> Case {
    let b = B::new(seed);
    loops("C18", b, seed)
}

// ------------------------------------------------------------------------------------------------ C19
fn c19(seed: u64) -> Case {
    let mut b = B::new(seed);
    let long = b.r.chance(30);
    b.timing(long);
    let max_lines = if b.r.chance(20) { 300 } else { 20 };
    let o = DagOpts { max_ops: 7, max_lines, ..Default::default() };
    dag(&mut b, &o);
mix(&mut b);
    let mut checks = vec![C::PureStdout, C::IfExitZero { then: vec![C::QuietStderr] }];
    // reporting an error is no excuse for writing on stdout
    match b.r.below(8) {
        0 => {
            let drains: Vec<usize> = (0..b.t.nodes.len()).filter(|n| b.t.nodes[*n].kind == Kind::Drain && b.t.nodes[*n].end != topo::End::Null).collect();
            if !drains.is_empty() {
                let n = b.r.of(&drains);
                break_drain(&mut b, n);
            }
        }
        1 => {
            let n = b.sc.files.iter().position(|f| f.feed.as_ref().map(|x| !x.segs.is_empty()).unwrap_or(false));
            if let Some(i) = n {
                match b.r.below(3) {
                    0 => b.sc.files[i].open_err = Some(EACCES),
                    _ => b.sc.files[i].feed.as_mut().unwrap().err_at = Some((b.r.below(40), EIO)),
                }
            }
        }
        2 => {
            let len: usize = b.sc.stdin.segs.iter().map(|s| s.bytes().len()).sum();
            b.sc.stdin.err_at = Some((b.r.below(len + 1), EIO));
        }
        3 | 4 => {
            // programs that leave early, are killed, cannot be started, or cannot be read from
            let ls: Vec<usize> = (0..b.t.nodes.len()).filter(|n| b.t.nodes[*n].kind == Kind::Launch).collect();
            if !ls.is_empty() {
                let n = b.r.of(&ls);
                match b.r.below(6) {
                    0 => b.prog(n).spawn_err = Some(ENOENT),
                    1 => {
                        let port = b.r.of(&[1u8, 2]);
                        let at = b.r.below(300);
                        b.prog(n).read_err = Some((port, at, EIO));
                    }
                    k => {
                        let w = if b.r.chance(50) { When::LinesIn(b.r.below(15) as u64) } else { When::Time(b.r.of(&[0u64, 1000, 300_000])) };
                        let a = match k {
                            2 => What::Kill(9),
                            3 => What::CloseStdin,
                            _ => What::Exit(b.r.below(3) as i32),
                        };
                        b.prog(n).acts.push((w, a));
                    }
                }
            }
        }
        _ => checks.push(C::ExitZero),
    }
    // (without a program to start, pa2 stops before it opens anything)
    if b.sc.progs.iter().all(|p| p.spawn_err.is_none()) {
        checks.push(prefix());
    }
    b.finish("C19", "purity", seed, checks, true)
}

// ------------------------------------------------------------------------------------------------ C20
fn c20(seed: u64) -> Case {
    let mut b = B::new(seed);
    let long = b.r.chance(30);
    b.timing(long);
    let mut stdin_ok = true;
    let k = b.r.range(1, 3);
    let mut prev: Option<(usize, u8)> = None;
    let lines = b.r.of(&[0usize, 3, 20]);
    if b.r.chance(75) {
        let f = b.tagged_feed("S", lines);
        prev = Some(source(&mut b, f, &mut stdin_ok));
    }
    let mut used = vec![];
    for i in 0..k {
        let n = b.launch(ProgSpec { rule: Rule::Lines { route: vec![1, 2] }, ..Default::default() });
        b.vary(n);
        let g = b.gap();
        let linger = if b.r.chance(75) { g } else { 0 };
        let p = b.prog(n);
        p.linger = linger;
        p.close_first = true;
        if b.r.chance(25) {
            // closes an output early
            let w = if b.r.chance(50) { What::CloseStdout } else { What::CloseStderr };
            let at = b.r.below(5) as u64;
            b.prog(n).acts.push((When::LinesIn(at), w));
        }
        if let Some(p) = prev {
            b.t.edge(p.0, p.1, n);
        } else {
            let seg = b.tagged("E", i, 20, 1);
            b.prog(n).emit = vec![Emit { port: 1, seg, gap: 0 }];
        }
        used.push(n);
        prev = match b.r.below(4) {
            0 => None,
            1 => Some((n, 1)),
            _ => Some((n, 0)),
        };
        for port in 0..3u8 {
            if b.r.chance(25) && prev != Some((n, port)) {
                let d = b.drain();
                b.t.edge(n, port, d);
            }
        }
    }
    if let Some(p) = prev {
        if b.r.chance(60) {
            let d = b.drain();
            b.t.edge(p.0, p.1, d);
        }
    }
    // every program has to be connected to something
    for n in used {
        if b.t.ins(n).is_empty() && b.t.outs(n).is_empty() {
            let d = b.drain();
            b.t.edge(n, 0, d);
        }
    }
    mix(&mut b);
    b.finish("C20", "outlives", seed, vec![C::Ends, C::ExitZero, C::Outlives], false)
}

// ------------------------------------------------------------------------------------------------ C21
/// A graph in which everything that comes out depends on the order of merged input only as to its order.
fn comparable(seed: u64, o: &DagOpts) -> B {
    let mut b = B::new(seed);
    let long = b.r.chance(30);
    b.timing(long);
    dag(&mut b, o);
    // (a status has no line end: what comes after it in a merged stream would depend on the order)
    let launches: Vec<usize> = (0..b.t.nodes.len()).filter(|n| b.t.nodes[*n].kind == Kind::Launch).collect();
    for n in launches {
        if b.r.chance(15) {
            for _ in 0..b.r.of(&[1usize, 1, 2]) {
                let d = b.drain();
                b.t.edge(n, 2, d);
            }
        }
    }
    // what programs make of merged input must not depend on the order it arrives in
    for p in b.sc.progs.iter_mut() {
        p.acts.clear(); // when an output is closed depends on it as well
    }
    for n in 0..b.t.nodes.len() {
        if b.t.nodes[n].kind == Kind::Launch && b.t.feeds(n).len() > 1 || b.t.nodes[n].kind == Kind::Launch && merged_above(&b.t, n) {
            b.prog(n).rule = Rule::Lines { route: vec![1] };
        }
    }
    for f in b.sc.files.iter_mut() {
        if let Some(x) = f.feed.as_mut() {
            if let Some(l) = x.segs.last_mut() {
                if l.t == 0 {
                    l.t = 1
                }
            }
        }
    }
    if let Some(l) = b.sc.stdin.segs.last_mut() {
        if l.t == 0 {
            l.t = 1
        }
    }
    b
}
/// what another property says of a pipeline holds however the pipeline is written
fn rewritten(seed: u64, r: &mut Rng) -> Case {
    let of = ["C02", "C03", "C04", "C04", "C05", "C07", "C08", "C09", "C09", "C09", "C10", "C10", "C11", "C11", "C13", "C14", "C15", "C15", "C18", "C20", "C22", "C24"];
    let mut k = 0;
    let mut c = loop {
        let p: &str = r.pick(&of);
        let c = generate(p, mix_seed(seed, k));
        k += 1;
        if c.sc.steps.is_empty() && c.variants.is_empty() && !c.checks.iter().any(|x| matches!(x, C::Crashes { .. } | C::Refused { .. } | C::SameAs)) {
            break c;
        }
    };
    c.family = format!("rewritten_{}", c.property);
    c.property = "C21".into();
    c.seed = seed;
    c.shrink_data = false;
    c.checks.push(C::Rewritten);
    for i in 0..3 {
        let mut t = c.topo.clone();
        let mut st = Style::random(r);
        st.structs = [0, 100, 50][i];
        st.yaml = i == 1 || r.chance(50);
        r.shuffle(&mut t.edges);
        let mut sc = c.sc.clone();
        sc.config = render(&t, &st, r);
        sc.yaml = st.yaml;
        sc.config_io = Default::default();
        sc.hash_seed = r.u64();
        if r.chance(30) {
            sc.sched_seed = r.u64();
        }
        c.variants.push(sc);
    }
    c
}
fn mix_seed(a: u64, b: u64) -> u64 {
    simcore::world::mix(a ^ simcore::world::mix(b ^ 0x7272)) >> 1
}
fn c21(seed: u64) -> Case {
    let mut r = Rng::new(seed ^ 0x7777);
    if r.chance(30) {
        return rewritten(seed, &mut r);
    }
    let o = DagOpts { max_ops: 7, max_lines: 25, exits: false, stderr_drain: true, ..Default::default() };
    let mut b = comparable(seed, &o);
    let mut checks = vec![C::Ends, C::SameAs];
    if b.r.chance(20) {
        // the same failure, however it is written
        let fs: Vec<usize> = (0..b.t.nodes.len()).filter(|n| b.t.nodes[*n].kind == Kind::Faucet && matches!(b.t.nodes[*n].end, topo::End::File(_))).collect();
        if !fs.is_empty() {
            let n = b.r.of(&fs);
            if let topo::End::File(i) = b.t.nodes[n].end {
                b.sc.files[i].open_err = Some(EACCES);
            }
        }
    } else {
        checks.insert(1, C::ExitZero);
        checks.insert(2, all());
    }
    mix(&mut b);
    let topo0 = b.t.clone();
    let mut r = Rng::new(seed ^ 0x2121);
    let mut c = b.finish("C21", "variants", seed, checks, false);
    let nv = 3;
    for i in 0..nv {
        let mut t = topo0.clone();
        if i > 0 && r.chance(60) {
            explicit(&mut t, &mut r);
        }
        let mut st = Style::random(&mut r);
        st.yaml = i % 2 == 0;
        let mut sc = c.sc.clone();
        // nodes and connections listed in another order
        let mut es = t.edges.clone();
        r.shuffle(&mut es);
        t.edges = es;
        sc.config = render(&t, &st, &mut r);
        sc.yaml = st.yaml;
        if i == 2 && !t.nodes.iter().any(|n| n.kind == Kind::Faucet && n.end == topo::End::Std) {
            sc.config_stdin = !c.sc.config_stdin;
        }
        if i == 1 {
            sc.config_io = if c.sc.config_io == Default::default() { crate::gen::config_pieces(&mut r) } else { Default::default() };
        }
        sc.hash_seed = r.u64();
        if r.chance(50) {
            sc.sched_seed = r.u64();
        }
        c.variants.push(sc);
    }
    c
}
fn merged_above(t: &topo::Topo, n: usize) -> bool {
    let up = t.upstream(n);
    (0..t.nodes.len()).any(|x| up[x] && t.ins(x).len() > 1)
}
/// write fan-in and fan-out as junctions of their own
fn explicit(t: &mut topo::Topo, r: &mut Rng) {
    for n in 0..t.nodes.len() {
        if t.nodes[n].kind != Kind::Junction && t.ins(n).len() > 1 && r.chance(60) {
            let j = t.add(Kind::Junction, &format!("explicit_in_{}", n));
            for e in t.edges.iter_mut() {
                if e.d == n {
                    e.d = j;
                }
            }
            t.edge(j, 0, n);
        }
        for port in 0..3u8 {
            if t.nodes[n].kind != Kind::Junction && t.outs(n).iter().filter(|e| e.port == port).count() > 1 && r.chance(60) {
                let j = t.add(Kind::Junction, &format!("explicit_out_{}_{}", n, port));
                for e in t.edges.iter_mut() {
                    if e.s == n && e.port == port {
                        e.s = j;
                        e.port = 0;
                    }
                }
                t.edge(n, port, j);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ C22
fn c22(seed: u64) -> Case {
    let mut b = B::new(seed);
    b.timing(false);
    short_internal(&mut b);
    // (the line writer of std may hold back what a short write left over)
    b.sc.timing.cls[class::FILE_SHORT as usize] = (0, 0);
    let mut stdin_ok = true;
    let mut std_used = [false, false];
    let k = b.r.of(&[1usize, 1, 2]);
    let mut most = 0;
    for i in 0..k {
        let n = b.r.range(2, 6);
        // single lines, or some of them the beginning of a burst
        let sizes: Vec<usize> = (0..n).map(|_| if b.r.chance(12) { b.r.range(10, 150) } else { 1 }).collect();
        let total = sizes.iter().sum();
        most += total as u64;
        let mut f = bulk(&mut b, &format!("S{}", i), total, 40);
        let mut g = 0;
        for k in sizes {
            let us = b.r.of(&[1_000_000u64, 20_000_000, 120_000_000, 1_000_000_000, 20_000_000_000]);
            f.gaps.push((g, us));
            g += k;
        }
        if b.r.chance(20) {
            f.eof_gap = 100_000_000;
        }
        let s = source(&mut b, f, &mut stdin_ok);
        let mut at = pad(&mut b, s, 3, &[Kind::Junction, Kind::Buffer, Kind::Regulator, Kind::Launch], 'T');
        // a regulator with its buffer
        if b.r.chance(30) {
            let r = b.node(Kind::Regulator);
            let bu = b.buffer();
            b.t.nodes[r].reg = Some((2, 5, vec![bu]));
            b.t.edge(at.0, at.1, r);
            b.t.edge(r, 0, bu);
            at = (bu, 0);
        }
        // a second input that stays silent
        if b.r.chance(40) {
            let j = b.junction();
            let mut f = bulk(&mut b, &format!("Q{}", i), 1, 10);
            f.gaps = vec![(0, 90_000_000_000)];
            let q = source(&mut b, f, &mut stdin_ok);
            let e = b.t.edge(q.0, q.1, j);
            b.t.edges[e].prio = b.r.of(&[0i64, -1, 1]);
            b.t.edge(at.0, at.1, j);
            let n = b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() });
            b.t.edge(j, 0, n);
            continue;
        }
        let outs = b.r.of(&[1usize, 1, 2]);
        for _ in 0..outs {
            // (a drain on a file may hold data back in its write buffer)
            let d = match b.r.below(4) {
                0 if !std_used[0] => {
                    std_used[0] = true;
                    b.drain_std(false)
                }
                1 if !std_used[1] => {
                    std_used[1] = true;
                    b.drain_std(true)
                }
                _ => b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() }),
            };
            b.t.edge(at.0, at.1, d);
        }
    }
    let n = b.t.nodes.len() as u64;
    b.sc.limits.max_polls = 3_000_000;
    mix(&mut b);
    let us = 4_000_000 * (n + 3) + 10_000 * most * (n + 3);
    b.finish("C22", "idle_then_data", seed, vec![C::Ends, C::ExitZero, C::Latency { us }, C::EndBound { us }], false)
}

// ------------------------------------------------------------------------------------------------ C23
fn c23(seed: u64) -> Case {
    let mut b = B::new(seed);
    b.timing(false);
    b.sc.timing.cls[class::SPURIOUS as usize] = (0, 0);
    let mut stdin_ok = true;
    let k = b.r.of(&[1usize, 1, 2]);
    let mut gone = vec![];
    for i in 0..k {
        let n = b.r.range(2, 30);
        let mut f = bulk(&mut b, &format!("S{}", i), n, 100);
        // a regulator paused for long, with something waiting in front of it
        let paused = b.r.chance(25);
        let at = if paused { n - 1 } else { b.r.below(n) };
        f.gaps = vec![(at, 400_000_000)];
        let s = source(&mut b, f, &mut stdin_ok);
        let mut at = pad(&mut b, s, 3, &[Kind::Junction, Kind::Buffer, Kind::Regulator, Kind::Launch], 'T');
        if paused || b.r.chance(40) {
            let r = b.node(Kind::Regulator);
            let bu = b.buffer();
            b.t.nodes[r].reg = Some((1, 4, vec![bu]));
            b.t.edge(at.0, at.1, r);
            b.t.edge(r, 0, bu);
            at = (bu, 0);
        }
        if b.r.chance(30) {
            let j = b.junction();
            let f = bulk(&mut b, &format!("Q{}", i), 3, 10);
            let q = source(&mut b, f, &mut stdin_ok);
            b.t.edge(q.0, q.1, j);
            b.t.edge(at.0, at.1, j);
            at = (j, 0);
        }
        let outs = b.r.of(&[1usize, 1, 2]);
        for _ in 0..outs {
            let n = b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() });
            b.t.edge(at.0, at.1, n);
            match if paused { 0 } else { b.r.below(4) } {
                3 => {
                    // leaves, which is ignored
                    let w = if b.r.chance(50) { When::LinesIn(1) } else { When::Time(20_000_000) };
                    let a = if b.r.chance(50) { What::CloseStdin } else { What::Exit(0) };
                    b.prog(n).acts.push((w, a));
                    gone.push(n);
                }
                0 => {
                    // stalled consumer
                    let cap = b.r.of(&[1usize, 512]);
                    let p = b.prog(n);
                    p.pipe_cap = cap;
                    p.acts.push((When::LinesIn(1), What::Stall(300_000_000)));
                }
                1 => {
                    // runs on after its streams are closed
                    let p = b.prog(n);
                    p.linger = 300_000_000;
                    p.close_first = true;
                }
                _ => (),
            }
        }
    }
    let n = b.t.nodes.len() as u64;
    b.sc.limits.max_polls = 3_000_000;
    mix(&mut b);
    for e in b.t.edges.iter_mut() {
        if gone.contains(&e.d) {
            e.brk = 'C';
        }
    }
    b.finish(
        "C23",
        "idle",
        seed,
        vec![C::Ends, C::ExitZero, C::Idle { polls_per_s: 15 * (n + 2), after_us: 60_000_000, min_us: 30_000_000 }],
        false,
    )
}

// ------------------------------------------------------------------------------------------------ C24
fn c24(seed: u64) -> Case {
    let mut b = B::new(seed);
    let long = b.r.chance(40);
    b.timing(long);
    // the healthy part
    let o = DagOpts { max_ops: 5, max_lines: 40, stderr_drain: false, ..Default::default() };
    dag(&mut b, &o);
    let healthy = b.t.nodes.len();
    let mut checks = vec![C::Ends];
    for n in 0..healthy {
        if matches!(b.t.nodes[n].kind, Kind::Drain | Kind::Launch) && !b.t.ins(n).is_empty() {
            checks.push(C::Data { node: n, mode: Mode::Complete });
        }
        if b.t.nodes[n].kind == Kind::Launch {
            checks.push(C::Undisturbed { launch: n });
        }
        if b.t.nodes[n].kind == Kind::Faucet {
            checks.push(C::ReadFully { src: n, port: 0 });
        }
    }
    mix(&mut b);
    // the broken part
    let lines = 1500;
    let mut no_stdin = false;
    let f = bulk(&mut b, "X", lines, 60);
    let s = source(&mut b, f, &mut no_stdin);
    let pass = [Kind::Junction, Kind::Buffer, Kind::Regulator, Kind::Launch];
    let at = pad(&mut b, s, 2, &pass, 'T');
    // what else gets the same data must not be left waiting
    if b.r.chance(40) {
        for _ in 0..b.r.range(1, 3) {
            let p = pad(&mut b, at, 1, &pass, 'T');
            let d = if b.r.chance(50) { b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() }) } else { b.drain() };
            let brk = b.r.of(&['T', 'F', 'C']);
            join(&mut b, p, d, brk);
        }
    }
    let mut failed = C::ExitNonZero;
    let stdout_free = !b.t.nodes.iter().any(|n| n.kind == Kind::Drain && n.end == topo::End::Std);
    match b.r.below(if stdout_free { 6 } else { 4 }) {
        4 | 5 => {
            let d = b.drain_std(false);
            b.t.edge(at.0, at.1, d);
            b.sc.stdout.err_at = Some((b.r.below(20000), b.r.of(&[EPIPE, EPIPE, EPIPE, EIO, ENOSPC])));
        }
        0 => {
            let n = b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() });
            leave(&mut b, n, lines);
            b.t.edge(at.0, at.1, n);
            failed = C::IfUndelivered { node: n, then: vec![C::ExitNonZero] };
        }
        1 => {
            let d = b.drain();
            b.t.edge(at.0, at.1, d);
            if let topo::End::File(i) = b.t.nodes[d].end {
                let w = b.r.below(20000);
                b.sc.files[i].sink.err_at = Some((w, ENOSPC));
            }
        }
        2 => {
            let d = b.drain();
            b.t.edge(at.0, at.1, d);
            if let topo::End::File(i) = b.t.nodes[d].end {
                b.sc.files[i].create_err = Some(EACCES);
            }
        }
        _ => {
            let d = b.drain();
            b.t.edge(at.0, at.1, d);
            let x = b.faucet(Feed { segs: vec![Seg::line("never")], ..Default::default() });
            let d2 = b.drain();
            b.t.edge(x, 0, d2);
            if let topo::End::File(i) = b.t.nodes[x].end {
                match b.r.below(2) {
                    0 => b.sc.files[i].open_err = Some(EACCES),
                    _ => b.sc.files[i].feed.as_mut().unwrap().err_at = Some((3, EIO)),
                }
            }
        }
    }
    checks.push(failed);
    // further parts that fail: all of them are named
    let mut names = vec![];
    for i in 0..b.r.of(&[0usize, 0, 1, 2]) {
        let f = b.tagged_feed(&format!("Y{}", i), 20);
        let x = b.faucet(f);
        let d = b.drain();
        let at = pad(&mut b, (x, 0), 1, &pass, 'T');
        b.t.edge(at.0, at.1, d);
        let create = b.r.chance(50);
        let bad = if create { d } else { x };
        if let topo::End::File(i) = b.t.nodes[bad].end {
            if create {
                b.sc.files[i].create_err = Some(EACCES);
            } else {
                match b.r.below(3) {
                    0 => b.sc.files[i].open_err = Some(EACCES),
                    1 => b.sc.files[i].feed = None,
                    _ => b.sc.files[i].feed.as_mut().unwrap().err_at = Some((b.r.below(20), EIO)),
                }
            }
        }
        names.push(b.t.full_name(bad));
    }
    if !names.is_empty() {
        checks.push(C::ExitNonZero);
    }
    checks.push(C::Reports { names });
    if !long {
        short_internal(&mut b);
        let n = b.t.nodes.len() as u64;
        checks.push(C::EndBound { us: 4_000_000 * (n + 3) });
    }
    if b.r.chance(15) {
        stubborn(&mut b);
    }
    b.finish("C24", "isolation", seed, checks, false)
}

// ------------------------------------------------------------------------------------------------ C25
fn c25(seed: u64) -> Case {
    let mut b = B::new(seed);
    let long = b.r.chance(40);
    b.timing(long);
    let o = DagOpts { max_ops: 6, max_lines: 30, stderr_drain: false, ..Default::default() };
    dag(&mut b, &o);
    let mut ls: Vec<usize> = (0..b.t.nodes.len()).filter(|n| b.t.nodes[*n].kind == Kind::Launch && !(b.t.ins(*n).is_empty() && b.t.outs(*n).is_empty())).collect();
    if ls.is_empty() {
        let f = b.tagged_feed("Z", 5);
        let mut no = false;
        let s = source(&mut b, f, &mut no);
        let n = b.launch(ProgSpec { rule: Rule::Sink, ..Default::default() });
        b.t.edge(s.0, s.1, n);
        ls = vec![n];
    }
    let n = b.r.of(&ls);
    let errno = b.r.of(&[ENOENT, EACCES, EMFILE, 11, 12, 8]);
    let mut two = false;
    if b.r.chance(20) {
        // it is its directory that is missing
        b.t.nodes[n].path = Some("/sim/no such directory".into());
        b.prog(n).no_dir = b.t.nodes[n].path.clone();
    } else {
        b.prog(n).spawn_err = Some(errno);
    }
    // and others which cannot be started either
    for m in ls {
        if m != n && b.r.chance(10) {
            b.prog(m).spawn_err = Some(errno);
            two = true;
        }
    }
    let cmd = b.t.cmds[b.t.nodes[n].prog].clone();
    let mut checks = vec![C::Ends, C::ExitNonZero, C::Reports { names: if two { vec![] } else { vec![cmd] } }];
    if !long {
        short_internal(&mut b);
        let n = b.t.nodes.len() as u64;
        checks.push(C::EndBound { us: 4_000_000 * (n + 3) });
    }
    mix(&mut b);
    b.finish("C25", "cannot_start", seed, checks, false)
}

// ------------------------------------------------------------------------------------------------ C26
/// Configuration entries that no connection uses.
fn unused(b: &mut B, k: usize) {
    let buffers: Vec<usize> = (0..b.t.nodes.len()).filter(|n| b.t.nodes[*n].kind == Kind::Buffer && !b.t.ins(*n).is_empty()).collect();
    for i in 0..k {
        match b.r.below(6) {
            0 => {
                let f = b.tagged_feed(&format!("U{}", i), 5);
                b.faucet(f);
            }
            1 if b.sc.stdin.segs.is_empty() && !b.t.nodes.iter().any(|n| n.kind == Kind::Faucet && n.end == topo::End::Std) => {
                let f = b.tagged_feed(&format!("U{}", i), 5);
                b.faucet_stdin(f);
            }
            2 => {
                let d = b.drain();
                if b.r.chance(50) {
                    if let topo::End::File(x) = b.t.nodes[d].end {
                        let err = b.r.of(&[EACCES, EISDIR]);
                        b.sc.files[x].create_err = Some(err);
                    }
                }
            }
            3 if !buffers.is_empty() => {
                // would stop everything if it existed
                let x = b.r.of(&buffers);
                b.regulator(0, 1, vec![x]);
            }
            _ => {
                let n = b.launch(ProgSpec { exit_on: 1, ..Default::default() });
                let emit = (0..4).map(|j| Emit { port: 1 + j % 2, seg: Seg::line(format!("unused {}", j)), gap: 0 }).collect();
                b.prog(n).emit = emit;
                match b.r.below(4) {
                    0 => b.t.no_cmd.push(n),
                    1 => b.prog(n).spawn_err = Some(ENOENT),
                    _ => (),
                }
            }
        }
    }
}
fn c26(seed: u64) -> Case {
    let mut b = B::new(seed);
    let long = b.r.chance(30);
    b.timing(long);
    dag(&mut b, &DagOpts { max_ops: 6, max_lines: 10, ..Default::default() });
    mix(&mut b);
    let k = b.r.below(4);
    unused(&mut b, k);
    if b.r.chance(35) {
        if k == 0 {
            unused(&mut b, 1);
        }
        return b.finish("C26", "unused", seed, vec![C::Ends, C::ExitZero, C::QuietStderr, C::PureStdout, C::UnusedUntouched, all()], true);
    }
    let used: Vec<usize> = (0..b.t.nodes.len()).filter(|n| !b.t.ins(*n).is_empty() || !b.t.outs(*n).is_empty()).collect();
    let mut names = vec![];
    let mut spoil = 0;
    let mut watching = vec![];
    let mut twice = false;
    for _ in 0..b.r.of(&[1usize, 1, 1, 2]) {
        match b.r.below(6) {
            4 => {
                // a connection that cannot be made: into a faucet, out of a drain, from a
                // port which is not there (found later than the others, as below)
                if names.is_empty() && spoil == 0 && !twice {
                    let faucets: Vec<usize> = used.iter().cloned().filter(|n| b.t.nodes[*n].kind == Kind::Faucet).collect();
                    let drains: Vec<usize> = used.iter().cloned().filter(|n| b.t.nodes[*n].kind == Kind::Drain).collect();
                    let (s, p, d) = match b.r.below(3) {
                        0 if !faucets.is_empty() => {
                            let d = b.r.of(&faucets);
                            let v: Vec<usize> = used.iter().cloned().filter(|n| *n != d && b.t.nodes[*n].kind != Kind::Drain).collect();
                            if v.is_empty() {
                                continue;
                            }
                            names.push(b.t.nodes[d].name.clone());
                            (b.r.of(&v), 0, d)
                        }
                        1 if !faucets.is_empty() && !drains.is_empty() => {
                            let s = b.r.of(&faucets);
                            names.push(b.t.nodes[s].name.clone());
                            (s, 1 + b.r.below(2) as u8, b.r.of(&drains))
                        }
                        _ if !drains.is_empty() => {
                            let s = b.r.of(&drains);
                            let v: Vec<usize> = used.iter().cloned().filter(|n| *n != s && b.t.nodes[*n].kind != Kind::Faucet).collect();
                            if v.is_empty() {
                                continue;
                            }
                            names.push(b.t.nodes[s].name.clone());
                            (s, b.r.below(3) as u8, b.r.of(&v))
                        }
                        _ => continue,
                    };
                    b.t.edge(s, p, d);
                    break;
                }
            }
            5 => {
                // one buffer, two regulators that watch it
                let v: Vec<usize> = used.iter().cloned().filter(|n| b.t.nodes[*n].kind == Kind::Regulator && !b.t.omit.contains(n) && !watching.contains(n)).collect();
                if let Some(n) = v.first().cloned() {
                    if let Some(w) = b.t.nodes[n].reg.clone().map(|x| x.2).filter(|w| !w.is_empty()) {
                        let e = b.r.below(b.t.edges.len());
                        let m = b.r.of(&w);
                        let g = b.regulator(1, 2, vec![m]);
                        let d = b.t.edges[e].d;
                        b.t.edges[e].d = g;
                        b.t.edge(g, 0, d);
                        twice = true;
                    }
                }
            }
            0 => {
                let v: Vec<usize> = used.iter().cloned().filter(|n| matches!(b.t.nodes[*n].kind, Kind::Launch | Kind::Faucet | Kind::Drain | Kind::Regulator)).collect();
                let n = b.r.of(&v);
                if !b.t.omit.contains(&n) && !watching.contains(&n) {
                    b.t.omit.push(n);
                    names.push(b.t.nodes[n].name.clone());
                }
            }
            1 => {
                let v: Vec<usize> = used.iter().cloned().filter(|n| b.t.nodes[*n].kind == Kind::Launch).collect();
                // (a check that comes later than the others: named only if nothing else is wrong)
                if !v.is_empty() && names.is_empty() && spoil == 0 && !twice {
                    let n = b.r.of(&v);
                    b.t.no_cmd.push(n);
                    names.push(b.t.nodes[n].name.clone());
                    break;
                }
            }
            2 => {
                let v: Vec<usize> = used.iter().cloned().filter(|n| b.t.nodes[*n].kind == Kind::Regulator && !b.t.omit.contains(n)).collect();
                if !v.is_empty() {
                    let n = b.r.of(&v);
                    let m = b.buffer(); // in no connection
                    let (lo, hi, mut w) = b.t.nodes[n].reg.clone().unwrap_or((1, 9, vec![]));
                    w.push(m);
                    watching.push(n);
                    b.t.nodes[n].reg = Some((lo, hi, w));
                    names.push(b.t.nodes[m].name.clone());
                }
            }
            _ => spoil += 1,
        }
    }
    if names.is_empty() && spoil == 0 && !twice {
        spoil = 1;
    }
    if spoil > 0 {
        names.clear();
    }
    let mut c = b.finish("C26", if spoil > 0 { "unreadable" } else { "refused" }, seed, vec![], false);
    let mut r = Rng::new(seed ^ 0x26);
    if spoil > 0 {
        if r.chance(35) {
            unreadable(&mut c.sc, &mut r);
        } else {
            c.sc.config = spoiled(&c.sc, &mut r);
        }
    }
    c.checks = vec![C::Ends, C::Refused { names }];
    c
}
/// A configuration that cannot be read.
fn unreadable(sc: &mut Scenario, r: &mut Rng) {
    let len = sc.config.len();
    match r.below(3) {
        0 if !sc.config_stdin => sc.config_io.open_err = Some(r.of(&[ENOENT, EACCES, libc::EMFILE, libc::EIO])),
        1 => {
            sc.config_io.bytes = vec![(r.range(0, len), r.of(&[0xffu8, 0xc3]))];
        }
        _ => {
            let at = match r.below(4) {
                0 => 0,
                1 => len,
                _ => r.range(0, len),
            };
            sc.config_io.err = Some((at as u64, r.of(&[libc::EIO, libc::EISDIR, libc::ESTALE])));
        }
    }
}
/// A configuration text that means nothing.
fn spoiled(sc: &Scenario, r: &mut Rng) -> String {
    let s = &sc.config;
    if r.chance(25) {
        // cut short
        if !sc.yaml {
            let at = r.range(0, s.trim_end().len() - 1);
            return s.char_indices().take_while(|x| x.0 < at).map(|x| x.1).collect();
        }
    }
    // one component of a connection is written wrongly
    let bad = r.pick(&["x:a", "faucet", "l", "l:", "|", "f:a|", "l:a | | l:b", "f:a | Q | l:b", "f:a[Z] | l:b", "f:a | [x]l:b", "f:a l:b", "f:a | l:b |", "f a | l b", "f:a | T l:b"]).to_string();
    let key = "zz";
    if sc.yaml {
        let (nl, at) = if s.contains("\r\n") { ("\r\n", "connection:\r\n") } else { ("\n", "connection:\n") };
        s.replacen(at, &format!("{}  {}: {}{}", at, key, serde_json::Value::String(bad), nl), 1)
    } else {
        s.replacen("\"connection\": {", &format!("\"connection\": {{\"{}\": {}, ", key, serde_json::Value::String(bad)), 1)
    }
}
/// in the order in which a defect anywhere is most likely to be met soon
pub const ALL: [&str; 29] = [
    "C12", "C16", "C02", "C03", "C13", "C14", "C10", "C11", "C09", "C15", "C01", "C17", "C08", "C24", "C18", "C04", "C19", "C20",
    "C05", "C07", "C22", "C23", "C25", "C26", "C21", "C31", "C32", "C27", "C06",
];

// ------------------------------------------------------------------------------------------------ C27
fn c27(seed: u64) -> Case {
    let mut b = B::new(seed);
    b.huge_ok = true;
    let long = b.r.chance(50);
    b.timing(long);
    dag(&mut b, &DagOpts { need_drain: true, ..Default::default() });
    if b.r.chance(20) {
        // much for one file, so that it is written in many pieces
        let mut stdin_ok = false;
        let f = lots(&mut b, "L");
        let s = source(&mut b, f, &mut stdin_ok);
        let at = pad(&mut b, s, 1, &RELAYS, 'T');
        let d = b.drain();
        b.t.edge(at.0, at.1, d);
    }
    // slow outputs
    for n in 0..b.t.nodes.len() {
        if let (Kind::Drain, topo::End::File(i)) = (b.t.nodes[n].kind, b.t.nodes[n].end.clone()) {
            if b.r.chance(20) {
                let us = b.gap();
                let at = b.r.below(500);
                b.sc.files[i].sink.stalls.push((at, us));
            }
        }
    }
    mix(&mut b);
    b.finish("C27", "killed", seed, vec![C::Ends, C::ExitZero, all(), C::Crashes { points: 2 }], false)
}

// ------------------------------------------------------------------------------------------------ C31
fn c31(seed: u64) -> Case {
    let o = DagOpts { max_ops: 5, max_lines: 10, exits: false, stderr_drain: true, ..Default::default() };
    let mut b = comparable(seed, &o);
    settings(&mut b);
    mix(&mut b);
    let checks = vec![C::Ends, C::ExitZero, all(), C::Launches, C::SameAs];
    let mut c = b.finish("C31", "commands", seed, checks, false);
    let mut r = Rng::new(seed ^ 0x3131);
    // once as it is, once as the commands make it
    let direct = c.sc.clone();
    let mut st = Style::random(&mut r);
    st.yaml = false;
    c.sc.config_io = Default::default();
    let whole: serde_json::Value = serde_json::from_str(&render(&c.topo, &st, &mut r)).expect("a rendered configuration");
    let (start, steps) = commands(&whole, &mut r);
    c.sc.config = start.to_string();
    c.sc.steps = steps;
    c.sc.yaml = r.chance(50);
    if r.chance(50) {
        c.sc.sched_seed = r.u64();
    }
    c.variants.push(direct);
    c
}

// ------------------------------------------------------------------------------------------------ C32
fn c32(seed: u64) -> Case {
    let o = DagOpts { max_ops: 8, max_lines: 4, stderr_drain: true, ..Default::default() };
    let mut b = comparable(seed, &o);
    mix(&mut b);
    let mut c = b.finish("C32", "drawn", seed, vec![C::Ends, C::ExitZero, C::Launches], false);
    let mut r = Rng::new(seed ^ 0x3232);
    let mut st = Style::random(&mut r);
    st.yaml = false;
    c.sc.yaml = false;
    c.sc.config_io = Default::default();
    c.sc.config = render(&c.topo, &st, &mut r);
    // programs have nothing to do with a drawing: it can be made before they are known
    for _ in 0..r.range(3, 6) {
        let mut args = vec!["graph".to_string()];
        match r.below(8) {
            0..=2 => args.push(r.of(&["--diagram-only", "-d"]).into()),
            3 => args.push(r.of(&["--legend-only", "-l"]).into()),
            4 => args.push("--legend-border".into()),
            5 => args.extend(["--legend-border".to_string(), "--legend-only".to_string()]),
            _ => (),
        }
        let mut step = Step { args, yaml: r.chance(40), config_stdin: r.chance(30), hash_seed: r.u64(), ..Default::default() };
        if r.chance(20) {
            step.io = crate::gen::config_pieces(&mut r);
        }
        if r.chance(20) {
            for _ in 0..r.range(1, 3) {
                step.io.out_max.push(r.of(&[1u32, 3, 50, 255, 1000]));
            }
        }
        if r.chance(15) {
            step.fails = true;
            match r.below(4) {
                0 => step.io.err = Some((r.of(&[0u64, 1, 20, 100]), r.of(&[5, 21, 116]))),
                1 => step.io.out_err = Some((r.of(&[0u64, 1, 40, 200]), r.of(&[EPIPE, ENOSPC, 5]))),
                2 => step.config = Some(spoiled(&c.sc, &mut r)),
                _ => {
                    // a program is named that is not configured
                    let mut v: serde_json::Value = serde_json::from_str(&c.sc.config).expect("a rendered configuration");
                    v["connection"]["zz"] = r.of(&["l:not_there | d:not_there", "l:not_there[X] | l:not_there"]).into();
                    step.config = Some(v.to_string());
                }
            }
        }
        c.sc.steps.push(step);
    }
    c
}

/// A configuration that is not yet what it should be, and the commands that make it so.
fn commands(whole: &serde_json::Value, r: &mut Rng) -> (serde_json::Value, Vec<Step>) {
    use serde_json::{json, Value};
    fn s(v: &Value) -> String {
        v.as_str().unwrap_or("").to_string()
    }
    let mut start = whole.clone();
    // each one in its order, all of them mixed
    let mut queues: Vec<Vec<Vec<String>>> = vec![];
    let words = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    let build = r.chance(20);
    let how_many = if build { 100 } else { r.of(&[20usize, 40, 40, 70]) };
    // a value as the last argument
    fn last(r: &mut Rng, head: &[&str], vals: &[String]) -> Vec<String> {
        let mut v: Vec<String> = head.iter().map(|x| x.to_string()).collect();
        if vals.iter().any(|x| x.starts_with('-')) || r.chance(30) {
            v.push("--".into());
        }
        v.extend(vals.iter().cloned());
        v
    }
    for kind in ["faucet", "drain", "launch", "regulator", "connection"] {
        let names: Vec<String> = match whole.get(kind).and_then(|x| x.as_object()) {
            Some(m) => m.keys().cloned().collect(),
            None => continue,
        };
        for name in names {
            if !r.chance(how_many) {
                continue;
            }
            let want = whole[kind][&name].clone();
            let mut q: Vec<Vec<String>> = vec![];
            let have = start[kind].as_object_mut().unwrap();
            match kind {
                "faucet" | "drain" => {
                    let (key, verb) = if kind == "faucet" { ("source", "source") } else { ("destination", "destination") };
                    let v = if want.get(key).is_some() { s(&want[key]) } else { "-".to_string() };
                    let wrong = r.of(&["", "-", "/sim/elsewhere", "_"]).to_string();
                    if build || r.chance(50) {
                        have.remove(&name);
                    } else {
                        have.insert(name.clone(), json!({ key: wrong }));
                    }
                    if r.chance(20) {
                        q.push(last(r, &[kind, "--id", &name, verb], &["/sim/elsewhere".to_string()]));
                    }
                    q.push(last(r, &[kind, "--id", &name, verb], &[v]));
                }
                "launch" => {
                    let gone = build || r.chance(30);
                    let mut e = want.as_object().unwrap().clone();
                    let mut sub: Vec<Vec<String>> = vec![];
                    if gone || r.chance(40) {
                        match r.below(3) {
                            0 => e.insert("cmd".into(), Value::Null),
                            1 => e.remove("cmd"),
                            _ => e.insert("cmd".into(), json!("/sim/other")),
                        };
                        sub.push(last(r, &["launch", "--id", &name, "command"], &[s(&want["cmd"])]));
                    }
                    if let Some(p) = want.get("path") {
                        if gone || r.chance(50) {
                            match r.below(3) {
                                0 => e.insert("path".into(), Value::Null),
                                1 => e.remove("path"),
                                _ => e.insert("path".into(), json!("/sim/nowhere")),
                            };
                            sub.push(last(r, &["launch", "--id", &name, "path"], &[s(p)]));
                        }
                    }
                    if let Some(a) = want.get("arg").and_then(|a| a.as_array()) {
                        if gone || r.chance(50) {
                            if r.chance(50) {
                                e.remove("arg");
                            } else {
                                e.insert("arg".into(), json!(["wrong", "arguments"]));
                            }
                            let mut v = words(&["launch", "--id", &name, "args", "--"]);
                            v.extend(a.iter().map(s));
                            sub.push(v);
                        }
                    }
                    if let Some(a) = want.get("env").and_then(|a| a.as_object()) {
                        if gone || r.chance(50) {
                            if r.chance(50) {
                                e.remove("env");
                            } else {
                                e.insert("env".into(), json!({"WRONG": "x", "V0": "wrong"}));
                            }
                            let mut v = words(&["launch", "--id", &name, "env", "--"]);
                            let mut kv: Vec<String> = a.iter().map(|(k, x)| format!("{}={}", k, s(x))).collect();
                            r.shuffle(&mut kv);
                            v.extend(kv);
                            sub.push(v);
                        }
                    }
                    if gone {
                        have.remove(&name);
                    } else {
                        have.insert(name.clone(), Value::Object(e));
                    }
                    r.shuffle(&mut sub);
                    q = sub;
                }
                "regulator" => {
                    let (lo, hi) = match want["buffered"].as_array() {
                        Some(x) => (x[0].to_string(), x[1].to_string()),
                        None => continue,
                    };
                    // given the wrong way round, they are exchanged
                    let (lo, hi) = if r.chance(25) { (hi, lo) } else { (lo, hi) };
                    let watches = want.get("monitored_buffers").and_then(|x| x.as_array()).map(|x| !x.is_empty()).unwrap_or(false);
                    if !watches && (build || r.chance(50)) {
                        have.remove(&name);
                    } else if r.chance(50) {
                        have[&name]["buffered"] = json!([1, 100_000]);
                    } else {
                        have[&name].as_object_mut().unwrap().remove("buffered");
                    }
                    q.push(last(r, &["regulator", "--id", &name, "watermark"], &[lo, hi]));
                }
                _ => {
                    if build || r.chance(50) {
                        have.remove(&name);
                    } else {
                        have.insert(name.clone(), r.of(&["f:nothing | d:nowhere", "l:none[E] | d:gone"]).into());
                    }
                    if r.chance(20) {
                        q.push(last(r, &["connection", "--id", &name, "join"], &["f:nothing | d:nowhere".to_string()]));
                    }
                    let text = match &want {
                        Value::String(x) => x.clone(),
                        // JSON, which is YAML as well
                        x => x.to_string(),
                    };
                    q.push(last(r, &["connection", "--id", &name, "join"], &[text]));
                }
            }
            if !q.is_empty() {
                queues.push(q);
            }
        }
    }
    if let Some(m) = start.as_object_mut() {
        if build {
            m.retain(|_, v| v.as_object().map(|x| !x.is_empty()).unwrap_or(true));
        }
    }
    let mut args: Vec<Vec<String>> = vec![];
    while !queues.is_empty() {
        let i = r.below(queues.len());
        args.push(queues[i].remove(0));
        queues.retain(|q| !q.is_empty());
    }
    if r.chance(50) || args.is_empty() {
        // what these print is the same pipeline
        for _ in 0..r.range(1, 3) {
            args.push(vec![r.of(&["lint", "manipulate", "manipulate"]).to_string()]);
        }
    }
    let n = args.len();
    let mut steps: Vec<Step> = vec![];
    for (i, a) in args.into_iter().enumerate() {
        let mut step = Step { args: a, yaml: r.chance(50), config_stdin: r.chance(40), hash_seed: r.u64(), ..Default::default() };
        if r.chance(15) {
            step.io = crate::gen::config_pieces(r);
        }
        if r.chance(15) {
            for _ in 0..r.range(1, 3) {
                step.io.out_max.push(r.of(&[1u32, 3, 50, 255, 1000]));
            }
        }
        if i + 1 < n && r.chance(5) || r.chance(3) {
            // the same command, but it cannot read or write: what comes after goes on from what was there before
            let mut no = step.clone();
            no.fails = true;
            no.hash_seed = r.u64();
            let verb = no.args.get(3).cloned().unwrap_or_default();
            match r.below(4) {
                // a value that is none
                0 | 2 if matches!(verb.as_str(), "watermark" | "env" | "join") => {
                    let at = no.args.len() - 1;
                    let bad = match verb.as_str() {
                        "watermark" => r.of(&["x", "", "1.5", "-3", "1e3", "99999999999999999999999"]),
                        "env" => r.of(&["NAME", "=value", ""]),
                        _ => r.of(&["f:a |", "f:a | Q | l:b", "x:a | d:b", "[{\"component_name\":\"a\"}]", "l:a[Z] | d:b", "f:a l:b", "12"]),
                    };
                    if !no.args.iter().any(|a| a == "--") && bad.starts_with('-') {
                        no.args.insert(4, "--".into());
                        no.args.pop();
                        no.args.push(bad.into());
                    } else {
                        no.args[at] = bad.into();
                    }
                }
                0 => no.io.err = Some((r.of(&[0u64, 1, 20, 100]), r.of(&[5, 21, 116]))),
                1 if !no.config_stdin => no.io.open_err = Some(r.of(&[ENOENT, EACCES, 24, 5])),
                _ => no.io.out_err = Some((r.of(&[0u64, 1, 10, 40]), r.of(&[EPIPE, ENOSPC, 5]))),
            }
            steps.push(no);
        }
        steps.push(step);
    }
    (start, steps)
}

//! Builders for graphs, data and timing.
use crate::case::{Case, Check};
use crate::rng::Rng;
use crate::topo::{render, End, Kind, Style, Topo};
use simcore::scenario::*;
use std::collections::BTreeSet;

pub struct B {
    pub t: Topo,
    pub sc: Scenario,
    pub r: Rng,
    pub style: Style,
    used: BTreeSet<(usize, String)>,
    plain_names: bool,
    /// whether very long lines may be made
    pub huge_ok: bool,
    /// a feed of very many lines is there
    pub lots: bool,
}

impl B {
    pub fn new(seed: u64) -> B {
        let mut r = Rng::new(seed);
        let style = Style::random(&mut r);
        let plain = r.chance(60);
        let mut b = B { t: Topo::default(), sc: Scenario::default(), r, style, used: BTreeSet::new(), plain_names: plain, huge_ok: false, lots: false };
        b.sc.hash_seed = b.r.u64();
        b.sc.sched_seed = b.r.u64();
        b
    }
    fn name(&mut self, k: Kind) -> String {
        let odd = [
            "junction_1", "dyn_drain_1", "junction_2", "dyn_drain_2", "f", "l", "O", "X", "_", "0", "A_b9", "out", "launch", "main",
            "dyn_connection_1", "T", "dyn_drain_1_1", "junction_1_1",
        ];
        for _ in 0..20 {
            let n = if !self.plain_names && self.r.chance(4) {
                format!("n{}_{}", self.r.below(40), "long".repeat(self.r.range(10, 120)))
            } else if !self.plain_names && matches!(k, Kind::Junction | Kind::Drain) && self.r.chance(30) {
                // as pa2 names what it adds itself
                format!("{}_{}", if k == Kind::Junction { "junction" } else { "dyn_drain" }, self.r.range(1, 4))
            } else if !self.plain_names && self.r.chance(50) {
                self.r.pick(&odd).to_string()
            } else {
                format!("{}{}", ["f", "l", "j", "b", "r", "d", "x"][self.r.below(7)], self.r.below(40))
            };
            if self.used.insert((k as usize, n.clone())) {
                return n;
            }
        }
        let n = format!("n{}", self.used.len());
        self.used.insert((k as usize, n.clone()));
        n
    }
    pub fn node(&mut self, k: Kind) -> usize {
        let n = self.name(k);
        self.t.add(k, &n)
    }
    pub fn file(&mut self, f: FileSpec) -> usize {
        let i = self.t.files.len();
        let path = match self.r.below(40) {
            0 => format!("-file{}", i),
            1 => format!("_file{}", i),
            2 => format!("./sub dir/{} x'\"#: é", i),
            3 => format!("dev/null{}", i),
            _ => format!("/sim/file{}", i),
        };
        self.t.files.push(path.clone());
        self.sc.files.push(FileSpec { path, ..f });
        i
    }
    pub fn faucet(&mut self, feed: Feed) -> usize {
        let n = self.node(Kind::Faucet);
        let i = self.file(FileSpec { feed: Some(feed), ..Default::default() });
        self.t.nodes[n].end = End::File(i);
        n
    }
    pub fn faucet_stdin(&mut self, feed: Feed) -> usize {
        let n = self.node(Kind::Faucet);
        self.t.nodes[n].end = End::Std;
        self.sc.stdin = feed;
        n
    }
    pub fn launch(&mut self, p: ProgSpec) -> usize {
        let n = self.node(Kind::Launch);
        let i = self.t.cmds.len();
        let cmd = format!("/sim/prog{}", i);
        self.t.cmds.push(cmd.clone());
        self.sc.progs.push(ProgSpec { cmd, ..p });
        self.t.nodes[n].prog = i;
        n
    }
    pub fn prog(&mut self, n: usize) -> &mut ProgSpec {
        let i = self.t.nodes[n].prog;
        &mut self.sc.progs[i]
    }
    pub fn drain(&mut self) -> usize {
        let n = self.node(Kind::Drain);
        let feed = if self.r.chance(30) {
            Some(Feed { segs: vec![Seg { s: "old content that has to go away\n".into(), n: 300, ..Default::default() }], ..Default::default() })
        } else {
            None
        };
        let i = self.file(FileSpec { feed, ..Default::default() });
        self.t.nodes[n].end = End::File(i);
        n
    }
    pub fn drain_std(&mut self, err: bool) -> usize {
        let n = self.node(Kind::Drain);
        self.t.nodes[n].end = if err { End::StdErr } else { End::Std };
        n
    }
    /// everything is thrown away
    pub fn drain_null(&mut self) -> usize {
        let n = self.node(Kind::Drain);
        self.t.nodes[n].end = End::Null;
        n
    }
    pub fn buffer(&mut self) -> usize {
        self.node(Kind::Buffer)
    }
    pub fn junction(&mut self) -> usize {
        self.node(Kind::Junction)
    }
    pub fn regulator(&mut self, low: usize, high: usize, bufs: Vec<usize>) -> usize {
        let n = self.node(Kind::Regulator);
        self.t.nodes[n].reg = Some((low, high, bufs));
        n
    }

    // -------------------------------------------------------------------------------------------- data
    /// bytes of a text payload; never contains a line end
    fn payload(&mut self, n: usize) -> String {
        const A: &[u8] = b"abcdefghijklmnopqrstuvwxyz ABCDEF;,.:-_|'\"\\{}[]\t";
        (0..n).map(|_| A[self.r.below(A.len())] as char).collect()
    }
    pub fn line_len(&mut self) -> usize {
        match self.r.below(20) {
            0 => 0,
            1..=9 => self.r.range(1, 20),
            10..=14 => self.r.range(20, 120),
            15 => self.r.of(&[253, 254, 255, 256, 257]),
            16 => {
                let b = 255 * self.r.range(1, 4);
                b.saturating_sub(self.r.below(12))
            }
            17 => self.r.range(250, 1100),
            18 => {
                if self.r.chance(20) {
                    self.r.range(4000, 20000)
                } else {
                    self.r.range(100, 600)
                }
            }
            _ => self.r.range(1, 8),
        }
    }
    /// A line with a unique header.
    pub fn tagged(&mut self, tag: &str, i: usize, len: usize, t: u8) -> Seg {
        let h = format!("{}.{};", tag, i);
        if len > 300 {
            Seg { s: h, n: len, t, ..Default::default() }
        } else {
            let p = self.payload(len);
            Seg { s: h + &p, t, ..Default::default() }
        }
    }
    pub fn tagged_feed(&mut self, tag: &str, lines: usize) -> Feed {
        let crlf = self.r.of(&[0usize, 0, 0, 30, 100]);
        let mut segs = vec![];
        for i in 0..lines {
            let t = if self.r.chance(crlf) { 2 } else { 1 };
            let n = self.line_len();
            segs.push(self.tagged(tag, i, n, t));
        }
        if lines > 0 && self.huge_ok && self.r.chance(4) {
            // a line larger than every buffer and pipe on its way
            let i = self.r.below(lines);
            let n = self.r.of(&[8_200usize, 33_000, 66_000, 130_000, 300_000]) + self.r.below(600);
            segs[i] = self.tagged(tag, i, n, segs[i].t);
        }
        if lines > 0 && self.r.chance(25) {
            segs.last_mut().unwrap().t = 0;
        }
        let gaps = self.gaps(lines);
        let eof_gap = if self.r.chance(20) { self.gap() } else { 0 };
        Feed { segs, gaps, eof_gap, err_at: None, ..Default::default() }
    }
    pub fn gap(&mut self) -> u64 {
        *self.r.pick(&[50u64, 900, 7_000, 60_000, 400_000, 2_000_000, 9_000_000, 70_000_000])
    }
    pub fn gaps(&mut self, n: usize) -> Vec<(usize, u64)> {
        let mut g = vec![];
        if n > 0 && self.r.chance(30) {
            for _ in 0..self.r.range(1, 3) {
                let at = self.r.below(n);
                if !g.iter().any(|(x, _)| *x == at) {
                    let d = self.gap();
                    g.push((at, d));
                }
            }
            g.sort();
        }
        g
    }
    /// arbitrary bytes
    pub fn blob(&mut self) -> Vec<Seg> {
        let mut segs = vec![];
        for _ in 0..self.r.range(0, 10) {
            let t = self.r.of(&[0u8, 1, 1, 1, 2]);
            let seg = match self.r.below(10) {
                0 => Seg { t, ..Default::default() },
                1 => {
                    let n = self.r.range(1, 40);
                    Seg { raw: (0..n).map(|_| self.r.below(256) as u8).collect(), t, ..Default::default() }
                }
                2 => {
                    let pat: &[u8] = self.r.of(&[&b"\r"[..], b"\n", b"\r\n", b"\n\r", b"\0", b"\n\n\n", b"\r\r\n\n", b"\xff\xfe", b"\xe2\x82"]);
                    let k = self.r.range(1, 30);
                    Seg { raw: pat.repeat(k), t, ..Default::default() }
                }
                3 => {
                    let base = 255 * self.r.range(1, 3);
                    Seg { n: base + self.r.below(6) - 3, t, ..Default::default() }
                }
                4 => Seg { n: self.r.range(1, 9000), t, ..Default::default() },
                5 => {
                    let n = if self.r.chance(15) { self.r.range(60_000, 140_000) } else { self.r.range(200, 600) };
                    Seg { n, t, ..Default::default() }
                }
                _ => {
                    let n = self.r.range(0, 60);
                    Seg { s: self.payload(n), t, ..Default::default() }
                }
            };
            segs.push(seg);
        }
        segs
    }
    pub fn blob_feed(&mut self) -> Feed {
        let segs = self.blob();
        let gaps = self.gaps(segs.len());
        let eof_gap = if self.r.chance(20) { self.gap() } else { 0 };
        Feed { segs, gaps, eof_gap, err_at: None, ..Default::default() }
    }
    pub fn emits(&mut self, port: u8, segs: Vec<Seg>) -> Vec<Emit> {
        let n = segs.len();
        let gaps = self.gaps(n);
        segs.into_iter()
            .enumerate()
            .map(|(i, seg)| Emit { port, seg, gap: gaps.iter().find(|g| g.0 == i).map(|g| g.1).unwrap_or(0) })
            .collect()
    }
    /// usual variation of a well-behaved program
    pub fn vary(&mut self, n: usize) {
        let cap = self.r.of(&[0usize, 0, 1, 16, 512, 4096]);
        let linger = if self.r.chance(15) { self.gap() } else { 0 };
        let close_first = self.r.chance(50);
        let block = if self.r.chance(15) { self.r.range(1, 600) } else { 0 };
        let slow = if self.r.chance(20) { self.r.of(&[10u64, 1000, 20_000]) } else { 0 };
        let start = if self.r.chance(15) { self.gap() } else { 0 };
        let code = if self.r.chance(20) { self.r.below(256) as i32 } else { 0 };
        let orphan = if self.r.chance(4) { self.gap() } else { 0 };
        let says = if orphan > 0 && self.r.chance(60) {
            let port = self.r.of(&[1u8, 2, 3]);
            let len = self.line_len();
            Some(Emit { port, seg: self.tagged(&format!("L{}", n), 0, len, 1), gap: 0 })
        } else {
            None
        };
        let p = self.prog(n);
        p.orphan = orphan;
        p.orphan_says = says;
        p.pipe_cap = cap;
        p.linger = linger;
        p.close_first = close_first;
        if p.block == 0 {
            p.block = block;
        }
        p.slow = slow;
        p.start = start;
        p.exit_code = code;
    }

    // -------------------------------------------------------------------------------------------- timing
    /// A random mixture of timing perturbations. `long`: also long delays inside pa2.
    pub fn timing(&mut self, long: bool) {
        use class::*;
        let mut c: Vec<Cls> = vec![(0, 0); COUNT];
        let max = if long { 11 } else { 7 };
        let prof = self.r.below(8);
        let some = |r: &mut Rng, p: &[u8], m: u32| -> Cls { (*r.pick(p), m) };
        let chop = prof == 1 || prof >= 5;
        let progs = prof == 2 || prof >= 5;
        let slow = prof == 3 || prof >= 6;
        let pool = prof == 4 || prof >= 6;
        let m1 = self.r.range(1, max) as u32;
        let m2 = self.r.range(1, max) as u32;
        let m3 = self.r.range(1, 8) as u32;
        let r = &mut self.r;
        if chop {
            let m = *r.pick(&[1u32, 2, 7, 64, 254]);
            c[SHORT_READ as usize] = some(r, &[0, 30, 90], m);
            let m = *r.pick(&[1u32, 3, 50, 512]);
            c[SHORT_WRITE as usize] = some(r, &[0, 30, 90], m);
            let m = *r.pick(&[1u32, 3, 50, 512]);
            c[PROG_FRAG as usize] = some(r, &[0, 30, 90], m);
            let m = *r.pick(&[1u32, 3, 50, 512]);
            c[PROG_READ as usize] = some(r, &[0, 30, 90], m);
            let m = *r.pick(&[1u32, 3, 50, 512]);
            c[FILE_SHORT as usize] = some(r, &[0, 30, 90], m);
        }
        if progs {
            c[PROG_START as usize] = some(r, &[0, 50], m3 + 2);
            c[PROG_STEP as usize] = some(r, &[10, 50, 90], m3);
            c[PROG_MIX as usize] = some(r, &[0, 50], 1);
            c[EXIT_NOTICE as usize] = some(r, &[0, 50], m3);
        }
        if slow {
            c[POLL_LAT as usize] = some(r, &[0, 20, 80], m1.min(6));
            c[OP_COST as usize] = some(r, &[0, 20, 80], m2.min(6));
            c[TIMER_LATE as usize] = some(r, &[0, 30], m1);
            c[SPURIOUS as usize] = some(r, &[0, 5], 1);
        }
        if pool {
            c[BLOCKING as usize] = some(r, &[0, 30, 90], m2);
        }
        c[TASK_PICK as usize] = (50, 64);
        self.sc.timing = Timing { cls: c };
    }
    /// with very long lines, no transport in single bytes
    fn tame(&mut self) {
        let long = |s: &Seg| s.n > 30_000;
        let huge = self.sc.files.iter().filter_map(|f| f.feed.as_ref()).any(|f| f.segs.iter().any(long))
            || self.sc.stdin.segs.iter().any(long)
            || self.sc.progs.iter().any(|p| p.emit.iter().any(|e| long(&e.seg)));
        if self.lots {
            for c in [class::SHORT_READ, class::SHORT_WRITE, class::PROG_FRAG, class::PROG_READ, class::FILE_SHORT] {
                let x = &mut self.sc.timing.cls[c as usize];
                if x.0 > 0 {
                    x.1 = x.1.max(64);
                }
            }
            for c in [class::POLL_LAT, class::OP_COST, class::BLOCKING, class::PROG_STEP] {
                let x = &mut self.sc.timing.cls[c as usize];
                x.1 = x.1.min(4);
            }
            for p in self.sc.progs.iter_mut() {
                if p.pipe_cap > 0 {
                    p.pipe_cap = p.pipe_cap.max(64);
                }
                if p.block > 0 {
                    p.block = p.block.max(32);
                }
                p.slow = p.slow.min(1000);
            }
        }
        if !huge {
            return;
        }
        for c in [class::SHORT_READ, class::SHORT_WRITE, class::PROG_FRAG, class::PROG_READ, class::FILE_SHORT] {
            let x = &mut self.sc.timing.cls[c as usize];
            if x.0 > 0 {
                x.1 = x.1.max(200);
            }
        }
        for c in [class::POLL_LAT, class::OP_COST, class::BLOCKING, class::PROG_STEP] {
            let x = &mut self.sc.timing.cls[c as usize];
            x.1 = x.1.min(5);
        }
        for p in self.sc.progs.iter_mut() {
            if p.pipe_cap > 0 {
                p.pipe_cap = p.pipe_cap.max(512);
            }
            if p.block > 0 {
                p.block = p.block.max(200);
            }
        }
    }
    pub fn finish(mut self, property: &str, family: &str, seed: u64, checks: Vec<Check>, shrink_data: bool) -> Case {
        if self.style.yaml {
            self.sc.yaml = true;
        }
        self.tame();
        let mut r = self.r.clone();
        if r.chance(35) {
            // failures of reads and writes that do not come again
            for f in self.sc.files.iter_mut() {
                f.sink.err_once = f.sink.err_at.is_some();
                if let Some(x) = f.feed.as_mut() {
                    x.err_once = x.err_at.is_some();
                }
            }
            self.sc.stdin.err_once = self.sc.stdin.err_at.is_some();
            for s in [&mut self.sc.stdout, &mut self.sc.stderr] {
                s.err_once = s.err_at.is_some();
                s.err_partial = s.err_once;
            }
            for p in self.sc.progs.iter_mut() {
                p.read_err_once = p.read_err.is_some();
            }
        }
        if !self.t.nodes.iter().any(|n| n.kind == Kind::Faucet && n.end == End::Std) {
            self.sc.config_stdin = r.chance(8);
        }
        let mut q = Rng::new(seed ^ 0xc0f1);
        if q.chance(10) {
            self.sc.config_io = config_pieces(&mut q);
        }
        // what counts is the order of priorities: the same order with other, and far larger, numbers
        if q.chance(40) {
            let k = q.below(3);
            let c = q.of(&[2i64, 3, 10, 40, 128, 1000, 65_536, 3_000_000_000]);
            for e in self.t.edges.iter_mut() {
                e.prio = match k {
                    0 => e.prio * c,
                    1 => e.prio.signum() * c.min(1000).pow(e.prio.unsigned_abs().min(6) as u32),
                    _ => e.prio.signum() * (c + e.prio.abs()),
                };
            }
        }
        self.sc.config = render(&self.t, &self.style, &mut r);
        Case {
            property: property.to_string(),
            family: family.to_string(),
            seed,
            topo: self.t,
            sc: self.sc,
            checks,
            variants: vec![],
            shrink_data,
        }
    }
}

/// The configuration arrives in pieces.
pub fn config_pieces(q: &mut Rng) -> simcore::scenario::ConfigIo {
    let mut io = simcore::scenario::ConfigIo::default();
    for _ in 0..q.range(1, 3) {
        io.max.push(q.of(&[1u32, 2, 7, 60, 255, 1000, 4095, 4096]));
    }
    io
}

/// What a random acyclic graph may contain.
#[derive(Clone, Debug)]
pub struct DagOpts {
    pub max_ops: usize,
    pub exits: bool,
    pub regulators: bool,
    pub stderr_drain: bool,
    pub max_lines: usize,
    pub vary: bool,
    pub need_drain: bool,
}
impl Default for DagOpts {
    fn default() -> Self {
        DagOpts { max_ops: 9, exits: true, regulators: true, stderr_drain: true, max_lines: 40, vary: true, need_drain: false }
    }
}

/// A random acyclic pipeline of well-behaved parts. Every line has a unique header per stream.
pub fn dag(b: &mut B, o: &DagOpts) {
    // open outputs: (node, port)
    let mut open: Vec<(usize, u8)> = vec![];
    let mut must: Vec<(usize, u8)> = vec![];
    // (more than 30 futures are polled in another way by join_all)
    let big = b.r.chance(4);
    let nsrc = if big { b.r.range(1, 40) } else { b.r.range(1, 3) };
    let mut stdin_used = false;
    for i in 0..nsrc {
        let lines = b.r.below(if big { 6 } else { o.max_lines + 1 });
        if b.r.chance(65) {
            let feed = b.tagged_feed(&format!("F{}", i), lines);
            let n = if !stdin_used && b.r.chance(40) {
                stdin_used = true;
                b.faucet_stdin(feed)
            } else {
                b.faucet(feed)
            };
            open.push((n, 0));
            must.push((n, 0));
        } else {
            let n = b.launch(ProgSpec { exit_on: 1, ..Default::default() });
            let mut emit = vec![];
            for k in 0..lines {
                let port = b.r.of(&[1u8, 1, 2]);
                let len = b.line_len();
                let seg = b.tagged(&format!("G{}", i), k, len, 1);
                emit.push(Emit { port, seg, gap: 0 });
            }
            if !emit.is_empty() && b.r.chance(30) {
                let g = b.gap();
                let k = b.r.below(emit.len());
                emit[k].gap = g;
            }
            if o.vary {
                b.vary(n);
            }
            b.prog(n).emit = emit;
            open.push((n, 0));
            open.push((n, 1));
            if o.exits {
                open.push((n, 2));
            }
            must.push((n, 0));
        }
    }
    let take = |b: &mut B, open: &Vec<(usize, u8)>, k: usize, must: &mut Vec<(usize, u8)>| -> Vec<(usize, u8)> {
        let mut v: Vec<(usize, u8)> = vec![];
        for _ in 0..k {
            // prefer what still needs a consumer
            let p = if !must.is_empty() && b.r.chance(if big { 97 } else { 70 }) { b.r.of(must) } else { b.r.of(open) };
                if !v.contains(&p) {
                v.push(p);
            }
        }
        must.retain(|p| !v.contains(p));
        v
    };
    let ops = if big { b.r.range(20, 70) } else { b.r.range(1, o.max_ops) };
    let kinds = if big { b.r.of(&[10usize, 10, 4, 7, 9]) } else { 10 };
    let mut buffers: Vec<usize> = vec![];
    let mut regs: Vec<usize> = vec![];
    for _ in 0..ops {
        let k = if !big {
            b.r.of(&[1usize, 1, 1, 2, 3])
        } else if b.r.chance(95) {
            1
        } else {
            b.r.range(2, 40)
        };
        match b.r.below(kinds) {
            0..=3 => {
                let ins = take(b, &open, k, &mut must);
                let route = (0..b.r.range(1, 4)).map(|_| b.r.below(4) as u8).collect();
                let n = b.launch(ProgSpec { rule: Rule::Lines { route }, ..Default::default() });
                if o.vary {
                    b.vary(n);
                    if b.r.chance(15) {
                        // has something to say once its input has ended (sort, wc)
                        let mut emit = vec![];
                        for i in 0..b.r.range(1, 30) {
                            let port = b.r.of(&[1u8, 1, 2]);
                            let len = b.line_len();
                            emit.push(Emit { port, seg: b.tagged(&format!("Z{}", n), i, len, 1), gap: 0 });
                        }
                        if b.r.chance(30) {
                            emit[0].gap = b.gap();
                        }
                        b.prog(n).emit = emit;
                        b.prog(n).emit_at_eof = true;
                    }
                    if b.r.chance(8) {
                        // closes an output early and goes on
                        let w = When::LinesOut(b.r.below(6) as u64);
                        let what = if b.r.chance(50) { What::CloseStdout } else { What::CloseStderr };
                        b.prog(n).acts.push((w, what));
                    }
                }
                for (s, p) in ins {
                    b.t.edge(s, p, n);
                }
                open.push((n, 0));
                open.push((n, 1));
                if o.exits {
                    open.push((n, 2));
                }
                if b.r.chance(80) {
                    must.push((n, 0));
                }
            }
            4..=6 => {
                let ins = take(b, &open, k, &mut must);
                let n = b.junction();
                for (s, p) in ins {
                    let e = b.t.edge(s, p, n);
                    if b.r.chance(30) {
                        b.t.edges[e].prio = b.r.below(5) as i64 - 2;
                    }
                }
                open.push((n, 0));
                must.push((n, 0));
            }
            7..=8 => {
                let ins = take(b, &open, k, &mut must);
                let n = b.buffer();
                buffers.push(n);
                for (s, p) in ins {
                    b.t.edge(s, p, n);
                }
                open.push((n, 0));
                must.push((n, 0));
            }
            _ => {
                if o.regulators {
                    let ins = take(b, &open, 1, &mut must);
                    let n = b.regulator(0, 0, vec![]);
                    regs.push(n);
                    for (s, p) in ins {
                        b.t.edge(s, p, n);
                    }
                    open.push((n, 0));
                    must.push((n, 0));
                }
            }
        }
    }
    // drains for what is left, and some more
    let mut stdout_used = false;
    let mut stderr_used = false;
    let extra = b.r.below(3);
    let mut guard = 0;
    let mut done_extra = 0;
    while (!must.is_empty() || done_extra < extra || (o.need_drain && !b.t.nodes.iter().any(|n| n.kind == Kind::Drain && n.end != End::Null))) && guard < if big { 200 } else { 40 } {
        guard += 1;
        if must.is_empty() {
            done_extra += 1;
        }
        let k = if big { b.r.of(&[1usize, 1, 1, 2, 8]) } else { b.r.of(&[1usize, 1, 2, 3]) };
        let ins = take(b, &open, k, &mut must);
        let n = if b.r.chance(9) {
            b.drain_null()
        } else if !stdout_used && b.r.chance(50) {
            stdout_used = true;
            b.drain_std(false)
        } else if !stderr_used && o.stderr_drain && b.r.chance(20) {
            stderr_used = true;
            b.drain_std(true)
        } else {
            b.drain()
        };
        for (s, p) in ins {
            b.t.edge(s, p, n);
        }
    }
    // regulators watch buffers that nobody else watches
    for rg in regs {
        // (a buffer that can only be emptied through the regulator would block it for good)
        let cnt = b.r.below(3);
        let mut mine = vec![];
        for _ in 0..cnt {
            let avail: Vec<usize> = buffers.iter().cloned().filter(|x| !b.t.downstream(*x)[rg]).collect();
            if !avail.is_empty() {
                let x = b.r.of(&avail);
                buffers.retain(|y| *y != x);
                mine.push(x);
            }
        }
        let low = b.r.below(6);
        let high = low + b.r.range(1, 10);
        b.t.nodes[rg].reg = if mine.is_empty() && b.r.chance(50) { None } else { Some((low, high, mine)) };
        if b.t.regulation_cycle() {
            b.t.nodes[rg].reg = Some((low, high, vec![]));
        }
    }
}

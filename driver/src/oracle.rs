//! Decides the checks of a case from the recorded history of one run.
use serde_json::{json, Map, Value};
use crate::case::{Case, Check, Finding, Mode};
use crate::exec::{End, Outcome};
use crate::topo::{self, Kind, Topo};
use simcore::hist::{self, k, Rec};
use simcore::scenario::{Feed, FileSpec, Rule, Scenario, Seg};
use simcore::shm::verdict;
use std::collections::*;

/// Bytes that passed one seam, with the time of every piece.
#[derive(Default, Clone)]
pub struct Track {
    pub data: Vec<u8>,
    /// (bytes so far, time)
    pub marks: Vec<(usize, u64)>,
}
impl Track {
    fn add(&mut self, r: &Rec) {
        self.data.extend_from_slice(&r.data);
        self.marks.push((self.data.len(), r.t));
    }
    /// bytes passed at time `t` (inclusive)
    pub fn len_at(&self, t: u64) -> usize {
        let i = self.marks.partition_point(|m| m.1 <= t);
        if i == 0 {
            0
        } else {
            self.marks[i - 1].0
        }
    }
    /// when the first `n` bytes had passed
    pub fn time_of(&self, n: usize) -> Option<u64> {
        if n == 0 {
            return Some(0);
        }
        let i = self.marks.partition_point(|m| m.0 < n);
        self.marks.get(i).map(|m| m.1)
    }
}

pub fn feed_bytes(f: &Feed) -> Vec<u8> {
    let mut v = vec![];
    for s in &f.segs {
        v.extend_from_slice(&s.bytes());
    }
    if let Some((at, _)) = f.err_at {
        v.truncate(at);
    }
    v
}
/// time at which byte `n` of a feed exists
pub fn feed_time(f: &Feed, n: usize) -> u64 {
    let mut t = 0;
    let mut len = 0;
    for (i, s) in f.segs.iter().enumerate() {
        for (gi, g) in &f.gaps {
            if *gi == i {
                t += g * 1000;
            }
        }
        len += s.s.len() + s.n + s.raw.len() + [0, 1, 2][s.t as usize];
        if n < len {
            return t;
        }
    }
    t + f.eof_gap * 1000
}

/// Whole lines; a last piece without line end is a message too.
pub fn messages(v: &[u8]) -> Vec<&[u8]> {
    let mut r = vec![];
    let mut from = 0;
    for (i, c) in v.iter().enumerate() {
        if *c == b'\n' {
            r.push(&v[from..=i]);
            from = i + 1;
        }
    }
    if from < v.len() {
        r.push(&v[from..]);
    }
    r
}

pub fn show(v: &[u8]) -> String {
    let s: String = v.iter().take(60).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
    if v.len() > 60 {
        format!("\"{}\"... ({} bytes)", s, v.len())
    } else {
        format!("\"{}\"", s)
    }
}

pub struct View<'a> {
    pub sc: &'a Scenario,
    pub t: &'a Topo,
    pub o: &'a Outcome,
    made: BTreeMap<u32, Track>,
    taken: BTreeMap<u32, Track>,
    given: BTreeMap<u32, Track>,
    read: BTreeMap<u32, Track>,
    files: Vec<Vec<u8>>,
    exists: Vec<bool>,
    paths: Vec<String>,
    extra: Option<String>,
    pub exits: BTreeMap<u32, (u64, i32)>,
    pub spawns: Vec<(u32, u32, u64, Vec<u8>)>,
    pub end_t: u64,
    empty: Track,
}

impl<'a> View<'a> {
    pub fn new(sc: &'a Scenario, t: &'a Topo, o: &'a Outcome) -> View<'a> {
        let mut v = View {
            sc,
            t,
            o,
            made: BTreeMap::new(),
            taken: BTreeMap::new(),
            given: BTreeMap::new(),
            read: BTreeMap::new(),
            files: sc.files.iter().map(|f| f.feed.as_ref().map(|x| { let mut y = x.clone(); y.err_at = None; feed_bytes(&y) }).unwrap_or_default()).collect(),
            exists: sc.files.iter().map(|f| f.feed.is_some()).collect(),
            paths: sc.files.iter().map(|f| f.path.clone()).collect(),
            extra: None,
            exits: BTreeMap::new(),
            spawns: vec![],
            end_t: o.sim_ns,
            empty: Track::default(),
        };
        for r in &o.hist {
            match r.kind {
                k::PROG_WRITE => v.made.entry(r.id).or_default().add(r),
                k::PA_READ => v.taken.entry(r.id).or_default().add(r),
                k::PA_WRITE => {
                    v.given.entry(r.id).or_default().add(r);
                    if r.id >= hist::S_FILE && r.id < hist::S_STDIN {
                        let i = (r.id - hist::S_FILE) as usize;
                        if let Some(c) = v.files.get_mut(i) {
                            let at = r.aux as usize;
                            if c.len() < at + r.data.len() {
                                c.resize(at + r.data.len(), 0);
                            }
                            c[at..at + r.data.len()].copy_from_slice(&r.data);
                        }
                    }
                }
                k::PROG_READ => v.read.entry(r.id).or_default().add(r),
                k::FILE_REMOVED => {
                    if let Some(i) = v.paths.iter().position(|p| p.as_bytes() == &r.data[..]) {
                        v.files[i].clear();
                        v.exists[i] = false;
                    }
                }
                k::FILE_LEN => {
                    if let Some(c) = v.files.get_mut((r.id - hist::S_FILE) as usize) {
                        c.resize(r.aux as usize, 0);
                    }
                }
                k::FILE_RENAMED => {
                    let (to, from) = ((r.id - hist::S_FILE) as usize, (r.aux - hist::S_FILE) as usize);
                    let c = v.files.get_mut(from).map(std::mem::take).unwrap_or_default();
                    if to < v.files.len() {
                        v.files[to] = c;
                        v.exists[to] = true;
                    }
                    if from < v.files.len() {
                        v.exists[from] = false;
                    }
                }
                k::UNKNOWN_PATH => {
                    // becomes a file of the world if it is opened to be created
                    v.extra = Some(String::from_utf8_lossy(&r.data).into_owned());
                }
                k::FILE_OPEN => {
                    let i = (r.id - hist::S_FILE) as usize;
                    if i == v.files.len() {
                        v.files.push(vec![]);
                        v.exists.push(false);
                        v.paths.push(v.extra.take().unwrap_or_default());
                    }
                    if r.aux == 0 && i < v.exists.len() {
                        v.exists[i] = true;
                    }
                    if r.aux == 0 && r.data.get(0).map(|f| f & 4 != 0).unwrap_or(false) && i < v.files.len() {
                        v.files[i].clear();
                    }
                }
                k::PROG_EXIT => {
                    v.exits.insert(r.id, (r.t, r.aux as i32));
                }
                k::SPAWN => v.spawns.push((r.id, r.aux, r.t, r.data.clone())),
                k::WORLD_END => v.end_t = r.t,
                _ => (),
            }
        }
        v
    }
    fn get<'b>(&'b self, m: &'b BTreeMap<u32, Track>, id: u32) -> &'b Track {
        m.get(&id).unwrap_or(&self.empty)
    }
    pub fn name(&self, n: usize) -> String {
        self.t.full_name(n)
    }
    fn port_name(&self, s: (usize, u8)) -> String {
        format!("{}{}", self.name(s.0), ["", "[E]", "[X]"][s.1 as usize])
    }
    /// stream id pa2 reads a source from
    fn src_id(&self, s: (usize, u8)) -> Option<u32> {
        let n = &self.t.nodes[s.0];
        match n.kind {
            Kind::Faucet => match n.end {
                topo::End::File(i) => Some(hist::S_FILE + i as u32),
                topo::End::Std => Some(hist::S_STDIN),
                _ => None,
            },
            Kind::Launch => match s.1 {
                0 => Some(hist::s_out(n.prog)),
                1 => Some(hist::s_err(n.prog)),
                _ => None,
            },
            _ => None,
        }
    }
    fn sink_id(&self, n: usize) -> Option<u32> {
        let x = &self.t.nodes[n];
        match x.kind {
            Kind::Drain => match x.end {
                topo::End::File(i) => Some(hist::S_FILE + i as u32),
                topo::End::Std => Some(hist::S_STDOUT),
                topo::End::StdErr => Some(hist::S_STDERR),
                _ => None,
            },
            Kind::Launch => Some(hist::s_in(x.prog)),
            _ => None,
        }
    }
    fn feed(&self, n: usize) -> Option<&Feed> {
        match self.t.nodes[n].end {
            topo::End::File(i) => self.sc.files[i].feed.as_ref(),
            topo::End::Std => Some(&self.sc.stdin),
            _ => None,
        }
    }
    /// everything a source produced in this run
    pub fn produced(&self, s: (usize, u8)) -> Vec<u8> {
        let n = &self.t.nodes[s.0];
        match n.kind {
            Kind::Faucet => match n.end {
                topo::End::File(i) if self.sc.files[i].open_err.is_some() => vec![],
                _ => self.feed(s.0).map(feed_bytes).unwrap_or_default(),
            },
            _ if s.1 == 2 => self.status_text(n.prog).into_bytes(),
            _ => {
                let mut d = self.get(&self.made, self.src_id(s).unwrap()).data.clone();
                if let Some((port, at, _)) = self.sc.progs[n.prog].read_err {
                    if port == s.1 + 1 {
                        d.truncate(at);
                    }
                }
                d
            }
        }
    }
    pub fn status_text(&self, prog: usize) -> String {
        match self.exits.get(&(prog as u32)) {
            Some((_, st)) if st & 0x7f == 0 => format!("{}", (st >> 8) & 0xff),
            Some(_) => "_".to_string(),
            None => String::new(),
        }
    }
    pub fn taken(&self, s: (usize, u8)) -> &Track {
        match self.src_id(s) {
            Some(id) => self.get(&self.taken, id),
            None => &self.empty,
        }
    }
    pub fn made_track(&self, s: (usize, u8)) -> &Track {
        self.get(&self.made, self.src_id(s).unwrap_or(u32::MAX))
    }
    pub fn given(&self, n: usize) -> &Track {
        match self.sink_id(n) {
            Some(id) => self.get(&self.given, id),
            None => &self.empty,
        }
    }
    pub fn prog_read(&self, n: usize) -> &Track {
        self.get(&self.read, hist::s_in(self.t.nodes[n].prog))
    }
    /// what a sink holds at the end
    pub fn content(&self, n: usize) -> Option<Vec<u8>> {
        let x = &self.t.nodes[n];
        match (x.kind, &x.end) {
            // (could not be opened: whatever was there before is none of pa2's business)
            (Kind::Drain, topo::End::File(i)) if self.sc.files[*i].create_err.is_some() => Some(vec![]),
            (Kind::Drain, topo::End::File(i)) => Some(self.files[*i].clone()),
            (Kind::Drain, topo::End::Std) => Some(self.o.stdout.clone()),
            (Kind::Drain, topo::End::StdErr) => Some(self.get(&self.given, hist::S_STDERR).data.clone()),
            (Kind::Drain, _) => None,
            (Kind::Launch, _) => Some(self.given(n).data.clone()),
            _ => None,
        }
    }
    pub fn sinks(&self) -> Vec<usize> {
        (0..self.t.nodes.len())
            .filter(|n| {
                let k = self.t.nodes[*n].kind;
                (k == Kind::Drain || k == Kind::Launch) && !self.t.ins(*n).is_empty() && self.content(*n).is_some()
            })
            .collect()
    }
    /// bytes on file descriptor 2 that are not data of a drain
    pub fn messages_on_stderr(&self) -> Vec<u8> {
        let d = &self.get(&self.given, hist::S_STDERR).data;
        // data of drains is written first, diagnostics come at the end
        if self.o.stderr.len() >= d.len() && self.o.stderr.starts_with(d) {
            self.o.stderr[d.len()..].to_vec()
        } else {
            self.o.stderr.clone()
        }
    }
    fn has(&self, f: impl Fn(&Rec) -> bool) -> bool {
        self.o.hist.iter().any(f)
    }
    /// opened for writing, or replaced
    fn written_file(&self, i: usize) -> bool {
        let id = hist::S_FILE + i as u32;
        self.has(|r| r.id == id && (r.kind == k::FILE_OPEN && r.aux == 0 && r.data[0] & 2 != 0 || r.kind == k::FILE_RENAMED))
    }
    pub fn exit_code(&self) -> Option<i32> {
        match self.o.end {
            End::Exit(c) => Some(c),
            _ => None,
        }
    }
}

/// One input of a merged stream.
struct Src<'a> {
    name: String,
    msgs: Vec<&'a [u8]>,
}

/// Is `content` an interleaving of the messages of `srcs`?
fn interleaved(content: &[u8], srcs: &[Src], mode: &Mode) -> Result<(), String> {
    let mut idx = vec![0usize; srcs.len()];
    // (position, source taken, alternatives left)
    let mut stack: Vec<(usize, usize, Vec<usize>)> = vec![];
    let mut pos = 0;
    let mut steps = 0usize;
    let mut best = (0usize, String::new());
    loop {
        steps += 1;
        if steps > 3_000_000 {
            return Ok(()); // undecided
        }
        let rest = &content[pos..];
        let mut fail: Option<String> = None;
        if rest.is_empty() {
            let missing = (0..srcs.len()).find(|i| idx[*i] < srcs[*i].msgs.len());
            match (mode, missing) {
                (Mode::Prefix, _) | (_, None) => return Ok(()),
                (_, Some(i)) => {
                    fail = Some(format!(
                        "message {} of {} is missing: {} (of {} messages)",
                        idx[i],
                        srcs[i].name,
                        show(srcs[i].msgs[idx[i]]),
                        srcs[i].msgs.len()
                    ))
                }
            }
        }
        let mut cand: Vec<usize> = vec![];
        if fail.is_none() {
            for i in 0..srcs.len() {
                if let Some(m) = srcs[i].msgs.get(idx[i]) {
                    if rest.starts_with(m) && !cand.iter().any(|c: &usize| idx[*c] + 1 == srcs[*c].msgs.len() && idx[i] + 1 == srcs[i].msgs.len() && srcs[*c].msgs[idx[*c]] == *m) {
                        cand.push(i);
                    }
                }
            }
            if cand.is_empty() {
                if *mode == Mode::Prefix
                    && (0..srcs.len()).any(|i| srcs[i].msgs.get(idx[i]).map(|m| m.starts_with(rest)).unwrap_or(false))
                {
                    return Ok(());
                }
                let end = rest.iter().position(|c| *c == b'\n').map(|p| p + 1).unwrap_or(rest.len());
                let line = &rest[..end];
                let mut why = String::from("which is not a message of any source");
                for s in srcs.iter() {
                    if let Some(p) = s.msgs.iter().position(|m| *m == line) {
                        why = format!("which is message {} of {}, expected message {} now", p, s.name, idx[srcs.iter().position(|x| x.name == s.name).unwrap()]);
                    }
                }
                fail = Some(format!("at byte {}: {} {}", pos, show(line), why));
            }
        }
        match fail {
            None => {
                let c = cand.remove(0);
                let l = srcs[c].msgs[idx[c]].len();
                stack.push((pos, c, cand));
                idx[c] += 1;
                pos += l;
            }
            Some(f) => {
                if best.1.is_empty() || pos > best.0 {
                    best = (pos, f);
                }
                // go back
                loop {
                    match stack.pop() {
                        None => return Err(best.1),
                        Some((p, c, mut alt)) => {
                            idx[c] -= 1;
                            pos = p;
                            if !alt.is_empty() {
                                let n = alt.remove(0);
                                let l = srcs[n].msgs[idx[n]].len();
                                stack.push((p, n, alt));
                                idx[n] += 1;
                                pos += l;
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
}

fn f(code: &str, msg: String) -> Finding {
    Finding { code: code.to_string(), msg }
}

fn describe_end(o: &Outcome) -> String {
    match (&o.end, o.verdict) {
        (_, verdict::HANG) => format!("pa2 is stuck: nothing happens any more at {:.3} s of simulated time", o.sim_ns as f64 / 1e9),
        (_, verdict::STEP_LIMIT) => format!("pa2 keeps running without an end ({} polls, {:.3} s of simulated time)", o.polls, o.sim_ns as f64 / 1e9),
        (_, verdict::SPIN) => "pa2 busy-loops".to_string(),
        (End::Exit(c), _) => format!("pa2 exited with {}", c),
        (End::Signal(s), _) => format!("pa2 was killed by signal {}", s),
        (e, v) => format!("{:?} verdict {}", e, v),
    }
}
fn err_text(o: &Outcome) -> String {
    let s: String = String::from_utf8_lossy(&o.stderr).chars().take(300).collect();
    s.replace('\n', " ").trim().to_string()
}

pub fn data_check(v: &View, node: usize, mode: &Mode) -> Option<Finding> {
    let content = v.content(node)?;
    let feeds = v.t.feeds(node);
    let bytes: Vec<(String, Vec<u8>)> = feeds.iter().map(|s| (v.port_name(*s), v.produced(*s))).collect();
    let name = v.name(node);
    if bytes.len() == 1 {
        let e = &bytes[0].1;
        let ok = match mode {
            Mode::Complete => *e == content,
            Mode::Prefix => e.starts_with(&content),
        };
        if !ok {
            let at = content.iter().zip(e.iter()).position(|(a, b)| a != b).unwrap_or(content.len().min(e.len()));
            return Some(f(
                "data",
                format!(
                    "{} received {} bytes, {} produced {}; first difference at byte {}: received {} expected {}",
                    name,
                    content.len(),
                    bytes[0].0,
                    e.len(),
                    at,
                    show(&content[at..]),
                    show(&e[at..])
                ),
            ));
        }
        return None;
    }
    let srcs: Vec<Src> = bytes.iter().map(|(n, b)| Src { name: n.clone(), msgs: messages(b) }).collect();
    match interleaved(&content, &srcs, mode) {
        Ok(()) => None,
        Err(e) => Some(f("data", format!("{} is not an interleaving of whole messages of its sources: {}", name, e))),
    }
}

/// (source stream, node) a line at a sink came from is found by looking it up
fn line_order(v: &View, sink: usize, of: &[(usize, u8)]) -> Vec<(usize, usize, usize)> {
    // (index in `of`, line number, end offset in the sink)
    let mut map: std::collections::HashMap<Vec<u8>, (usize, usize)> = Default::default();
    for (i, s) in of.iter().enumerate() {
        let p = v.produced(*s);
        for (j, m) in messages(&p).into_iter().enumerate() {
            map.insert(m.to_vec(), (i, j));
        }
    }
    let c = v.content(sink).unwrap_or_default();
    let mut r = vec![];
    let mut off = 0;
    for m in messages(&c) {
        off += m.len();
        if let Some((i, j)) = map.get(m) {
            r.push((*i, *j, off));
        }
    }
    r
}

fn longest_internal_wait(v: &View) -> (u64, u64, String) {
    // the longest time nothing happened although nothing outside of pa2 was to be waited for
    let mut prev = 0u64;
    let mut worst = (0u64, 0u64, String::new());
    let mut pos: BTreeMap<u32, usize> = BTreeMap::new();
    for r in &v.o.hist {
        let outside = matches!(r.kind, k::PROG_READ | k::PROG_EOF | k::PROG_WRITE | k::PROG_CLOSE | k::PROG_EXIT | k::FAULT | k::TICK | k::PROG_EPIPE);
        let mut since = prev;
        if r.kind == k::PA_READ || r.kind == k::PA_EOF || r.kind == k::PA_READ_ERR {
            let feed = if r.id == hist::S_STDIN {
                Some(&v.sc.stdin)
            } else if r.id >= hist::S_FILE && r.id < hist::S_STDIN {
                v.sc.files.get((r.id - hist::S_FILE) as usize).and_then(|f| f.feed.as_ref())
            } else {
                None
            };
            if let Some(fd) = feed {
                let p = pos.entry(r.id).or_insert(0);
                since = since.max(feed_time(fd, *p));
                *p += r.data.len();
            }
        }
        if !outside && r.t > since && r.t - since > worst.0 {
            worst = (r.t - since, r.t, format!("kind {} stream {:#x}", r.kind, r.id));
        }
        if r.kind != k::TICK {
            prev = r.t;
        }
    }
    worst
}

pub fn evaluate(case: &Case, o: &Outcome, sc: &Scenario) -> Vec<Finding> {
    let v = View::new(sc, &case.topo, o);
    let mut out = vec![];
    for c in &case.checks {
        if let Some(x) = check(&v, c) {
            out.push(x)
        }
    }
    out
}

fn check(v: &View, c: &Check) -> Option<Finding> {
    let o = v.o;
    match c {
        Check::Ends => match o.end {
            End::Exit(_) => None,
            _ => Some(f("ends", describe_end(o))),
        },
        Check::ExitZero => match v.exit_code() {
            Some(0) => None,
            Some(n) => Some(f("exit", format!("pa2 exited with {} although nothing failed: {}", n, err_text(o)))),
            None => Some(f("ends", describe_end(o))),
        },
        Check::ExitNonZero => match v.exit_code() {
            Some(0) => Some(f("exit", "pa2 exited with 0 although it failed".into())),
            Some(_) => None,
            None => Some(f("ends", describe_end(o))),
        },
        Check::QuietStderr => {
            let m = v.messages_on_stderr();
            if m.is_empty() {
                None
            } else {
                Some(f("stderr", format!("unexpected output on stderr: {}", show(&m))))
            }
        }
        Check::Reports { names } => {
            if v.exit_code() == Some(0) || v.exit_code().is_none() {
                return None;
            }
            let m = String::from_utf8_lossy(&v.messages_on_stderr()).to_string();
            if m.trim().is_empty() {
                return Some(f("report", "pa2 failed without saying anything on stderr".into()));
            }
            let low = m.to_lowercase();
            for n in names {
                if !has_word(&low, &n.to_lowercase()) {
                    return Some(f("report", format!("the message on stderr does not name {}: {}", n, m.replace('\n', " ").trim())));
                }
            }
            None
        }
        Check::PureStdout => {
            let d = &v.get(&v.given, hist::S_STDOUT).data;
            let drains: Vec<usize> = (0..v.t.nodes.len()).filter(|n| v.t.nodes[*n].kind == Kind::Drain && v.t.nodes[*n].end == topo::End::Std).collect();
            if drains.is_empty() && !o.stdout.is_empty() {
                return Some(f("stdout", format!("output on stdout although no drain writes there: {}", show(&o.stdout))));
            }
            if o.stdout != *d {
                let at = o.stdout.iter().zip(d.iter()).position(|(a, b)| a != b).unwrap_or(d.len().min(o.stdout.len()));
                return Some(f("stdout", format!("stdout holds something that is not data of a drain: {}", show(&o.stdout[at..]))));
            }
            None
        }
        Check::Data { node, mode } => data_check(v, *node, mode),
        Check::AllData { mode } => v.sinks().into_iter().filter_map(|n| data_check(v, n, mode)).next(),
        Check::Same { nodes } => {
            let a = v.content(*nodes.first()?)?;
            for n in &nodes[1..] {
                let b = v.content(*n)?;
                if a != b {
                    let at = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                    return Some(f(
                        "same",
                        format!("{} and {} differ at byte {} ({} / {} bytes)", v.name(nodes[0]), v.name(*n), at, a.len(), b.len()),
                    ));
                }
            }
            None
        }
        Check::InputsEnded => {
            for n in 0..v.t.nodes.len() {
                if v.t.nodes[n].kind == Kind::Launch && !v.t.ins(n).is_empty() {
                    let p = v.t.nodes[n].prog;
                    if !v.has(|r| r.kind == k::PROG_EOF && r.id == hist::s_in(p)) {
                        return Some(f("eof", format!("{} never saw the end of its input", v.name(n))));
                    }
                }
            }
            None
        }
        Check::EndBound { us } => {
            let w = longest_internal_wait(v);
            if w.0 > us * 1000 {
                Some(f("slow", format!("nothing happened for {:.3} s up to {:.3} s ({}) although nothing outside pa2 was to be waited for", w.0 as f64 / 1e9, w.1 as f64 / 1e9, w.2)))
            } else {
                None
            }
        }
        Check::EndWithin { us } => {
            if v.end_t > us * 1000 || v.exit_code().is_none() {
                return Some(f("slow", format!("{} at {:.3} s, expected an end within {:.3} s", describe_end(o), v.end_t as f64 / 1e9, *us as f64 / 1e6)));
            }
            None
        }
        Check::Latency { us } => latency(v, *us),
        Check::Launches => launches(v),
        Check::Refused { names } => refused(v, names),
        Check::UnusedUntouched => unused_untouched(v),
        Check::Outlives => {
            if v.exit_code() != Some(0) {
                return None;
            }
            for (p, aux, _, _) in &v.spawns {
                if *aux == 0 && !v.exits.contains_key(p) {
                    let n = v.t.nodes.iter().position(|x| x.kind == Kind::Launch && x.prog == *p as usize);
                    return Some(f("outlives", format!("pa2 exited with 0 at {:.3} s while {} was still running", v.end_t as f64 / 1e9, n.map(|n| v.name(n)).unwrap_or_default())));
                }
            }
            None
        }
        Check::ExitStatus { launch, sink } => exit_status(v, *launch, *sink),
        Check::SuccessMeansAll => {
            if v.exit_code() != Some(0) {
                return None;
            }
            for n in 0..v.t.nodes.len() {
                if v.t.nodes[n].kind == Kind::Drain {
                    if let Some(x) = data_check(v, n, &Mode::Complete) {
                        return Some(f("success", format!("pa2 exited with 0 but {}", x.msg)));
                    }
                    if let topo::End::File(i) = v.t.nodes[n].end {
                        if !v.written_file(i) {
                            return Some(f("success", format!("pa2 exited with 0 but {} was never created", v.name(n))));
                        }
                    }
                }
            }
            None
        }
        Check::InFlight { src, port, dst, bytes } => {
            // the consumer that is ahead counts
            let t = v.taken((*src, *port));
            if let Some(d) = dst.iter().max_by_key(|d| v.given(**d).data.len()) {
                let mut worst = (0usize, 0u64);
                for (n, at) in &t.marks {
                    let fl = n.saturating_sub(dst.iter().map(|d| v.given(*d).len_at(*at)).max().unwrap_or(0));
                    if fl > worst.0 {
                        worst = (fl, *at);
                    }
                }
                if worst.0 > *bytes {
                    return Some(f(
                        "inflight",
                        format!(
                            "at {:.3} s pa2 had taken {} bytes more from {} than it had handed to {} (allowed: {})",
                            worst.1 as f64 / 1e9,
                            worst.0,
                            v.port_name((*src, *port)),
                            v.name(*d),
                            bytes
                        ),
                    ));
                }
            }
            None
        }
        Check::TakenBy { src, port, by } => {
            let all = v.produced((*src, *port)).len();
            let t = v.taken((*src, *port));
            let have = t.len_at(by * 1000);
            if t.data.len() < all || have < all {
                return Some(f(
                    "absorb",
                    format!("at {:.3} s only {} of {} bytes of {} had been taken in", *by as f64 / 1e6, have, all, v.port_name((*src, *port))),
                ));
            }
            None
        }
        Check::Idle { polls_per_s, after_us, min_us } => idle(v, *polls_per_s, *after_us, *min_us),
        Check::Priority { sink, hi, lo, slack, skip } => {
            // once everything waits (skip lines), `hi` is drained before `lo` gets more than `slack` further lines
            let mut of = hi.clone();
            of.extend(lo.iter().cloned());
            let order = line_order(v, *sink, &of);
            let total_hi: usize = hi.iter().map(|s| messages(&v.produced(*s)).len()).sum();
            let mut seen_hi = 0;
            let mut seen_lo = 0;
            let mut lo_base = None;
            for (i, _, _) in order {
                if i < hi.len() {
                    seen_hi += 1;
                } else {
                    seen_lo += 1;
                }
                if lo_base.is_none() && seen_hi + seen_lo >= *skip {
                    lo_base = Some(seen_lo);
                }
                if let Some(b) = lo_base {
                    if seen_hi + slack < total_hi && seen_lo > b + slack {
                        return Some(f(
                            "priority",
                            format!(
                                "{} got {} lines of less preferred inputs while {} lines of the preferred ones were still to come",
                                v.name(*sink),
                                seen_lo - b,
                                total_hi - seen_hi
                            ),
                        ));
                    }
                }
            }
            None
        }
        Check::Fair { sink, of, slack, skip } => {
            let order = line_order(v, *sink, of);
            let totals: Vec<usize> = of.iter().map(|s| messages(&v.produced(*s)).len()).collect();
            let mut seen = vec![0usize; of.len()];
            for (n, (i, _, _)) in order.iter().enumerate() {
                seen[*i] += 1;
                if n < *skip {
                    continue;
                }
                // compare those that still have data waiting
                for a in 0..of.len() {
                    for b in 0..of.len() {
                        if seen[a] + slack < seen[b] && totals[a] > seen[a] + slack {
                            return Some(f(
                                "fair",
                                format!(
                                    "after {} lines {} had {} lines of {} but only {} of {} although both were waiting",
                                    n + 1,
                                    v.name(*sink),
                                    seen[b],
                                    v.port_name(of[b]),
                                    seen[a],
                                    v.port_name(of[a])
                                ),
                            ));
                        }
                    }
                }
            }
            None
        }
        Check::ArrivedBy { sink, of, by } => {
            let total = messages(&v.produced(*of)).len();
            let order = line_order(v, *sink, &[*of]);
            let g = v.given(*sink);
            let n = order.iter().filter(|(_, _, off)| g.time_of(*off).map(|t| t <= by * 1000).unwrap_or(false)).count();
            if n < total {
                return Some(f(
                    "starved",
                    format!("at {:.3} s only {} of {} lines of {} had reached {}", *by as f64 / 1e6, n, total, v.port_name(*of), v.name(*sink)),
                ));
            }
            None
        }
        Check::Gated { src, port, fill, low, high, slack, after } => gated(v, (*src, *port), fill, *low, *high, *slack, *after),
        Check::Watermark { src, port, dst, low, high, slack } => watermark(v, (*src, *port), dst, *low, *high, *slack),
        Check::StoppedEarly { src, port, who, bytes } => {
            // how much was taken in after the last consumer had closed its input
            let mut last = 0u64;
            for w in who {
                let p = v.t.nodes[*w].prog;
                let at = v.o.hist.iter().find(|r| r.kind == k::PROG_CLOSE && r.id == hist::s_in(p)).map(|r| r.t)?;
                last = last.max(at);
            }
            let t = v.taken((*src, *port));
            let more = t.data.len() - t.len_at(last);
            if more > *bytes {
                return Some(f(
                    "early",
                    format!(
                        "pa2 took {} bytes more of {} after its last consumer had gone at {:.3} s (allowed: {})",
                        more,
                        v.port_name((*src, *port)),
                        last as f64 / 1e9,
                        bytes
                    ),
                ));
            }
            None
        }
        Check::IfUndelivered { node, then } => {
            let feeds = v.t.feeds(*node);
            let all: usize = feeds.iter().map(|s| v.produced_possible(*s)).sum();
            // What a connection has taken (and queued) when its consumer goes is lost like what is in the
            // program's own pipe; the sender, if it has nothing more to send by then, has nothing to notice.
            let longest = feeds.iter().flat_map(|s| messages(&v.produced(*s)).iter().map(|m| m.len()).max()).max().unwrap_or(0).max(200);
            let queued = (8 * v.t.ins(*node).len().max(1) + 12) * longest;
            if v.given(*node).data.len() + queued < all {
                then.iter().filter_map(|c| check(v, c)).next()
            } else {
                None
            }
        }
        Check::IfUndeliveredOf { node, tag, then } => {
            let of = |d: &[u8]| messages(d).iter().filter(|m| m.starts_with(tag.as_bytes())).map(|m| m.len()).collect::<Vec<_>>();
            let feeds = v.t.feeds(*node);
            let all: Vec<usize> = feeds.iter().flat_map(|s| of(&v.produced(*s))).collect();
            let longest = all.iter().cloned().max().unwrap_or(0).max(200);
            let queued = (8 * v.t.ins(*node).len().max(1) + 12) * longest;
            if of(&v.given(*node).data).iter().sum::<usize>() + queued < all.iter().sum() {
                then.iter().filter_map(|c| check(v, c)).next()
            } else {
                None
            }
        }
        Check::Crashes { .. } => None,
        Check::Undisturbed { launch } => {
            let p = v.t.nodes[*launch].prog;
            match v.exits.get(&(p as u32)) {
                None => Some(f("disturbed", format!("{} did not run to its end", v.name(*launch)))),
                Some((_, st)) => {
                    let want = (v.sc.progs[p].exit_code & 0xff) << 8;
                    if *st != want {
                        Some(f("disturbed", format!("{} ended with status {:#x} instead of {:#x}", v.name(*launch), st, want)))
                    } else {
                        None
                    }
                }
            }
        }
        Check::ReadFully { src, port } => {
            let all = v.produced((*src, *port)).len();
            let t = v.taken((*src, *port)).data.len();
            let id = v.src_id((*src, *port))?;
            if t < all || !v.has(|r| r.kind == k::PA_EOF && r.id == id) {
                return Some(f("unread", format!("only {} of {} bytes of {} were read, end of input seen: {}", t, all, v.port_name((*src, *port)), v.has(|r| r.kind == k::PA_EOF && r.id == id))));
            }
            None
        }
        Check::Loop { prog, seeds } => loop_check(v, *prog, seeds),
        Check::IfWriteFailed { node, then } => {
            let id = v.sink_id(*node)?;
            if v.has(|r| r.kind == k::PA_WRITE_ERR && r.id == id) {
                then.iter().filter_map(|c| check(v, c)).next()
            } else {
                None
            }
        }
        Check::IfExitZero { then } => {
            if v.exit_code() == Some(0) {
                then.iter().filter_map(|c| check(v, c)).next()
            } else {
                None
            }
        }
        Check::IfFault { kind, then } => {
            if v.has(|r| r.kind == k::FAULT && r.aux == *kind) {
                then.iter().filter_map(|c| check(v, c)).next()
            } else {
                None
            }
        }
        Check::SameAs | Check::Rewritten => None,
    }
}

fn has_word(hay: &str, needle: &str) -> bool {
    let b = hay.as_bytes();
    let mut from = 0;
    while let Some(p) = hay[from..].find(needle) {
        let i = from + p;
        let e = i + needle.len();
        let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
        if (i == 0 || !word(b[i - 1])) && (e >= b.len() || !word(b[e])) {
            return true;
        }
        from = i + 1;
    }
    false
}

impl<'a> View<'a> {
    /// what a source would have produced had nobody stopped it
    pub fn produced_possible(&self, s: (usize, u8)) -> usize {
        let n = &self.t.nodes[s.0];
        match n.kind {
            Kind::Launch if s.1 < 2 => {
                let p = &self.sc.progs[n.prog];
                p.emit.iter().filter(|e| e.port & (1 << s.1) != 0).map(|e| e.seg.bytes().len()).sum::<usize>().max(self.get(&self.made, self.src_id(s).unwrap()).data.len())
            }
            _ => self.produced(s).len(),
        }
    }
}

/// Every byte reaches the next program or drain within the bound after it was available. Only for straight
/// stretches: one source, relays, one sink whose consumer is always ready.
fn latency(v: &View, us: u64) -> Option<Finding> {
    for n in v.sinks() {
        let feeds = v.t.feeds(n);
        let g = v.given(n);
        for s in feeds.iter().cloned().filter(|s| s.1 != 2) {
        let mut ends: Vec<(usize, Option<usize>)> = vec![];
        {
            let p = v.produced(s);
            let mut o = 0;
            let mut from = 0;
            for m in messages(&p) {
                o += m.len();
                // in a merged stream: where it is (lines are unique there)
                let at = if feeds.len() == 1 {
                    Some(o)
                } else if g.data.len() < from {
                    None
                } else {
                    g.data[from..].windows(m.len().max(1)).position(|w| w == m).map(|x| from + x + m.len())
                };
                if let Some(x) = at {
                    from = x;
                }
                ends.push((o, at));
            }
        }
        // time the whole line was available
        for (e, at) in ends {
            let avail = if v.t.nodes[s.0].kind == Kind::Faucet {
                match v.feed(s.0) {
                    Some(fd) => Some(feed_time(fd, e - 1)),
                    None => None,
                }
            } else {
                v.made_track(s).time_of(e)
            };
            let avail = match avail {
                Some(a) => a,
                None => continue,
            };
            match at.and_then(|x| g.time_of(x)) {
                Some(t) => {
                    if t > avail + us * 1000 {
                        return Some(f(
                            "latency",
                            format!(
                                "data available from {} at {:.3} s reached {} at {:.3} s",
                                v.port_name(s),
                                avail as f64 / 1e9,
                                v.name(n),
                                t as f64 / 1e9
                            ),
                        ));
                    }
                }
                None => {
                    if v.end_t > avail + us * 1000 {
                        return Some(f(
                            "latency",
                            format!("data available from {} at {:.3} s never reached {}", v.port_name(s), avail as f64 / 1e9, v.name(n)),
                        ));
                    }
                }
            }
        }
        }
    }
    None
}

/// something pa2 did to the world around it
fn effect(v: &View, r: &Rec) -> Option<String> {
    let stream = |id: u32| -> String {
        if id == hist::S_STDIN {
            "stdin".into()
        } else if id == hist::S_STDOUT {
            "stdout".into()
        } else if id >= hist::S_FILE && id < hist::S_STDIN {
            v.sc.files.get((id - hist::S_FILE) as usize).map(|f| f.path.clone()).unwrap_or_default()
        } else {
            format!("a stream of program {}", id)
        }
    };
    match r.kind {
        k::SPAWN => Some(format!("program {} was started", r.id)),
        k::FILE_OPEN => Some(format!("{} was opened", stream(r.id))),
        k::FILE_LEN => Some(format!("the length of {} was set", stream(r.id))),
        k::FILE_RENAMED => Some(format!("{} was replaced", stream(r.id))),
        k::FILE_REMOVED => Some(format!("{} was removed", String::from_utf8_lossy(&r.data))),
        k::PA_READ | k::PA_EOF | k::PA_READ_ERR => Some(format!("{} was read", stream(r.id))),
        k::PA_WRITE | k::PA_WRITE_ERR if r.id != hist::S_STDERR => Some(format!("{} was written", stream(r.id))),
        _ => None,
    }
}
fn refused(v: &View, names: &[String]) -> Option<Finding> {
    let o = v.o;
    if let Some(x) = o.hist.iter().find_map(|r| effect(v, r)) {
        return Some(f("refused", format!("{} although the configuration cannot be run", x)));
    }
    if !o.stdout.is_empty() {
        return Some(f("refused", format!("the configuration cannot be run, but stdout holds {}", show(&o.stdout))));
    }
    match v.exit_code() {
        Some(0) => return Some(f("refused", "pa2 exited with 0 although the configuration cannot be run".into())),
        Some(_) => (),
        None => return Some(f("ends", describe_end(o))),
    }
    let m = String::from_utf8_lossy(&o.stderr).to_string();
    if m.trim().is_empty() {
        return Some(f("refused", "the configuration cannot be run, but nothing on stderr says so".into()));
    }
    let low = m.to_lowercase();
    for n in names {
        if !has_word(&low, &n.to_lowercase()) {
            return Some(f("refused", format!("the message on stderr does not name {}: {}", n, m.replace('\n', " ").trim())));
        }
    }
    None
}
fn unused_untouched(v: &View) -> Option<Finding> {
    for n in 0..v.t.nodes.len() {
        if !v.t.ins(n).is_empty() || !v.t.outs(n).is_empty() {
            continue;
        }
        let x = &v.t.nodes[n];
        let hit = v.o.hist.iter().find(|r| match (x.kind, &x.end) {
            (Kind::Launch, _) => r.kind == k::SPAWN && r.id == x.prog as u32,
            (_, topo::End::File(i)) => r.id == hist::S_FILE + *i as u32 && matches!(r.kind, k::FILE_OPEN | k::PA_READ | k::PA_WRITE | k::FILE_LEN | k::FILE_RENAMED),
            (Kind::Faucet, topo::End::Std) => r.id == hist::S_STDIN && matches!(r.kind, k::PA_READ | k::PA_EOF),
            _ => false,
        });
        if let Some(r) = hit {
            return Some(f("unused", format!("{} is in no connection, but {}", v.name(n), effect(v, r).unwrap_or_default())));
        }
    }
    None
}
fn launches(v: &View) -> Option<Finding> {
    for n in 0..v.t.nodes.len() {
        let x = &v.t.nodes[n];
        if x.kind != Kind::Launch {
            continue;
        }
        let connected = !v.t.ins(n).is_empty() || !v.t.outs(n).is_empty();
        let calls: Vec<&(u32, u32, u64, Vec<u8>)> = v.spawns.iter().filter(|s| s.0 == x.prog as u32).collect();
        if !connected {
            if !calls.is_empty() {
                return Some(f("launch", format!("{} was started {} times", v.name(n), calls.len())));
            }
            continue;
        }
        if calls.len() != 1 {
            return Some(f("launch", format!("{} was started {} times", v.name(n), calls.len())));
        }
        let j: serde_json::Value = match serde_json::from_slice(&calls[0].3) {
            Ok(j) => j,
            Err(_) => return Some(f("launch", "unreadable launch record".into())),
        };
        if j["cmd"] != serde_json::json!(v.t.cmds[x.prog]) {
            return Some(f("launch", format!("{} was started as {}", v.name(n), j["cmd"])));
        }
        if j["args"] != serde_json::json!(x.arg) {
            return Some(f("launch", format!("{} was started with arguments {} instead of {:?}", v.name(n), j["args"], x.arg)));
        }
        let want_dir = x.path.clone();
        let have_dir = j["dir"].as_str().map(|s| s.to_string());
        if have_dir != want_dir && !(want_dir.is_none() && (have_dir == Some(".".into()) || have_dir == Some(crate::exec::CWD.into()))) {
            return Some(f("launch", format!("{} was started in directory {:?} instead of {:?}", v.name(n), have_dir, want_dir)));
        }
        // effective environment
        let mut env: BTreeMap<String, String> = BTreeMap::new();
        if j["env_clear"] != serde_json::json!(true) {
            for (a, b) in crate::exec::INHERITED {
                env.insert(a.into(), b.into());
            }
        }
        if let Some(e) = j["env"].as_object() {
            for (a, b) in e {
                match b.as_str() {
                    Some(b) => {
                        env.insert(a.into(), b.into());
                    }
                    None => {
                        env.remove(a);
                    }
                }
            }
        }
        let mut want: BTreeMap<String, String> = BTreeMap::new();
        for (a, b) in crate::exec::INHERITED {
            want.insert(a.into(), b.into());
        }
        for (a, b) in &x.env {
            want.insert(a.clone(), b.clone());
        }
        env.retain(|k, _| k != "PA2SIM" && k != "RUST_BACKTRACE");
        if env != want {
            return Some(f("launch", format!("{} was started with environment {:?} instead of {:?}", v.name(n), env, want)));
        }
        // wiring
        let io = &j["io"];
        let has_in = !v.t.ins(n).is_empty();
        let outs = [v.t.outs(n).iter().any(|e| e.port == 0), v.t.outs(n).iter().any(|e| e.port == 1)];
        let what = io[0].as_str().unwrap_or("?");
        if (has_in && what != "piped") || (!has_in && what != "null" && what != "piped") {
            return Some(f("launch", format!("stdin of {} is {} although {}", v.name(n), what, if has_in { "it has an input" } else { "it has no input" })));
        }
        for i in 0..2 {
            let what = io[i + 1].as_str().unwrap_or("?");
            let nm = ["stdout", "stderr"][i];
            if outs[i] && what != "piped" {
                return Some(f("launch", format!("{} of {} is {} although it is connected", nm, v.name(n), what)));
            }
            if !outs[i] && what == "inherit" {
                return Some(f("launch", format!("{} of {} is not connected but goes to pa2's {}", nm, v.name(n), nm)));
            }
        }
        if !has_in {
            // must see the end of input at once
            let p = x.prog;
            let t = v.o.hist.iter().find(|r| r.kind == k::PROG_EOF && r.id == hist::s_in(p)).map(|r| r.t);
            if t.is_none() && !v.sc.progs[p].no_read && v.exits.contains_key(&(p as u32)) && v.sc.progs[p].exit_on == 0 {
                return Some(f("launch", format!("{} has no input but did not see an end of input", v.name(n))));
            }
        }
    }
    None
}

fn exit_status(v: &View, launch: usize, sink: usize) -> Option<Finding> {
    let p = v.t.nodes[launch].prog;
    let want = v.status_text(p);
    let content = v.content(sink)?;
    let feeds = v.t.feeds(sink);
    if feeds.len() == 1 {
        if content != want.as_bytes() {
            return Some(f("status", format!("{} received {} as exit status of {}, expected \"{}\"", v.name(sink), show(&content), v.name(launch), want)));
        }
        let g = v.given(sink);
        if let (Some(t), Some((et, _))) = (g.time_of(1), v.exits.get(&(p as u32))) {
            if !want.is_empty() && t < *et {
                return Some(f("status", format!("the exit status of {} was delivered before it exited", v.name(launch))));
            }
        }
        // after all its output was read
        for port in 0..2u8 {
            if !v.t.outs(launch).iter().any(|e| e.port == port) {
                continue;
            }
            let id = v.src_id((launch, port)).unwrap();
            let first = g.time_of(1);
            let last = v.o.hist.iter().rposition(|r| (r.kind == k::PA_READ || r.kind == k::PA_EOF) && r.id == id);
            let given_at = v.o.hist.iter().position(|r| r.kind == k::PA_WRITE && Some(r.id) == v.sink_id(sink));
            if let (Some(_), Some(l), Some(ga)) = (first, last, given_at) {
                if l > ga {
                    return Some(f("status", format!("output of {} was still being read after its exit status had been delivered", v.name(launch))));
                }
            }
        }
    }
    None
}

fn idle(v: &View, per_s: u64, after_us: u64, min_us: u64) -> Option<Finding> {
    // polls between ticks while nothing else happened
    let mut quiet_from: Option<u64> = Some(0);
    let mut base: Option<(u64, u64)> = None; // (time, polls) of the first tick in the quiet stretch
    for r in &v.o.hist {
        if r.kind == k::TICK {
            if let Some(q) = quiet_from {
                if r.t >= q + after_us * 1000 {
                    match base {
                        None => base = Some((r.t, r.id as u64)),
                        Some((t0, p0)) => {
                            let dt = r.t - t0;
                            if dt >= min_us * 1000 {
                                let rate = (r.id as u64 - p0) as f64 / (dt as f64 / 1e9);
                                if rate > per_s as f64 {
                                    return Some(f(
                                        "spin",
                                        format!(
                                            "between {:.1} s and {:.1} s nothing happened but pa2 woke up {:.1} times per second (allowed: {})",
                                            t0 as f64 / 1e9,
                                            r.t as f64 / 1e9,
                                            rate,
                                            per_s
                                        ),
                                    ));
                                }
                                base = Some((r.t, r.id as u64));
                            }
                        }
                    }
                }
            }
        } else {
            quiet_from = Some(r.t);
            base = None;
        }
    }
    None
}

/// times at which the lines of a track were complete
fn line_times(t: &Track) -> Vec<u64> {
    let mut r = vec![];
    for (i, c) in t.data.iter().enumerate() {
        if *c == b'\n' {
            r.push(t.time_of(i + 1).unwrap());
        }
    }
    r
}
fn gated(v: &View, src: (usize, u8), fill: &[(usize, u8, usize)], low: usize, high: usize, slack: usize, after: u64) -> Option<Finding> {
    // 0: delivered, 1: taken, 2: the regulated source
    let mut ev: Vec<(u64, u8)> = vec![];
    for (s, p, d) in fill {
        ev.extend(line_times(v.taken((*s, *p))).into_iter().map(|t| (t, 1)));
        ev.extend(line_times(v.given(*d)).into_iter().map(|t| (t, 0)));
    }
    ev.extend(line_times(v.taken(src)).into_iter().map(|t| (t, 2)));
    ev.sort();
    let mut n = 0i64;
    let mut full_since: Option<u64> = None;
    let mut passed = 0;
    for (t, k) in ev {
        match k {
            0 => n -= 1,
            1 => n += 1,
            _ => {
                if let Some(s) = full_since {
                    if t > s + after * 1000 {
                        passed += 1;
                        if passed > slack {
                            return Some(f(
                                "gated",
                                format!(
                                    "at {:.3} s {} lines had been taken of a regulated source while the watched buffers were at {} (watermarks {} and {}, full since {:.3} s)",
                                    t as f64 / 1e9,
                                    passed,
                                    n,
                                    low,
                                    high,
                                    s as f64 / 1e9
                                ),
                            ));
                        }
                    }
                }
            }
        }
        // n counts what is before the buffers too
        if n >= (high + slack) as i64 && full_since.is_none() {
            full_since = Some(t);
            passed = 0;
        }
        if n <= (low + slack) as i64 {
            full_since = None;
        }
    }
    None
}
fn watermark(v: &View, src: (usize, u8), dst: &[usize], low: usize, high: usize, slack: usize) -> Option<Finding> {
    // lines taken from the source and lines handed out, over time
    let lines = |t: &Track| -> Vec<u64> {
        let mut r = vec![];
        for (i, c) in t.data.iter().enumerate() {
            if *c == b'\n' {
                r.push(t.time_of(i + 1).unwrap());
            }
        }
        r
    };
    let tin = lines(v.taken(src));
    let mut tout: Vec<u64> = vec![];
    for d in dst {
        tout.extend(lines(v.given(*d)));
    }
    tout.sort();
    let mut ev: Vec<(u64, bool)> = tin.iter().map(|t| (*t, true)).chain(tout.iter().map(|t| (*t, false))).collect();
    // deliveries first at equal times
    ev.sort_by_key(|(t, i)| (*t, *i));
    let mut n: i64 = 0;
    let mut paused_at: Option<u64> = None;
    let mut taken_since = 0;
    for (t, is_in) in ev {
        if is_in {
            n += dst.len() as i64;
            if n > (high + slack) as i64 {
                return Some(f(
                    "watermark",
                    format!("at {:.3} s {} lines were inside, high watermark {} (tolerance {})", t as f64 / 1e9, n, high, slack),
                ));
            }
            if paused_at.is_some() {
                taken_since += 1;
                if taken_since > slack && n > (low + slack) as i64 {
                    return Some(f(
                        "watermark",
                        format!(
                            "at {:.3} s {} lines had been taken in since the high watermark {} was reached, {} lines are inside, low watermark {}",
                            t as f64 / 1e9,
                            taken_since,
                            high,
                            n,
                            low
                        ),
                    ));
                }
            }
        } else {
            n -= 1;
        }
        if is_in && n >= high as i64 && paused_at.is_none() {
            paused_at = Some(t);
            taken_since = 0;
        }
        if n <= (low + slack) as i64 {
            paused_at = None;
        }
    }
    None
}

fn loop_check(v: &View, prog: usize, seeds: &[(String, u32)]) -> Option<Finding> {
    // every id appears in the program's input exactly h0+1 times with h = h0, h0-1 .. 0
    let data = &v.prog_read(prog).data;
    let mut seen: BTreeMap<String, Vec<u32>> = BTreeMap::new();
    for m in messages(data) {
        let s = String::from_utf8_lossy(m).to_string();
        let mut id = None;
        let mut h = None;
        for t in s.trim_end().split(';') {
            if let Some(x) = t.strip_prefix("id=") {
                id = Some(x.to_string())
            } else if let Some(x) = t.strip_prefix("h=") {
                h = x.parse().ok()
            }
        }
        match (id, h) {
            (Some(i), Some(h)) => seen.entry(i).or_default().push(h),
            _ => return Some(f("loop", format!("{} received something that was never put on the loop: {}", v.name(prog), show(m)))),
        }
    }
    for (id, h0) in seeds {
        let want: Vec<u32> = (0..=*h0).rev().collect();
        let have = seen.remove(id).unwrap_or_default();
        if have != want {
            return Some(f("loop", format!("message {} went round with counters {:?} instead of {:?}", id, have, want)));
        }
    }
    if let Some((id, _)) = seen.into_iter().next() {
        return Some(f("loop", format!("message {} was never put on the loop", id)));
    }
    None
}

#[allow(dead_code)]
pub fn is_loop_rule(r: &Rule) -> bool {
    matches!(r, Rule::Loop)
}

fn strip_tags(line: &[u8]) -> Vec<u8> {
    // headers that programs put before a line ("P<prog>.<n>;") depend on the order of arrival
    let mut l = line;
    loop {
        if l.first() != Some(&b'P') {
            return l.to_vec();
        }
        let mut i = 1;
        while i < l.len() && l[i].is_ascii_digit() {
            i += 1
        }
        if i == 1 || l.get(i) != Some(&b'.') {
            return l.to_vec();
        }
        let mut j = i + 1;
        while j < l.len() && l[j].is_ascii_digit() {
            j += 1
        }
        if j == i + 1 || l.get(j) != Some(&b';') {
            return l.to_vec();
        }
        l = &l[j + 1..];
    }
}

/// Several runs of the same pipeline, written and scheduled differently: same result?
pub fn same_result(c: &Case, outs: &[Outcome]) -> Option<Finding> {
    let views: Vec<View> = outs.iter().enumerate().map(|(i, o)| View::new(if i == 0 { &c.sc } else { &c.variants[i - 1] }, &c.topo, o)).collect();
    let codes: Vec<Option<i32>> = views.iter().map(|v| v.exit_code()).collect();
    for i in 1..codes.len() {
        if codes[i] != codes[0] {
            return Some(f("variant", format!("variant {} ended with {:?}, the first one with {:?}: {} / {}", i, codes[i], codes[0], err_text(&outs[i]), err_text(&outs[0]))));
        }
    }
    if codes[0] != Some(0) {
        return None;
    }
    for n in views[0].sinks() {
        let merged = {
            let up = c.topo.upstream(n);
            (0..c.topo.nodes.len()).any(|x| up[x] && c.topo.ins(x).len() > 1)
        };
        let canon = |v: &View| -> Vec<u8> {
            let d = v.content(n).unwrap_or_default();
            if !merged {
                return d;
            }
            let mut l: Vec<Vec<u8>> = messages(&d).into_iter().map(strip_tags).collect();
            l.sort();
            l.concat()
        };
        let a = canon(&views[0]);
        for i in 1..views.len() {
            let b = canon(&views[i]);
            if a != b {
                let at = a.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                return Some(f(
                    "variant",
                    format!("{} received {} bytes in variant {} and {} bytes in the first one; difference at {}: {} / {}", views[0].name(n), b.len(), i, a.len(), at, show(&b[at..]), show(&a[at..])),
                ));
            }
        }
    }
    None
}

/// What a config command did: the configuration it printed (None: it failed as it had to).
pub fn command(step: &simcore::scenario::Step, before: &str, t: &topo::Topo, o: &Outcome) -> Result<Option<String>, Finding> {
    let graph = step.args[0] == "graph";
    let what = || format!("{}{}", if graph { "" } else { "config " }, step.args.join(" "));
    for r in &o.hist {
        if !matches!(r.kind, k::FAULT | k::TICK | k::WORLD_END) {
            return Err(f("command", format!("{:?} did something to the outside: record of kind {}", what(), r.kind)));
        }
    }
    let ok = o.end == End::Exit(0);
    if step.fails {
        if ok {
            return Err(f("command", format!("{:?} exited with 0 although it could not read the configuration or write the result", what())));
        }
        if step.io.out_err.is_none() && !o.stdout.is_empty() {
            return Err(f("command", format!("{:?} printed {} although it could not read the configuration", what(), show(&o.stdout))));
        }
        if o.stderr.is_empty() {
            return Err(f("command", format!("{:?} failed without a word", what())));
        }
        return Ok(None);
    }
    if !ok {
        return Err(f("command", format!("{:?} ended with {:?}: {}", what(), o.end, err_text(o))));
    }
    let text = match String::from_utf8(o.stdout.clone()) {
        Ok(t) if !t.trim().is_empty() => t,
        _ => return Err(f("command", format!("{:?} printed {}", what(), show(&o.stdout)))),
    };
    if graph {
        return match drawn(&step.args[1..], before, t, &text) {
            Some(d) => Err(f("command", format!("{:?}: {}", what(), d))),
            None => Ok(None),
        };
    }
    if let (Ok(mut a), Ok(b)) = (serde_json::from_str::<Value>(before), serde_json::from_str::<Value>(&text)) {
        set(&mut a, &step.args);
        if let Some(d) = differs(&a, &b, step.args.len() == 1) {
            return Err(f("command", format!("{:?}: {}", what(), d)));
        }
    }
    Ok(Some(text))
}

#[derive(Default)]
struct Dot {
    /// cluster, name, attributes
    nodes: Vec<(String, String, HashMap<String, String>)>,
    edges: Vec<(String, String, String)>,
}
/// Reads what `pa2 graph` prints.
fn dot(text: &str) -> Result<Dot, String> {
    let mut tokens: Vec<String> = vec![];
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        if c.is_whitespace() {
            continue;
        }
        if c == '"' {
            let mut s = String::new();
            loop {
                match it.next() {
                    Some('"') => break,
                    Some('\\') if it.peek() == Some(&'"') => s.push(it.next().unwrap()),
                    Some(c) => s.push(c),
                    None => return Err("a text without an end".into()),
                }
            }
            tokens.push(format!("\"{}", s));
        } else if c == '-' && it.peek() == Some(&'>') {
            it.next();
            tokens.push("->".into());
        } else if "{}[]=,;".contains(c) {
            tokens.push(c.to_string());
        } else {
            let mut s = c.to_string();
            while let Some(c) = it.peek() {
                if c.is_whitespace() || "{}[]=,;\"".contains(*c) {
                    break;
                }
                s.push(*c);
                it.next();
            }
            tokens.push(s);
        }
    }
    let tok = |i: usize| tokens.get(i).map(|x| x.as_str()).unwrap_or("");
    let id = |i: usize| -> Result<String, String> {
        match tok(i) {
            "" | "{" | "}" | "[" | "]" | "=" | "," | ";" | "->" => Err(format!("{:?} where a name should be, after {:?}", tok(i), &tokens[i.saturating_sub(4).min(tokens.len())..i.min(tokens.len())])),
            x => Ok(x.strip_prefix('"').unwrap_or(x).to_string()),
        }
    };
    let attrs = |i: &mut usize| -> Result<HashMap<String, String>, String> {
        let mut m = HashMap::new();
        while tok(*i) == "[" {
            *i += 1;
            while tok(*i) != "]" {
                let k = id(*i)?;
                if tok(*i + 1) != "=" {
                    return Err(format!("attribute {} without a value", k));
                }
                m.insert(k, id(*i + 2)?);
                *i += 3;
                if matches!(tok(*i), "," | ";") {
                    *i += 1;
                }
            }
            *i += 1;
        }
        Ok(m)
    };
    let mut d = Dot::default();
    let mut i = 0;
    while i < tokens.len() && tok(i) != "{" {
        i += 1;
    }
    i += 1;
    let mut within: Vec<String> = vec![String::new()];
    while !within.is_empty() {
        match tok(i) {
            "" => return Err("it has no end".into()),
            "}" => {
                within.pop();
                i += 1;
            }
            ";" => i += 1,
            "{" => {
                within.push(within.last().unwrap().clone());
                i += 1;
            }
            "subgraph" => {
                within.push(id(i + 1)?);
                if tok(i + 2) != "{" {
                    return Err("a subgraph without content".into());
                }
                i += 3;
            }
            "graph" | "node" | "edge" if tok(i + 1) == "[" => {
                i += 1;
                attrs(&mut i)?;
            }
            _ => {
                let a = id(i)?;
                i += 1;
                if tok(i) == "=" {
                    id(i + 1)?;
                    i += 2;
                } else if tok(i) == "->" {
                    let mut ends = vec![a];
                    while tok(i) == "->" {
                        ends.push(id(i + 1)?);
                        i += 2;
                    }
                    let m = attrs(&mut i)?;
                    for w in ends.windows(2) {
                        d.edges.push((w[0].clone(), w[1].clone(), m.get("label").cloned().unwrap_or_default()));
                    }
                } else {
                    let m = attrs(&mut i)?;
                    d.nodes.push((within.last().unwrap().clone(), a, m));
                }
            }
        }
    }
    if i < tokens.len() {
        return Err(format!("{:?} after its end", tok(i)));
    }
    Ok(d)
}
/// What is wrong with a drawing of this pipeline.
fn drawn(flags: &[String], config: &str, t: &topo::Topo, text: &str) -> Option<String> {
    let mut d = match dot(text) {
        Ok(d) => d,
        Err(e) => return Some(format!("the drawing cannot be read: {}", e)),
    };
    let legend_only = flags.iter().any(|x| x == "--legend-only" || x == "-l");
    let diagram_only = flags.iter().any(|x| x == "--diagram-only" || x == "-d");
    let kinds = ["launch", "buffer", "regulator", "junction", "faucet", "drain"];
    let look = |m: &HashMap<String, String>| -> (String, String) { (m.get("shape").cloned().unwrap_or_default(), m.get("fillcolor").cloned().unwrap_or_default()) };
    let mut looks: HashMap<String, (String, String)> = HashMap::new();
    for k in kinds {
        let name = format!("legend_{}", k);
        let n = d.nodes.iter().find(|n| n.1 == name);
        match n {
            Some(n) => {
                looks.insert(k.to_string(), look(&n.2));
            }
            None if !diagram_only => return Some(format!("{} is missing in the legend", k)),
            None => (),
        }
    }
    if diagram_only && !looks.is_empty() {
        return Some("there is a legend".into());
    }
    d.nodes.retain(|n| !n.1.starts_with("legend_"));
    if legend_only {
        return match (d.nodes.first(), d.edges.first()) {
            (Some(n), _) => Some(format!("{} is drawn with the legend only", n.1)),
            (_, Some(e)) => Some(format!("{} -> {} is drawn with the legend only", e.0, e.1)),
            _ => None,
        };
    }
    let node = |n: usize| format!("{}_{}", &t.nodes[n].kind.long()[..1], t.nodes[n].name);
    let config: Value = serde_json::from_str(config).unwrap_or(Value::Null);
    let mut used = vec![false; t.nodes.len()];
    for e in &t.edges {
        used[e.s] = true;
        used[e.d] = true;
    }
    for n in (0..t.nodes.len()).filter(|n| used[*n]) {
        let (id, kind) = (node(n), t.nodes[n].kind.long());
        let here: Vec<_> = d.nodes.iter().filter(|x| x.1 == id).collect();
        let Some(first) = here.first() else { return Some(format!("{} is missing", id)) };
        for x in &here {
            if x.2.get("label") != Some(&t.nodes[n].name) {
                return Some(format!("{} is labelled {:?}", id, x.2.get("label")));
            }
            let l = look(&x.2);
            if *looks.entry(kind.to_string()).or_insert_with(|| l.clone()) != l {
                return Some(format!("{} looks like {:?}, others of its kind like {:?}", id, l, looks[kind]));
            }
            if x.0 != first.0 {
                return Some(format!("{} is in {} and in {}", id, first.0, x.0));
            }
            if let Some(set) = x.0.strip_prefix("cluster_nodes_") {
                let text = config["connection"].get(set).map(|c| c.to_string()).unwrap_or_default();
                if !has_word(&text, &t.nodes[n].name) {
                    return Some(format!("{} is in the connection set {:?}, which does not name it", id, set));
                }
            } else if t.nodes[n].kind != Kind::Junction {
                // (junctions at the ends are what sets have in common)
                return Some(format!("{} is in no connection set", id));
            }
        }
    }
    let mut shapes: Vec<&str> = looks.values().map(|l| l.0.as_str()).collect();
    shapes.sort();
    if shapes.windows(2).any(|w| w[0] == w[1]) {
        return Some("two kinds of components have the same shape".into());
    }
    if let Some(x) = d.nodes.iter().find(|x| !(0..t.nodes.len()).any(|n| used[n] && node(n) == x.1)) {
        return Some(format!("{} is no component of it", x.1));
    }
    let mut want: Vec<(String, String, String)> = t.edges.iter().map(|e| (node(e.s), node(e.d), ["", "Err", "Exit"][e.port as usize].to_string())).collect();
    want.sort();
    d.edges.sort();
    if want != d.edges {
        let extra = d.edges.iter().find(|e| !want.contains(e));
        let missing = want.iter().find(|e| !d.edges.contains(e));
        return Some(format!("arrows: {} instead of {}; too many {:?}, missing {:?}", d.edges.len(), want.len(), extra, missing));
    }
    None
}

/// What a config command does to a configuration.
fn set(c: &mut Value, args: &[String]) {
    if args.len() < 5 {
        // lint, manipulate
        return;
    }
    let (kind, name, verb) = (args[0].as_str(), args[2].as_str(), args[3].as_str());
    let vals: Vec<&str> = args[if args[4] == "--" { 5 } else { 4 }..].iter().map(|x| x.as_str()).collect();
    let Some(top) = c.as_object_mut() else { return };
    let section = top.entry(kind).or_insert_with(|| json!({}));
    let Some(section) = section.as_object_mut() else { return };
    if kind == "connection" {
        let v = serde_json::from_str(vals[0]).ok().filter(|v: &Value| v.is_array()).unwrap_or_else(|| json!(vals[0]));
        section.insert(name.into(), v);
        return;
    }
    let e = section.entry(name).or_insert_with(|| json!({}));
    let Some(e) = e.as_object_mut() else { return };
    match verb {
        "command" => e.insert("cmd".into(), json!(vals[0])),
        "args" => e.insert("arg".into(), json!(vals)),
        "env" => {
            let kv: Map<String, Value> = vals.iter().filter_map(|x| x.split_once('=')).map(|(k, v)| (k.to_string(), json!(v))).collect();
            e.insert("env".into(), Value::Object(kv))
        }
        "watermark" => {
            let mut n: Vec<u64> = vals.iter().filter_map(|x| x.parse().ok()).collect();
            n.sort();
            e.insert("buffered".into(), json!(n))
        }
        _ => e.insert(verb.into(), json!(vals[0])),
    };
}

/// What is different in the meaning of two configurations (the connections aside, when they may be written another way).
fn differs(a: &Value, b: &Value, rewritten: bool) -> Option<String> {
    // what is not said
    fn plain(v: &Value, key: &str) -> Value {
        match v {
            Value::Object(m) => Value::Object(
                m.iter()
                    .filter(|(k, x)| !(x.is_null() || k.as_str() == "destination" && *x == "-" || k.as_str() == "breakable" && *x == "terminate"))
                    .map(|(k, x)| (k.clone(), plain(x, k)))
                    .filter(|(k, x)| !(matches!(k.as_str(), "env" | "arg" | "monitored_buffers") && (x == &json!([]) || x == &json!({}))))
                    .collect(),
            ),
            Value::Array(l) if key != "arg" => Value::Array(l.iter().map(|x| plain(x, key)).collect()),
            x => x.clone(),
        }
    }
    let none = Map::new();
    for kind in ["faucet", "drain", "launch", "regulator", "connection"] {
        if kind == "connection" && rewritten {
            continue;
        }
        let (x, y) = (a[kind].as_object().unwrap_or(&none), b[kind].as_object().unwrap_or(&none));
        if kind == "connection" {
            for (n, p) in x {
                let Some(q) = y.get(n) else { return Some(format!("connection {} is gone", n)) };
                if p.is_string() == q.is_string() && plain(p, "") != plain(q, "") {
                    return Some(format!("connection {} is {} instead of {}", n, q, p));
                }
            }
            if let Some(n) = y.keys().find(|n| !x.contains_key(*n)) {
                return Some(format!("there is a connection {}", n));
            }
            continue;
        }
        for n in x.keys().chain(y.keys()) {
            let (p, q) = (x.get(n).map(|v| plain(v, "")), y.get(n).map(|v| plain(v, "")));
            if p != q {
                let text = |v: Option<Value>| v.map(|v| v.to_string()).unwrap_or_else(|| "nothing".into());
                return Some(format!("{}:{} is {} instead of {}", kind, n, text(q), text(p)));
            }
        }
    }
    None
}

/// What a killed pa2 may leave behind.
pub fn after_crash(c: &Case, o: &Outcome, sc: &Scenario) -> Vec<Finding> {
    let v = View::new(sc, &c.topo, o);
    let mut r = vec![];
    if o.verdict != verdict::CRASH {
        // it had ended by then
        return r;
    }
    for n in v.sinks() {
        if let (Kind::Drain, topo::End::File(i)) = (v.t.nodes[n].kind, v.t.nodes[n].end.clone()) {
            if !v.written_file(i) {
                let old = sc.files[i].feed.as_ref().map(feed_bytes).unwrap_or_default();
                if v.files[i] != old {
                    r.push(Finding { code: "crash".into(), msg: format!("{} was changed before it was opened", v.name(n)) });
                }
                continue;
            }
        }
        if let Some(f) = data_check(&v, n, &Mode::Prefix) {
            r.push(Finding { code: "crash".into(), msg: format!("pa2 killed at {:.6} s: {}", o.sim_ns as f64 / 1e9, f.msg) });
        }
    }
    r.truncate(1);
    r
}
/// The same configuration once more, on the files a killed run left.
pub fn run_again(c: &Case, o: &Outcome, sc: &Scenario) -> Scenario {
    let v = View::new(sc, &c.topo, o);
    let mut s = c.sc.clone();
    let feed = |i: usize| v.exists[i].then(|| Feed { segs: vec![Seg { raw: v.files[i].clone(), ..Default::default() }], ..Default::default() });
    for n in &c.topo.nodes {
        if let (Kind::Drain, topo::End::File(i)) = (n.kind, n.end.clone()) {
            if v.written_file(i) {
                s.files[i].feed = feed(i);
            }
        }
    }
    for i in s.files.len()..v.files.len() {
        // something of its own
        s.files.push(FileSpec { path: v.paths[i].clone(), feed: feed(i), ..Default::default() });
    }
    s.decisions = None;
    s.sched_seed = s.sched_seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x27;
    s.hash_seed ^= s.sched_seed;
    s
}

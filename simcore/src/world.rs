use crate::hist::{self, fault, k};
use crate::scenario::*;
use crate::shm::{self, hdr, verdict};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::task::{Poll, Waker};

/// Simulated time in nanoseconds since start of the run; read by the interposed clock.
pub static NOW: AtomicU64 = AtomicU64::new(0);
pub static ACTIVE: AtomicBool = AtomicBool::new(false);
pub static HASH_SEED: AtomicU64 = AtomicU64::new(0);

const US: u64 = 1000;
pub const SIGPIPE: i32 = 13;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub struct Decider {
    seed: u64,
    cls: Vec<Cls>,
    explicit: Option<BTreeMap<(u16, u32, u32), u32>>,
    ctr: BTreeMap<(u16, u32), u32>,
}
impl Decider {
    fn decide(&mut self, class: u16, ent: u32, cap: u32) -> u32 {
        let c = self.ctr.entry((class, ent)).or_insert(0);
        let n = *c;
        *c += 1;
        let v = match &self.explicit {
            Some(m) => m.get(&(class, ent, n)).copied().unwrap_or(0).min(cap),
            None => {
                let (pct, max) = self.cls.get(class as usize).copied().unwrap_or((0, 0));
                let max = max.min(cap);
                if pct == 0 || max == 0 {
                    0
                } else {
                    let h = mix(self.seed ^ mix((class as u64) << 40 ^ (ent as u64) << 8).wrapping_add(mix(n as u64 ^ 0x5555)));
                    if (h % 100) < pct as u64 {
                        1 + ((h >> 16) % max as u64) as u32
                    } else {
                        0
                    }
                }
            }
        };
        if v != 0 {
            let b = shm::base();
            let len = shm::get(b, hdr::DEC_LEN) as usize;
            if len + 16 <= shm::DEC_CAP {
                unsafe {
                    let p = b.add(shm::DEC_OFF + len) as *mut u32;
                    p.write(class as u32);
                    p.add(1).write(ent);
                    p.add(2).write(n);
                    p.add(3).write(v);
                }
                shm::put(b, hdr::DEC_LEN, (len + 16) as u64);
            } else {
                shm::put(b, hdr::OVERFLOW, 2);
            }
            let i = hdr::CLS0 + class as usize;
            shm::put(b, i, shm::get(b, i) + 1);
        }
        v
    }
}

#[derive(Debug)]
enum Ev {
    Step(usize),
    Act(usize, usize),
    ExitNotice(usize),
    Orphan(usize),
    Timer(u64),
    Blocking(u64),
    Nop,
}

pub enum Fired {
    Nothing,
    Internal,
    Blocking(u64),
}

struct Pipe {
    buf: VecDeque<u8>,
    cap: usize,
    w_open: bool,
    r_open: bool,
    pa_waker: Option<Waker>,
    through: usize,
}
impl Pipe {
    fn new(cap: usize) -> Pipe {
        Pipe { buf: VecDeque::new(), cap: if cap == 0 { 65536 } else { cap }, w_open: true, r_open: true, pa_waker: None, through: 0 }
    }
}

struct Prog {
    spec: ProgSpec,
    spawned: bool,
    started: bool,
    exited: Option<i32>,
    status_visible: bool,
    stdin: Option<Pipe>,
    out: [Option<Pipe>; 2],
    port_dead: [bool; 2],
    /// an output that is neither read by pa2 nor discarded
    inherit: [bool; 2],
    in_buf: Vec<u8>,
    q: VecDeque<(u8, Vec<u8>, usize)>,
    block: [Vec<u8>; 2],
    emit_idx: usize,
    gap_done: bool,
    lines_in: u64,
    bytes_in: u64,
    lines_out: u64,
    bytes_out: u64,
    seq: u64,
    eof: bool,
    stdin_closed: bool,
    acts_done: Vec<bool>,
    stalled_until: u64,
    step_sched: bool,
    lingered: bool,
    waiters: Vec<Waker>,
    status_errs: u32,
    slow_debt: u64,
}

struct FeedRt {
    bytes: Vec<u8>,
    marks: Vec<(usize, u64)>,
    eof_at: u64,
    err_at: Option<(usize, i32)>,
    err_once: bool,
}
impl FeedRt {
    fn new(f: &Feed) -> FeedRt {
        let mut bytes = vec![];
        let mut marks = vec![];
        let mut t = 0;
        for (i, s) in f.segs.iter().enumerate() {
            for (gi, g) in &f.gaps {
                if *gi == i {
                    t += g * US;
                    marks.push((bytes.len(), t));
                }
            }
            bytes.extend_from_slice(&s.bytes());
        }
        FeedRt { bytes, marks, eof_at: t + f.eof_gap * US, err_at: f.err_at, err_once: f.err_once }
    }
    fn avail_time(&self, pos: usize) -> u64 {
        if pos >= self.bytes.len() {
            return self.eof_at;
        }
        self.marks.iter().filter(|(o, _)| *o <= pos).map(|(_, t)| *t).max().unwrap_or(0)
    }
    fn avail_upto(&self, now: u64) -> usize {
        self.marks.iter().find(|(_, t)| *t > now).map(|(o, _)| *o).unwrap_or(self.bytes.len())
    }
}

struct SinkRt {
    spec: SinkSpec,
    accepted: usize,
    stalls_done: usize,
    /// something of the present operation has been accepted
    op_begun: bool,
}
impl SinkRt {
    fn new(s: &SinkSpec) -> SinkRt {
        SinkRt { spec: s.clone(), accepted: 0, stalls_done: 0, op_begun: false }
    }
}

struct FileRt {
    path: String,
    exists: bool,
    content: Vec<u8>,
    feed: Option<FeedRt>,
    open_err: Option<i32>,
    create_err: Option<i32>,
    sink: SinkRt,
}

#[derive(Clone, Copy, Default, Debug)]
pub struct OpenOpts {
    pub read: bool,
    pub write: bool,
    pub append: bool,
    pub truncate: bool,
    pub create: bool,
    pub create_new: bool,
}

pub struct Handle {
    pub file: usize,
    pub pos: usize,
    pub opts: OpenOpts,
    pub null: bool,
}

pub struct World {
    sc_limits: Limits,
    config_io: crate::scenario::ConfigIo,
    config_fd: i32,
    config_reads: u32,
    config_at: u64,
    tool: bool,
    config_out: u64,
    config_writes: u32,
    now: u64,
    seq: u64,
    events: BTreeMap<(u64, u64), Ev>,
    env_pending: usize,
    dec: Decider,
    progs: Vec<Prog>,
    files: Vec<FileRt>,
    stdin: FeedRt,
    stdin_pos: usize,
    stdout: SinkRt,
    stderr: SinkRt,
    timers: BTreeMap<u64, (u64, Option<Waker>)>,
    next_timer: u64,
    last_progress: u64,
    polls_at_progress: u64,
    polls: u64,
    recs: u64,
    last_tick: u64,
    nev: u64,
    trace: u64,
    wake: Vec<Waker>,
}

thread_local! {
    // leaked on purpose: it has to outlive thread-local destructors, output is flushed at exit
    static WORLD: Cell<Option<&'static RefCell<World>>> = const { Cell::new(None) };
}

pub fn install(sc: &Scenario) {
    let w = World::new(sc);
    WORLD.with(|c| c.set(Some(Box::leak(Box::new(RefCell::new(w))))));
    HASH_SEED.store(sc.hash_seed, Ordering::Relaxed);
    NOW.store(0, Ordering::Relaxed);
    ACTIVE.store(true, Ordering::Relaxed);
}

pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed)
}

/// Run `f` on the world, then wake what it asked to wake.
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let cell = match WORLD.with(|c| c.get()) {
        Some(c) => c,
        None => die(verdict::HARNESS, "no simulated world on this thread"),
    };
    let (r, wk) = {
        let mut w = match cell.try_borrow_mut() {
            Ok(w) => w,
            Err(_) => die(verdict::HARNESS, "simulated world entered twice"),
        };
        let r = f(&mut w);
        (r, std::mem::take(&mut w.wake))
    };
    for w in wk {
        w.wake();
    }
    r
}

/// As `with`, but nothing happens on threads without a world or while it is in use.
pub fn try_with<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    let cell = WORLD.try_with(|c| c.get()).ok()??;
    let mut w = cell.try_borrow_mut().ok()?;
    Some(f(&mut w))
}

pub fn die(v: u64, msg: &str) -> ! {
    let b = shm::base();
    if !b.is_null() {
        shm::put(b, hdr::VERDICT, v);
    }
    unsafe {
        if v == verdict::HARNESS {
            libc::write(2, msg.as_ptr() as *const _, msg.len());
        }
        libc::_exit(97)
    }
}

impl World {
    fn new(sc: &Scenario) -> World {
        let explicit = sc.decisions.as_ref().map(|d| d.iter().map(|(c, e, n, v)| ((*c, *e, *n), *v)).collect());
        World {
            sc_limits: sc.limits.clone(),
            config_io: sc.config_io.clone(),
            config_fd: if sc.config_stdin { 0 } else { -1 },
            config_reads: 0,
            config_at: 0,
            tool: !sc.tool.is_empty(),
            config_out: 0,
            config_writes: 0,
            now: 0,
            seq: 0,
            events: BTreeMap::new(),
            env_pending: 0,
            dec: Decider { seed: sc.sched_seed, cls: sc.timing.cls.clone(), explicit, ctr: BTreeMap::new() },
            progs: sc
                .progs
                .iter()
                .map(|p| Prog {
                    spec: p.clone(),
                    spawned: false,
                    started: false,
                    exited: None,
                    status_visible: false,
                    stdin: None,
                    out: [None, None],
                    port_dead: [false, false],
                    inherit: [false, false],
                    in_buf: vec![],
                    q: VecDeque::new(),
                    block: [vec![], vec![]],
                    emit_idx: 0,
                    gap_done: false,
                    lines_in: 0,
                    bytes_in: 0,
                    lines_out: 0,
                    bytes_out: 0,
                    seq: 0,
                    eof: false,
                    stdin_closed: false,
                    acts_done: vec![false; p.acts.len()],
                    stalled_until: 0,
                    step_sched: false,
                    lingered: false,
                    waiters: vec![],
                    status_errs: p.status_errs,
                    slow_debt: 0,
                })
                .collect(),
            files: sc
                .files
                .iter()
                .map(|f| FileRt {
                    path: f.path.clone(),
                    exists: f.feed.is_some(),
                    content: f.feed.as_ref().map(|x| FeedRt::new(x).bytes).unwrap_or_default(),
                    feed: f.feed.as_ref().map(FeedRt::new),
                    open_err: f.open_err,
                    create_err: f.create_err,
                    sink: SinkRt::new(&f.sink),
                })
                .collect(),
            stdin: FeedRt::new(&sc.stdin),
            stdin_pos: 0,
            stdout: SinkRt::new(&sc.stdout),
            stderr: SinkRt::new(&sc.stderr),
            timers: BTreeMap::new(),
            next_timer: 0,
            last_progress: 0,
            polls_at_progress: 0,
            polls: 0,
            recs: 0,
            last_tick: 0,
            nev: 0,
            trace: 0xcbf29ce484222325,
            wake: vec![],
        }
    }

    // ---------------------------------------------------------------- the configuration
    /// None: it can be opened
    pub fn config_open(&mut self) -> Option<i32> {
        let e = self.config_io.open_err;
        if e.is_some() {
            self.fault(0, fault::CONFIG_ERR);
        }
        self.config_at = 0;
        e
    }
    pub fn config_opened(&mut self, fd: i32) {
        self.config_fd = fd;
    }
    pub fn config_closed(&mut self, fd: i32) {
        if fd == self.config_fd {
            self.config_fd = -1;
        }
    }
    /// how much of the configuration a read of `n` bytes may give (None: not the configuration)
    pub fn config_read(&mut self, fd: i32, n: usize) -> Option<Result<usize, i32>> {
        if fd != self.config_fd || self.config_io == Default::default() {
            return None;
        }
        let i = self.config_reads;
        self.config_reads += 1;
        let mut most = n as u64;
        if let Some((at, e)) = self.config_io.err {
            if self.config_at >= at {
                self.fault(0, fault::CONFIG_ERR);
                return Some(Err(e));
            }
            most = most.min(at - self.config_at);
        }
        if !self.config_io.max.is_empty() {
            let m = self.config_io.max[i as usize % self.config_io.max.len()].max(1) as u64;
            if m < most {
                if i < 3 {
                    self.fault(0, fault::CONFIG_SHORT);
                }
                most = m;
            }
        }
        Some(Ok(most as usize))
    }
    /// how much of the result of a config command a write of `n` bytes may take (None: no config command)
    pub fn config_write(&mut self, n: usize) -> Option<Result<usize, i32>> {
        if !self.tool || n == 0 {
            return None;
        }
        let mut most = n as u64;
        if let Some((at, e)) = self.config_io.out_err {
            if self.config_out >= at {
                self.fault(0, fault::CONFIG_OUT_ERR);
                return Some(Err(e));
            }
            most = most.min(at - self.config_out);
        }
        if !self.config_io.out_max.is_empty() {
            let m = self.config_io.out_max[self.config_writes as usize % self.config_io.out_max.len()].max(1) as u64;
            if m < most {
                if self.config_writes < 3 {
                    self.fault(0, fault::CONFIG_OUT_SHORT);
                }
                most = m;
            }
        }
        self.config_writes += 1;
        self.config_out += most;
        Some(Ok(most as usize))
    }
    pub fn config_was_read(&mut self, n: usize) {
        self.config_at += n as u64;
    }

    // ---------------------------------------------------------------- basics
    pub fn now(&self) -> u64 {
        self.now
    }
    fn set_now(&mut self, t: u64) {
        if t > self.now {
            self.now = t;
            NOW.store(t, Ordering::Relaxed);
        }
    }
    /// the interposed clock moves a little with every reading
    pub fn sync_clock(&mut self) {
        let n = NOW.load(Ordering::Relaxed);
        if n > self.now {
            self.now = n;
        }
    }
    pub fn decide(&mut self, class: u16, ent: u32, cap: u32) -> u32 {
        self.dec.decide(class, ent, cap)
    }
    pub fn delay(&mut self, class: u16, ent: u32) -> u64 {
        let v = self.dec.decide(class, ent, DELAYS.len() as u32 - 1);
        DELAYS[v as usize] * US
    }
    fn rec(&mut self, kind: u16, id: u32, aux: u32, data: &[u8]) {
        let x = (kind as u64) << 48 ^ (id as u64) << 24 ^ (data.len() as u64) << 4 ^ aux as u64;
        self.trace = (self.trace ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
        hist::push(shm::base(), kind, id, self.now, aux, data);
        shm::put(shm::base(), hdr::TRACE_HASH, self.trace);
        shm::put(shm::base(), hdr::SIM_TIME, self.now);
        self.recs += 1;
        if self.sc_limits.crash_at == Some(self.recs) {
            hist::push(shm::base(), k::FAULT, 0, self.now, fault::CRASH, &[]);
            die(verdict::CRASH, "killed");
        }
    }
    fn progress(&mut self) {
        self.last_progress = self.now;
        self.polls_at_progress = self.polls;
    }
    fn fault(&mut self, id: u32, f: u32) {
        self.rec(k::FAULT, id, f, &[]);
    }
    fn push_ev(&mut self, at: u64, e: Ev) {
        if !matches!(e, Ev::Timer(_) | Ev::Nop) {
            self.env_pending += 1;
        }
        self.seq += 1;
        self.events.insert((at, self.seq), e);
    }

    // ---------------------------------------------------------------- executor interface
    /// Called for every poll of a task.
    pub fn count_poll(&mut self) {
        self.sync_clock();
        self.polls += 1;
        shm::put(shm::base(), hdr::POLLS, self.polls);
        shm::put(shm::base(), hdr::SIM_TIME, self.now);
        if self.now / 1_000_000_000 != self.last_tick {
            self.last_tick = self.now / 1_000_000_000;
            let p = self.polls as u32;
            hist::push(shm::base(), k::TICK, p, self.now, 0, &[]);
        }
        if self.polls > self.sc_limits.max_polls {
            die(verdict::STEP_LIMIT, "poll limit");
        }
    }

    /// Move time forward by `d`, without jumping over events: returns false when an event is due first.
    pub fn advance(&mut self, d: u64) {
        let t = self.now + d;
        self.set_now(t);
    }
    pub fn next_due(&self) -> Option<u64> {
        self.events.keys().next().map(|(t, _)| *t)
    }
    /// Run the first event that is due now.
    pub fn fire_due(&mut self) -> Fired {
        self.sync_clock();
        let key = match self.events.keys().next() {
            Some(key) if key.0 <= self.now => *key,
            _ => return Fired::Nothing,
        };
        let e = self.events.remove(&key).unwrap();
        if !matches!(e, Ev::Timer(_) | Ev::Nop) {
            self.env_pending -= 1;
        }
        self.nev += 1;
        shm::put(shm::base(), hdr::EVENTS, self.nev);
        match e {
            Ev::Step(p) => {
                self.progs[p].step_sched = false;
                self.step(p);
                Fired::Internal
            }
            Ev::Act(p, a) => {
                if self.progs[p].exited.is_none() && !self.progs[p].acts_done[a] {
                    self.progs[p].acts_done[a] = true;
                    let w = self.progs[p].spec.acts[a].1.clone();
                    self.act(p, &w);
                }
                Fired::Internal
            }
            Ev::Orphan(p) => {
                self.orphan(p);
                Fired::Internal
            }
            Ev::ExitNotice(p) => {
                self.progs[p].status_visible = true;
                self.progress();
                let ws = std::mem::take(&mut self.progs[p].waiters);
                self.wake.extend(ws);
                Fired::Internal
            }
            Ev::Timer(id) => {
                shm::put(shm::base(), hdr::TIMERS, shm::get(shm::base(), hdr::TIMERS) + 1);
                if let Some((_, w)) = self.timers.get_mut(&id) {
                    if let Some(w) = w.take() {
                        self.wake.push(w);
                    }
                }
                Fired::Internal
            }
            Ev::Blocking(id) => {
                self.progress();
                Fired::Blocking(id)
            }
            Ev::Nop => Fired::Internal,
        }
    }
    /// Nothing can run now: jump to the next event, or end the run.
    pub fn jump(&mut self) {
        self.sync_clock();
        match self.next_due() {
            None => die(verdict::HANG, "deadlock"),
            Some(t) => {
                if self.env_pending == 0 && t > self.last_progress + self.sc_limits.idle_us * US {
                    self.set_now(t);
                    die(verdict::HANG, "no progress");
                }
                self.set_now(t);
            }
        }
    }

    pub fn timer_new(&mut self, dur_ns: u64) -> u64 {
        self.sync_clock();
        let id = self.next_timer;
        self.next_timer += 1;
        let when = self.now.saturating_add(dur_ns);
        self.timers.insert(id, (when, None));
        id
    }
    pub fn timer_poll(&mut self, id: u64, w: &Waker) -> bool {
        self.sync_clock();
        let now = self.now;
        let t = match self.timers.get_mut(&id) {
            Some(t) => t,
            None => return true,
        };
        if now >= t.0 {
            return true;
        }
        let first = t.1.is_none();
        t.1 = Some(w.clone());
        if first {
            let when = t.0;
            let v = self.dec.decide(class::TIMER_LATE, 0, DELAYS.len() as u32 - 1);
            let late = if v == 0 { 0 } else { DELAYS[v as usize] * US };
            self.push_ev(when + late, Ev::Timer(id));
        }
        false
    }
    pub fn timer_drop(&mut self, id: u64) {
        self.timers.remove(&id);
    }
    pub fn blocking(&mut self, id: u64, extra_ns: u64) {
        self.sync_clock();
        let d = self.delay(class::BLOCKING, 0);
        let at = self.now + extra_ns + d;
        self.push_ev(at, Ev::Blocking(id));
    }
    pub fn nop_at(&mut self, at: u64) {
        self.push_ev(at, Ev::Nop);
    }

    // ---------------------------------------------------------------- programs
    pub fn spawn(&mut self, cmd: &str, call_json: &str, stdin: bool, out: bool, err: bool) -> Result<usize, i32> {
        self.sync_clock();
        let p = match self.progs.iter().position(|p| p.spec.cmd == cmd) {
            Some(p) => p,
            None => {
                self.rec(k::SPAWN, 0xffff, libc::ENOENT as u32, call_json.as_bytes());
                return Err(libc::ENOENT);
            }
        };
        let bad_dir = match &self.progs[p].spec.no_dir {
            Some(d) => serde_json::from_str::<serde_json::Value>(call_json).map(|c| c["dir"] == d.as_str()).unwrap_or(false),
            None => false,
        };
        if let Some(e) = self.progs[p].spec.spawn_err.or(bad_dir.then_some(libc::ENOENT)) {
            self.fault(p as u32, fault::SPAWN_FAIL);
            self.rec(k::SPAWN, p as u32, e as u32, call_json.as_bytes());
            return Err(e);
        }
        self.rec(k::SPAWN, p as u32, 0, call_json.as_bytes());
        if self.progs[p].spawned {
            // a second launch of the same node: recorded above; gets a mute copy that exits at once
            return Err(libc::EEXIST);
        }
        let cap = self.progs[p].spec.pipe_cap;
        let pr = &mut self.progs[p];
        pr.spawned = true;
        if stdin {
            pr.stdin = Some(Pipe::new(cap));
        } 
        if out {
            pr.out[0] = Some(Pipe::new(cap));
        }
        if err {
            pr.out[1] = Some(Pipe::new(cap));
        }
        for i in 0..2 {
            // what the program writes there goes to where pa2's own output goes
            pr.inherit[i] = io_kind(call_json, i + 1) == "inherit";
        }
        let start = pr.spec.start * US;
        let acts: Vec<(usize, u64)> = pr
            .spec
            .acts
            .iter()
            .enumerate()
            .filter_map(|(i, (w, _))| if let When::Time(t) = w { Some((i, *t)) } else { None })
            .collect();
        let d = self.delay(class::PROG_START, p as u32) + start;
        for (i, t) in acts {
            self.push_ev(self.now + t * US, Ev::Act(p, i));
        }
        self.progs[p].step_sched = true;
        self.push_ev(self.now + d, Ev::Step(p));
        self.progress();
        Ok(p)
    }

    fn sched(&mut self, p: usize) {
        if self.progs[p].spawned && self.progs[p].exited.is_none() && !self.progs[p].step_sched {
            self.progs[p].step_sched = true;
            let d = self.delay(class::PROG_STEP, p as u32);
            self.push_ev(self.now + d, Ev::Step(p));
        }
    }
    fn sched_in(&mut self, p: usize, extra: u64) {
        if self.progs[p].exited.is_none() && !self.progs[p].step_sched {
            self.progs[p].step_sched = true;
            self.push_ev(self.now + extra, Ev::Step(p));
        }
    }

    /// what a program left behind writes its last words and ends
    fn orphan(&mut self, p: usize) {
        if let Some(e) = self.progs[p].spec.orphan_says.clone() {
            let data = e.seg.bytes();
            for port in 0..2usize {
                if e.port & (1 << port) == 0 || self.progs[p].port_dead[port] {
                    continue;
                }
                if let Some(pipe) = self.progs[p].out[port].as_mut() {
                    if !pipe.r_open || !pipe.w_open {
                        continue;
                    }
                    pipe.buf.extend(data.iter());
                    if let Some(w) = pipe.pa_waker.take() {
                        self.wake.push(w);
                    }
                    self.rec(k::PROG_WRITE, (p * 4 + 1 + port) as u32, 0, &data);
                    self.progress();
                }
            }
        }
        for s in 1..3 {
            self.prog_close(p, s, true);
        }
    }

    fn prog_exit(&mut self, p: usize, status: i32) {
        self.prog_exits(p, status, false)
    }
    fn prog_exits(&mut self, p: usize, status: i32, orphan: bool) {
        if self.progs[p].exited.is_some() {
            return;
        }
        for s in 0..if orphan { 1 } else { 3 } {
            self.prog_close(p, s, true);
        }
        self.progs[p].exited = Some(status);
        self.rec(k::PROG_EXIT, p as u32, status as u32, &[]);
        let d = self.delay(class::EXIT_NOTICE, p as u32);
        self.push_ev(self.now + d, Ev::ExitNotice(p));
        self.progress();
    }

    /// s: 0 stdin, 1 stdout, 2 stderr
    fn prog_close(&mut self, p: usize, s: usize, at_exit: bool) {
        let pr = &mut self.progs[p];
        let mut closed = false;
        if s == 0 {
            if !pr.stdin_closed {
                pr.stdin_closed = true;
                if let Some(pipe) = pr.stdin.as_mut() {
                    pipe.r_open = false;
                    closed = true;
                    if let Some(w) = pipe.pa_waker.take() {
                        self.wake.push(w);
                    }
                }
            }
        } else {
            if !pr.port_dead[s - 1] {
                pr.port_dead[s - 1] = true;
            }
            if let Some(pipe) = pr.out[s - 1].as_mut() {
                if pipe.w_open {
                    pipe.w_open = false;
                    closed = true;
                    if let Some(w) = pipe.pa_waker.take() {
                        self.wake.push(w);
                    }
                }
            }
        }
        if closed {
            self.rec(k::PROG_CLOSE, (p as u32) * 4 + s as u32, at_exit as u32, &[]);
            self.progress();
        }
    }

    fn act(&mut self, p: usize, w: &What) {
        match w {
            What::Exit(c) => {
                self.fault(p as u32, fault::EARLY_EXIT);
                self.prog_exit(p, (*c & 0xff) << 8);
            }
            What::Kill(s) => {
                self.fault(p as u32, fault::KILL);
                self.prog_exit(p, *s & 0x7f);
            }
            What::CloseStdin => {
                self.fault(p as u32, fault::CLOSE_STDIN);
                self.prog_close(p, 0, false);
                self.sched(p);
            }
            What::CloseStdout => {
                self.fault(p as u32, fault::CLOSE_STDOUT);
                self.prog_close(p, 1, false);
                self.sched(p);
            }
            What::CloseStderr => {
                self.fault(p as u32, fault::CLOSE_STDERR);
                self.prog_close(p, 2, false);
                self.sched(p);
            }
            What::Stall(us) => {
                self.fault(p as u32, fault::STALL);
                self.progs[p].stalled_until = self.now + us * US;
                self.sched_in(p, us * US);
            }
        }
    }

    fn check_acts(&mut self, p: usize) {
        for i in 0..self.progs[p].spec.acts.len() {
            let pr = &self.progs[p];
            if pr.exited.is_some() {
                return;
            }
            if pr.acts_done[i] {
                continue;
            }
            let hit = match &pr.spec.acts[i].0 {
                When::LinesIn(n) => pr.lines_in >= *n,
                When::BytesIn(n) => pr.bytes_in >= *n,
                When::BytesOut(n) => pr.bytes_out >= *n,
                When::LinesOut(n) => pr.lines_out >= *n && pr.q.is_empty(),
                When::Eof => pr.eof && pr.q.is_empty(),
                When::Time(_) => false,
            };
            if hit {
                self.progs[p].acts_done[i] = true;
                let w = self.progs[p].spec.acts[i].1.clone();
                self.act(p, &w);
            }
        }
    }

    fn enqueue(&mut self, p: usize, mask: u8, data: Vec<u8>) {
        for port in 0..2u8 {
            if mask & (1 << port) != 0 {
                let pr = &mut self.progs[p];
                if pr.spec.block > 0 {
                    pr.block[port as usize].extend_from_slice(&data);
                    while pr.block[port as usize].len() >= pr.spec.block {
                        let n = pr.spec.block;
                        let rest = pr.block[port as usize].split_off(n);
                        let full = std::mem::replace(&mut pr.block[port as usize], rest);
                        pr.q.push_back((port, full, 0));
                    }
                } else {
                    pr.q.push_back((port, data.clone(), 0));
                }
            }
        }
    }
    fn flush_blocks(&mut self, p: usize) -> bool {
        let mut any = false;
        for port in 0..2 {
            let pr = &mut self.progs[p];
            if !pr.block[port].is_empty() {
                let b = std::mem::take(&mut pr.block[port]);
                pr.q.push_back((port as u8, b, 0));
                any = true;
            }
        }
        any
    }

    fn on_line(&mut self, p: usize, line: &[u8]) {
        self.progs[p].lines_in += 1;
        let slow = self.progs[p].spec.slow * US;
        self.progs[p].slow_debt += slow;
        match self.progs[p].spec.rule.clone() {
            Rule::Sink | Rule::Raw { .. } => {}
            Rule::Lines { route } => {
                let m = if route.is_empty() { 1 } else { route[(self.progs[p].lines_in as usize - 1) % route.len()] };
                if m != 0 {
                    let mut o = format!("P{}.{};", p, self.progs[p].seq).into_bytes();
                    self.progs[p].seq += 1;
                    o.extend_from_slice(line);
                    if o.last() != Some(&b'\n') {
                        o.push(b'\n');
                    }
                    self.enqueue(p, m, o);
                }
            }
            Rule::Filter { keep } => {
                if line.windows(keep.len()).any(|w| w == keep.as_bytes()) {
                    self.enqueue(p, 1, line.to_vec());
                }
            }
            Rule::Loop | Rule::LoopAll => {
                let all = self.progs[p].spec.rule == Rule::LoopAll;
                let s = String::from_utf8_lossy(line).into_owned();
                let mut id = "?";
                let mut h: u32 = 0;
                let mut g: u32 = 0;
                let mut pad = "";
                for tok in s.trim_end().split(';') {
                    if let Some(x) = tok.strip_prefix("id=") {
                        id = x;
                    } else if let Some(x) = tok.strip_prefix("h=") {
                        h = x.parse().unwrap_or(0);
                    } else if let Some(x) = tok.strip_prefix("g=") {
                        g = x.parse().unwrap_or(0);
                    } else if let Some(x) = tok.strip_prefix("p=") {
                        pad = x;
                    }
                }
                let n = self.progs[p].seq;
                self.progs[p].seq += 1;
                // done here: the next loop, if there is one, goes by g
                let (done, h, g) = if h > 0 { (false, h - 1, g) } else { (true, g, 0) };
                let mut o = format!("P{}.{};id={};h={};", p, n, id, h);
                if g > 0 {
                    o.push_str(&format!("g={};", g));
                }
                if all {
                    o.push_str(if done { "k=d;" } else { "k=a;" });
                }
                o.push_str(&format!("p={}\n", pad));
                self.enqueue(p, if done || all { 1 } else { 2 }, o.into_bytes());
            }
        }
    }

    fn on_input(&mut self, p: usize, data: &[u8]) {
        self.progs[p].bytes_in += data.len() as u64;
        if let Rule::Raw { port } = self.progs[p].spec.rule {
            self.progs[p].lines_in += data.iter().filter(|c| **c == b'\n').count() as u64;
            let slow = self.progs[p].spec.slow * US;
            self.progs[p].slow_debt += slow;
            self.enqueue(p, port, data.to_vec());
            return;
        }
        self.progs[p].in_buf.extend_from_slice(data);
        let buf = std::mem::take(&mut self.progs[p].in_buf);
        let mut from = 0;
        for (i, c) in buf.iter().enumerate() {
            if *c == b'\n' {
                self.on_line(p, &buf[from..=i]);
                from = i + 1;
            }
        }
        self.progs[p].in_buf = buf[from..].to_vec();
    }

    fn on_eof(&mut self, p: usize) {
        if self.progs[p].eof {
            return;
        }
        self.progs[p].eof = true;
        self.rec(k::PROG_EOF, hist::s_in(p), self.progs[p].stdin.is_none() as u32, &[]);
        self.progress();
        let rest = std::mem::take(&mut self.progs[p].in_buf);
        if !rest.is_empty() {
            self.on_line(p, &rest);
        }
    }

    fn step(&mut self, p: usize) {
        if self.progs[p].exited.is_some() {
            return;
        }
        if self.progs[p].stalled_until > self.now {
            let d = self.progs[p].stalled_until - self.now;
            self.sched_in(p, d);
            return;
        }
        if !self.progs[p].started {
            self.progs[p].started = true;
            if self.progs[p].stdin.is_none() && !self.progs[p].spec.no_read {
                self.on_eof(p);
            }
        }
        self.check_acts(p);
        if self.progs[p].exited.is_some() {
            return;
        }
        if self.progs[p].stalled_until > self.now {
            return; // act() scheduled the next step
        }
        if self.progs[p].slow_debt > 0 {
            let d = std::mem::take(&mut self.progs[p].slow_debt);
            self.sched_in(p, d);
            return;
        }
        // write what is queued
        if let Some((port, data, pos)) = self.progs[p].q.pop_front() {
            let port_i = port as usize;
            if self.progs[p].port_dead[port_i] {
                self.sched(p);
                return;
            }
            if self.progs[p].out[port_i].is_none() {
                self.progs[p].lines_out += data.iter().filter(|c| **c == b'\n').count() as u64;
                self.progs[p].bytes_out += data.len() as u64;
                if self.progs[p].inherit[port_i] {
                    raw_write(port_i as i32 + 1, &data);
                }
                self.rec(k::PROG_WRITE, (p * 4 + 1 + port_i) as u32, 1, &data);
                self.progress();
                self.sched(p);
                return;
            }
            let (r_open, space) = {
                let pipe = self.progs[p].out[port_i].as_ref().unwrap();
                (pipe.r_open, pipe.cap.saturating_sub(pipe.buf.len()))
            };
            if !r_open {
                self.rec(k::PROG_EPIPE, (p * 4 + 1 + port_i) as u32, 0, &[]);
                if self.progs[p].spec.ignore_sigpipe {
                    self.progs[p].port_dead[port_i] = true;
                    self.sched(p);
                } else {
                    self.fault(p as u32, fault::SIGPIPE);
                    self.prog_exit(p, SIGPIPE);
                }
                return;
            }
            if space == 0 {
                self.progs[p].q.push_front((port, data, pos));
                return; // blocked until pa2 reads or closes
            }
            let mut n = space.min(data.len() - pos);
            let v = self.decide(class::PROG_FRAG, p as u32, 512) as usize;
            if v > 0 {
                n = n.min(v);
            }
            let part = data[pos..pos + n].to_vec();
            {
                let pr = &mut self.progs[p];
                let pipe = pr.out[port_i].as_mut().unwrap();
                pipe.buf.extend(part.iter());
                pr.lines_out += part.iter().filter(|c| **c == b'\n').count() as u64;
                pr.bytes_out += n as u64;
                if let Some(w) = pipe.pa_waker.take() {
                    self.wake.push(w);
                }
            }
            self.rec(k::PROG_WRITE, (p * 4 + 1 + port_i) as u32, 0, &part);
            self.progress();
            if pos + n < data.len() {
                self.progs[p].q.push_front((port, data, pos + n));
            }
            self.sched(p);
            return;
        }
        let pr = &self.progs[p];
        let can_emit = pr.emit_idx < pr.spec.emit.len() && (!pr.spec.emit_at_eof || pr.eof || pr.stdin_closed);
        let can_read = pr.stdin.is_some() && !pr.eof && !pr.stdin_closed && !pr.spec.no_read;
        let readable = can_read && pr.stdin.as_ref().map(|s| !s.buf.is_empty() || !s.w_open).unwrap_or(false);
        let mut do_read = readable;
        if can_emit && self.progs[p].spec.emit_first {
            do_read = false;
        } else if readable && can_emit {
            do_read = self.decide(class::PROG_MIX, p as u32, 1) == 0;
        }
        if do_read {
            let avail = self.progs[p].stdin.as_ref().unwrap().buf.len();
            if avail == 0 {
                self.on_eof(p);
                self.sched(p);
                return;
            }
            let mut n = avail.min(4096);
            let v = self.decide(class::PROG_READ, p as u32, 512) as usize;
            if v > 0 {
                n = n.min(v);
            }
            let data: Vec<u8> = {
                let pipe = self.progs[p].stdin.as_mut().unwrap();
                let d = pipe.buf.drain(..n).collect();
                if let Some(w) = pipe.pa_waker.take() {
                    self.wake.push(w);
                }
                d
            };
            self.rec(k::PROG_READ, hist::s_in(p), 0, &data);
            self.progress();
            self.on_input(p, &data);
            self.sched(p);
            return;
        }
        if can_emit {
            let e = self.progs[p].spec.emit[self.progs[p].emit_idx].clone();
            if e.gap > 0 && !self.progs[p].gap_done {
                self.progs[p].gap_done = true;
                self.fault(p as u32, fault::SOURCE_GAP);
                self.sched_in(p, e.gap * US);
                return;
            }
            self.progs[p].gap_done = false;
            self.progs[p].emit_idx += 1;
            self.enqueue(p, e.port, e.seg.bytes());
            self.sched(p);
            return;
        }
        let pr = &self.progs[p];
        let emitted = pr.emit_idx >= pr.spec.emit.len();
        let done = match pr.spec.exit_on {
            0 => emitted && (pr.eof || pr.stdin_closed),
            1 => emitted,
            _ => false,
        };
        if (emitted || pr.eof) && self.flush_blocks(p) {
            self.sched(p);
            return;
        }
        if done {
            let pr = &self.progs[p];
            if pr.spec.linger > 0 && !pr.lingered {
                let (l, c) = (pr.spec.linger, pr.spec.close_first);
                self.progs[p].lingered = true;
                if c {
                    for s in 0..3 {
                        self.prog_close(p, s, false);
                    }
                }
                self.sched_in(p, l * US);
                return;
            }
            let c = pr.spec.exit_code;
            let o = pr.spec.orphan;
            if o > 0 {
                self.fault(p as u32, fault::ORPHAN);
                self.push_ev(self.now + o * US, Ev::Orphan(p));
            }
            self.prog_exits(p, (c & 0xff) << 8, o > 0);
        }
        // otherwise: waits for input
    }

    // ---------------------------------------------------------------- pa2's side of the pipes
    pub fn op_cost(&mut self, ent: u32) -> u64 {
        let v = self.dec.decide(class::OP_COST, ent, DELAYS.len() as u32 - 1);
        if v == 0 {
            US / 2
        } else {
            DELAYS[v as usize] * US
        }
    }

    pub fn pipe_read(&mut self, p: usize, port: usize, buf: &mut [u8], w: &Waker) -> Poll<Result<usize, i32>> {
        self.sync_clock();
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let sid = (p * 4 + 1 + port) as u32;
        let err = self.progs[p].spec.read_err;
        let avail = self.progs[p].out[port].as_ref().unwrap().buf.len();
        let through = self.progs[p].out[port].as_ref().unwrap().through;
        let mut limit = usize::MAX;
        if let Some((ep, at, e)) = err {
            if ep as usize == port + 1 {
                if through >= at {
                    self.fault(sid, fault::READ_ERR);
                    self.rec(k::PA_READ_ERR, sid, e as u32, &[]);
                    if self.progs[p].spec.read_err_once {
                        self.progs[p].spec.read_err = None;
                    }
                    self.progress();
                    return Poll::Ready(Err(e));
                }
                limit = at - through;
            }
        }
        if avail == 0 {
            let pipe = self.progs[p].out[port].as_mut().unwrap();
            if !pipe.w_open {
                self.rec(k::PA_EOF, sid, 0, &[]);
                self.progress();
                return Poll::Ready(Ok(0));
            }
            pipe.pa_waker = Some(w.clone());
            return Poll::Pending;
        }
        let mut n = avail.min(buf.len()).min(limit);
        let v = self.decide(class::SHORT_READ, sid, 254) as usize;
        if v > 0 {
            n = n.min(v);
        }
        {
            let pipe = self.progs[p].out[port].as_mut().unwrap();
            for (i, b) in pipe.buf.drain(..n).enumerate() {
                buf[i] = b;
            }
            pipe.through += n;
        }
        let d = buf[..n].to_vec();
        self.rec(k::PA_READ, sid, 0, &d);
        self.progress();
        self.sched(p);
        Poll::Ready(Ok(n))
    }

    pub fn pipe_write(&mut self, p: usize, data: &[u8], w: &Waker) -> Poll<Result<usize, i32>> {
        self.sync_clock();
        let sid = hist::s_in(p);
        let (r_open, space, through) = {
            let pipe = self.progs[p].stdin.as_ref().unwrap();
            (pipe.r_open, pipe.cap.saturating_sub(pipe.buf.len()), pipe.through)
        };
        if !r_open {
            self.rec(k::PA_WRITE_ERR, sid, libc::EPIPE as u32, &[]);
            self.progress();
            return Poll::Ready(Err(libc::EPIPE));
        }
        if data.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let mut limit = usize::MAX;
        if let Some((at, e)) = self.progs[p].spec.write_err {
            if through >= at {
                self.fault(sid, fault::WRITE_ERR);
                self.rec(k::PA_WRITE_ERR, sid, e as u32, &[]);
                self.progress();
                return Poll::Ready(Err(e));
            }
            limit = at - through;
        }
        if space == 0 {
            self.progs[p].stdin.as_mut().unwrap().pa_waker = Some(w.clone());
            return Poll::Pending;
        }
        let mut n = space.min(data.len()).min(limit);
        let v = self.decide(class::SHORT_WRITE, sid, 512) as usize;
        if v > 0 {
            n = n.min(v);
        }
        {
            let pipe = self.progs[p].stdin.as_mut().unwrap();
            pipe.buf.extend(data[..n].iter());
            pipe.through += n;
        }
        self.rec(k::PA_WRITE, sid, 0, &data[..n]);
        self.progress();
        self.sched(p);
        Poll::Ready(Ok(n))
    }

    /// pa2 drops its end of a program's stream (0 stdin, 1 stdout, 2 stderr)
    pub fn pipe_drop(&mut self, p: usize, s: usize) {
        self.sync_clock();
        let mut did = false;
        {
            let pr = &mut self.progs[p];
            let pipe = if s == 0 { pr.stdin.as_mut() } else { pr.out[s - 1].as_mut() };
            if let Some(pipe) = pipe {
                if s == 0 && pipe.w_open {
                    pipe.w_open = false;
                    did = true;
                }
                if s > 0 && pipe.r_open {
                    pipe.r_open = false;
                    did = true;
                }
            }
        }
        if did {
            self.rec(k::PA_CLOSE, (p * 4 + s) as u32, 0, &[]);
            self.progress();
            self.sched(p);
        }
    }

    pub fn status(&mut self, p: usize, w: Option<&Waker>) -> Poll<Result<i32, i32>> {
        self.sync_clock();
        if self.progs[p].status_errs > 0 && self.progs[p].status_visible {
            self.progs[p].status_errs -= 1;
            self.fault(p as u32, fault::STATUS_ERR);
            self.rec(k::STATUS_ERR, p as u32, 0, &[]);
            self.progress();
            return Poll::Ready(Err(libc::EINTR));
        }
        match self.progs[p].exited {
            Some(st) if self.progs[p].status_visible => {
                self.rec(k::STATUS, p as u32, st as u32, &[]);
                self.progress();
                Poll::Ready(Ok(st))
            }
            _ => {
                if let Some(w) = w {
                    self.progs[p].waiters.push(w.clone());
                }
                Poll::Pending
            }
        }
    }
    pub fn kill(&mut self, p: usize, sig: i32) {
        self.sync_clock();
        self.prog_exit(p, sig);
    }

    // ---------------------------------------------------------------- files
    /// whether a path belongs to the simulated world
    pub fn file_known(&self, path: &str) -> bool {
        fn dir(p: &str) -> &str {
            p.rfind('/').map(|i| &p[..i]).unwrap_or("")
        }
        path.starts_with("/sim/") || self.files.iter().any(|f| f.path == path || dir(&f.path) == dir(path))
    }
    pub fn file_size(&self, path: &str) -> Option<usize> {
        self.files.iter().find(|f| f.path == path && f.exists).map(|f| f.content.len())
    }
    pub fn file_content(&self, h: &Handle) -> Vec<u8> {
        if h.null {
            vec![]
        } else {
            self.files[h.file].content.clone()
        }
    }
    pub fn file_removed(&mut self, path: &str) -> Result<(), i32> {
        self.sync_clock();
        self.rec(k::FILE_REMOVED, 0, 0, path.as_bytes());
        match self.files.iter_mut().find(|f| f.path == path && f.exists) {
            Some(f) => {
                f.exists = false;
                f.content.clear();
                Ok(())
            }
            None => Err(libc::ENOENT),
        }
    }
    pub fn file_renamed(&mut self, from: &str, to: &str) -> Result<(), i32> {
        self.sync_clock();
        let a = self.files.iter().position(|f| f.path == from && f.exists).ok_or(libc::ENOENT)?;
        let b = match self.files.iter().position(|f| f.path == to) {
            Some(b) => b,
            None => {
                let o = OpenOpts { write: true, create: true, ..Default::default() };
                self.file_open(to, o)?.file
            }
        };
        if let Some(e) = self.files[b].create_err {
            return Err(e);
        }
        if a != b {
            self.files[b].content = std::mem::take(&mut self.files[a].content);
            self.files[b].exists = true;
            self.files[a].exists = false;
            self.rec(k::FILE_RENAMED, hist::S_FILE + b as u32, hist::S_FILE + a as u32, &[]);
        }
        Ok(())
    }
    pub fn file_open(&mut self, path: &str, o: OpenOpts) -> Result<Handle, i32> {
        self.sync_clock();
        self.progress();
        if path == "/dev/null" {
            return Ok(Handle { file: usize::MAX, pos: 0, opts: o, null: true });
        }
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let f = match self.files.iter().position(|f| f.path == path) {
            Some(f) => f,
            None => {
                self.rec(k::UNKNOWN_PATH, 0, 0, path.as_bytes());
                if !o.create && !o.create_new {
                    return Err(libc::ENOENT);
                }
                self.files.push(FileRt {
                    path: path.to_string(),
                    exists: false,
                    content: vec![],
                    feed: None,
                    open_err: None,
                    create_err: None,
                    sink: SinkRt::new(&SinkSpec::default()),
                });
                self.files.len() - 1
            }
        };
        let flags = [o.read as u8 | (o.write as u8) << 1 | (o.truncate as u8) << 2 | (o.create as u8) << 3 | (o.append as u8) << 4];
        let e = if o.write || o.append { self.files[f].create_err } else { self.files[f].open_err };
        let e = e.or({
            if !self.files[f].exists && !o.create && !o.create_new {
                Some(libc::ENOENT)
            } else if self.files[f].exists && o.create_new {
                Some(libc::EEXIST)
            } else {
                None
            }
        });
        if let Some(e) = e {
            self.fault(hist::S_FILE + f as u32, if o.write || o.append { fault::CREATE_FAIL } else { fault::OPEN_FAIL });
            self.rec(k::FILE_OPEN, hist::S_FILE + f as u32, e as u32, &flags);
            return Err(e);
        }
        self.files[f].exists = true;
        if o.truncate {
            self.files[f].content.clear();
        }
        self.rec(k::FILE_OPEN, hist::S_FILE + f as u32, 0, &flags);
        Ok(Handle { file: f, pos: 0, opts: o, null: false })
    }
    /// extra time until a read at this position can return
    pub fn file_read_ready(&mut self, h: &Handle) -> u64 {
        self.sync_clock();
        if h.null {
            return 0;
        }
        match &self.files[h.file].feed {
            Some(fd) => fd.avail_time(h.pos).saturating_sub(self.now),
            None => 0,
        }
    }
    pub fn file_read(&mut self, h: &mut Handle, buf: &mut [u8]) -> Result<usize, i32> {
        self.sync_clock();
        self.progress();
        if h.null {
            return Ok(0);
        }
        if !h.opts.read {
            return Err(libc::EBADF);
        }
        let sid = hist::S_FILE + h.file as u32;
        let v = self.decide(class::FILE_SHORT, sid, 512) as usize;
        let now = self.now;
        let f = &self.files[h.file];
        let (mut end, err) = match &f.feed {
            Some(fd) if fd.bytes.len() == f.content.len() => (fd.avail_upto(now), fd.err_at),
            _ => (f.content.len(), None),
        };
        if let Some((at, e)) = err {
            if h.pos >= at {
                self.fault(sid, fault::READ_ERR);
                self.rec(k::PA_READ_ERR, sid, e as u32, &[]);
                if let Some(fd) = self.files[h.file].feed.as_mut().filter(|x| x.err_once) {
                    fd.err_at = None;
                }
                return Err(e);
            }
            end = end.min(at);
        }
        let mut n = end.saturating_sub(h.pos).min(buf.len());
        if v > 0 {
            n = n.min(v);
        }
        let d = self.files[h.file].content[h.pos..h.pos + n].to_vec();
        buf[..n].copy_from_slice(&d);
        h.pos += n;
        if n == 0 && !buf.is_empty() {
            self.rec(k::PA_EOF, sid, 0, &[]);
        } else {
            self.rec(k::PA_READ, sid, 0, &d);
        }
        Ok(n)
    }
    fn sink_ready(s: &mut SinkRt) -> u64 {
        if s.stalls_done < s.spec.stalls.len() {
            let (at, us) = s.spec.stalls[s.stalls_done];
            if s.accepted >= at {
                s.stalls_done += 1;
                return us * US;
            }
        }
        0
    }
    fn sink_take(s: &mut SinkRt, len: usize) -> Result<usize, i32> {
        let mut n = len;
        if let Some((at, e)) = s.spec.err_at {
            if s.spec.err_once && !s.spec.err_partial {
                if s.accepted + len <= at || len == 0 || s.op_begun {
                    s.op_begun = true;
                    return Ok(len);
                }
                s.spec.err_at = None;
                return Err(e);
            }
            if s.accepted >= at && len > 0 {
                if s.spec.err_once {
                    s.spec.err_at = None;
                }
                return Err(e);
            }
            n = n.min(at - s.accepted);
        }
        Ok(n)
    }
    pub fn file_write_ready(&mut self, h: &Handle) -> u64 {
        if h.null {
            return 0;
        }
        self.files[h.file].sink.op_begun = false;
        let d = Self::sink_ready(&mut self.files[h.file].sink);
        if d > 0 {
            self.fault(hist::S_FILE + h.file as u32, fault::SINK_STALL);
        }
        d
    }
    pub fn file_write(&mut self, h: &mut Handle, buf: &[u8]) -> Result<usize, i32> {
        self.sync_clock();
        self.progress();
        if h.null {
            return Ok(buf.len());
        }
        if !h.opts.write && !h.opts.append {
            return Err(libc::EBADF);
        }
        let sid = hist::S_FILE + h.file as u32;
        match Self::sink_take(&mut self.files[h.file].sink, buf.len()) {
            Err(e) => {
                self.fault(sid, fault::WRITE_ERR);
                self.rec(k::PA_WRITE_ERR, sid, e as u32, &[]);
                Err(e)
            }
            Ok(mut n) => {
                let v = self.decide(class::FILE_SHORT, sid, 512) as usize;
                if v > 0 {
                    n = n.min(v);
                }
                let f = &mut self.files[h.file];
                if h.opts.append {
                    h.pos = f.content.len();
                }
                let end = h.pos + n;
                if f.content.len() < end {
                    f.content.resize(end, 0);
                }
                f.content[h.pos..end].copy_from_slice(&buf[..n]);
                f.sink.accepted += n;
                let at = h.pos;
                h.pos = end;
                self.rec(k::PA_WRITE, sid, at as u32, &buf[..n]);
                Ok(n)
            }
        }
    }
    pub fn file_len(&mut self, h: &Handle) -> usize {
        if h.null {
            0
        } else {
            self.files[h.file].content.len()
        }
    }
    pub fn file_set_len(&mut self, h: &Handle, n: usize) {
        if !h.null {
            self.files[h.file].content.resize(n, 0);
            self.rec(k::FILE_LEN, hist::S_FILE + h.file as u32, n as u32, &[]);
        }
    }
    pub fn file_close(&mut self, h: &Handle) {
        if !h.null {
            self.rec(k::PA_CLOSE, hist::S_FILE + h.file as u32, 0, &[]);
        }
    }

    // ---------------------------------------------------------------- standard streams
    pub fn stdin_ready(&mut self) -> u64 {
        self.sync_clock();
        self.stdin.avail_time(self.stdin_pos).saturating_sub(self.now)
    }
    pub fn stdin_read(&mut self, buf: &mut [u8]) -> Result<usize, i32> {
        self.sync_clock();
        self.progress();
        let v = self.decide(class::FILE_SHORT, hist::S_STDIN, 512) as usize;
        let now = self.now;
        let mut end = self.stdin.avail_upto(now);
        if let Some((at, e)) = self.stdin.err_at {
            if self.stdin_pos >= at {
                self.fault(hist::S_STDIN, fault::READ_ERR);
                self.rec(k::PA_READ_ERR, hist::S_STDIN, e as u32, &[]);
                if self.stdin.err_once {
                    self.stdin.err_at = None;
                }
                return Err(e);
            }
            end = end.min(at);
        }
        let mut n = end.saturating_sub(self.stdin_pos).min(buf.len());
        if v > 0 {
            n = n.min(v);
        }
        buf[..n].copy_from_slice(&self.stdin.bytes[self.stdin_pos..self.stdin_pos + n]);
        self.stdin_pos += n;
        if n == 0 && !buf.is_empty() {
            self.rec(k::PA_EOF, hist::S_STDIN, 0, &[]);
        } else {
            let d = buf[..n].to_vec();
            self.rec(k::PA_READ, hist::S_STDIN, 0, &d);
        }
        Ok(n)
    }
    pub fn std_ready(&mut self, err: bool) -> u64 {
        let d = Self::sink_ready(if err { &mut self.stderr } else { &mut self.stdout });
        if d > 0 {
            self.fault(if err { hist::S_STDERR } else { hist::S_STDOUT }, fault::SINK_STALL);
        }
        d
    }
    pub fn std_write(&mut self, err: bool, buf: &[u8]) -> Result<usize, i32> {
        self.sync_clock();
        self.progress();
        let sid = if err { hist::S_STDERR } else { hist::S_STDOUT };
        let v = self.decide(class::FILE_SHORT, sid, 512) as usize;
        let r = Self::sink_take(if err { &mut self.stderr } else { &mut self.stdout }, buf.len());
        match r {
            Err(e) => {
                self.fault(sid, fault::WRITE_ERR);
                self.rec(k::PA_WRITE_ERR, sid, e as u32, &[]);
                Err(e)
            }
            Ok(mut n) => {
                if v > 0 {
                    n = n.min(v);
                }
                if err {
                    self.stderr.accepted += n
                } else {
                    self.stdout.accepted += n
                }
                self.rec(k::PA_WRITE, sid, 0, &buf[..n]);
                raw_write(if err { 2 } else { 1 }, &buf[..n]);
                Ok(n)
            }
        }
    }
}

fn raw_write(fd: i32, buf: &[u8]) {
    let mut o = 0;
    while o < buf.len() {
        let w = unsafe { libc::write(fd, buf[o..].as_ptr() as *const _, buf.len() - o) };
        if w <= 0 {
            die(verdict::HARNESS, "write to captured output failed");
        }
        o += w as usize;
    }
}

fn io_kind(call_json: &str, i: usize) -> String {
    serde_json::from_str::<serde_json::Value>(call_json).ok().and_then(|v| v["io"][i].as_str().map(|s| s.to_string())).unwrap_or_default()
}

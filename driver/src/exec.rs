//! Worker processes: fork servers of the simulated pa2.
use simcore::hist::{self, Rec};
use simcore::scenario::Scenario;
use simcore::shm::{self, hdr};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::net::UnixStream;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};

/// where pa2 is started
pub const CWD: &str = "/usr/lib";

/// The environment pa2 itself is started in, beside what the simulator needs.
pub const INHERITED: [(&str, &str); 5] = [("PA2_INHERITED", "yes"), ("HOME", "/home/x y"), ("lower", "case=1"), ("LANG", "C.UTF-8"), ("EMPTY", "")];

pub struct Worker {
    bin: String,
    shm_fd: OwnedFd,
    cfg: OwnedFd,
    out: OwnedFd,
    err: OwnedFd,
    base: *mut u8,
    ctl: Option<UnixStream>,
    child: Option<Child>,
    /// what the process was started for (see `Scenario::tool`)
    tool: Vec<String>,
}
unsafe impl Send for Worker {}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    /// killed by signal (SIGPROF: used up its processor time)
    Signal(i32),
    /// the simulator stopped it, see `verdict`
    Stopped,
    /// did not finish in real time
    WallTimeout,
}

#[derive(Clone)]
pub struct Outcome {
    pub end: End,
    pub verdict: u64,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub hist: Vec<Rec>,
    pub polls: u64,
    pub events: u64,
    pub sim_ns: u64,
    pub trace: u64,
    pub timers: u64,
    pub started: bool,
    pub overflow: u64,
    pub decisions: Vec<(u16, u32, u32, u32)>,
    pub cls: Vec<u64>,
}
impl Outcome {
    pub fn fingerprint(&self) -> (String, u64, u64, u64) {
        let mut h = 0xcbf29ce484222325u64;
        for b in self.stdout.iter().chain(self.stderr.iter().filter(|b| !b.is_ascii_digit())) {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        (format!("{:?}", self.end), self.verdict, self.trace, h)
    }
}

fn memfd(name: &str) -> OwnedFd {
    let c = std::ffi::CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(c.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create failed");
    unsafe { OwnedFd::from_raw_fd(fd) }
}

/// `thread 'main' (4711) panicked at`: the number differs from run to run.
fn without_thread_ids(v: Vec<u8>) -> Vec<u8> {
    let end = b") panicked at ";
    let mut out = Vec::with_capacity(v.len());
    let mut rest = &v[..];
    while let Some(i) = rest.windows(end.len()).position(|w| w == end) {
        let digits = rest[..i].iter().rev().take_while(|b| b.is_ascii_digit()).count();
        let keep = if digits > 0 && rest[..i - digits].ends_with(b"' (") { i - digits } else { i };
        out.extend_from_slice(&rest[..keep]);
        out.extend_from_slice(end);
        rest = &rest[i + end.len()..];
    }
    out.extend_from_slice(rest);
    out
}

fn slurp(fd: &OwnedFd) -> Vec<u8> {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    unsafe { libc::fstat(fd.as_raw_fd(), &mut st) };
    let mut v = vec![0u8; st.st_size as usize];
    let mut o = 0;
    while o < v.len() {
        let n = unsafe { libc::pread(fd.as_raw_fd(), v[o..].as_mut_ptr() as *mut _, v.len() - o, o as i64) };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
    v.truncate(o);
    v
}

impl Worker {
    pub fn new(bin: &str) -> Worker {
        let shm_fd = memfd("pa2sim-shm");
        unsafe { libc::ftruncate(shm_fd.as_raw_fd(), shm::TOTAL as i64) };
        let base = shm::map(shm_fd.as_raw_fd());
        Worker {
            bin: bin.to_string(),
            shm_fd,
            cfg: memfd("pa2sim-cfg"),
            out: memfd("pa2sim-out"),
            err: memfd("pa2sim-err"),
            base,
            ctl: None,
            child: None,
            tool: vec![],
        }
    }
    fn start(&mut self) {
        let (a, b) = UnixStream::pair().unwrap();
        let fds = [b.as_raw_fd(), self.shm_fd.as_raw_fd(), self.cfg.as_raw_fd(), self.out.as_raw_fd(), self.err.as_raw_fd()];
        let mut c = Command::new(&self.bin);
        let graph = self.tool.first().map(|x| x == "graph").unwrap_or(false);
        c.arg(if self.tool.is_empty() { "process" } else if graph { "graph" } else { "config" });
        c.args(["--config", "/dev/fd/12", "--format", "FMT_"]).args(&self.tool[graph as usize..]);
        c.env_clear().env("PA2SIM", "1").env("RUST_BACKTRACE", "0").envs(INHERITED);
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        c.current_dir(CWD);
        unsafe {
            c.pre_exec(move || {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // move everything out of the way first
                let mut tmp = [0; 5];
                for (i, f) in fds.iter().enumerate() {
                    tmp[i] = libc::fcntl(*f, libc::F_DUPFD, 100);
                    if tmp[i] < 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                for (i, f) in tmp.iter().enumerate() {
                    libc::dup2(*f, 10 + i as i32);
                    libc::close(*f);
                }
                Ok(())
            });
        }
        let child = c.spawn().unwrap_or_else(|e| panic!("cannot start {}: {}", self.bin, e));
        drop(b);
        self.ctl = Some(a);
        self.child = Some(child);
    }
    fn stop(&mut self) {
        self.ctl = None;
        if let Some(mut c) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    pub fn run(&mut self, sc: &Scenario) -> Outcome {
        use std::io::{Read, Write};
        if self.tool != sc.tool {
            self.stop();
            self.tool = sc.tool.clone();
        }
        if self.child.is_none() {
            self.start();
        }
        let text = serde_json::to_vec(sc).unwrap();
        assert!(text.len() <= shm::SCEN_CAP, "scenario too big");
        unsafe {
            std::ptr::write_bytes(self.base, 0, shm::SCEN_OFF);
            std::ptr::copy_nonoverlapping(text.as_ptr(), self.base.add(shm::SCEN_OFF), text.len());
            shm::put(self.base, hdr::SCEN_LEN, text.len() as u64);
            for f in [&self.out, &self.err] {
                libc::ftruncate(f.as_raw_fd(), 0);
                libc::lseek(f.as_raw_fd(), 0, libc::SEEK_SET);
            }
        }
        let mut end = End::WallTimeout;
        let ctl = self.ctl.as_mut().unwrap();
        ctl.set_read_timeout(Some(std::time::Duration::from_secs(120))).unwrap();
        let mut st = [0u8; 4];
        let ok = ctl.write_all(b"r").is_ok() && ctl.read_exact(&mut st).is_ok();
        if ok {
            let st = i32::from_ne_bytes(st);
            end = if libc::WIFSIGNALED(st) {
                End::Signal(libc::WTERMSIG(st))
            } else if shm::get(self.base, hdr::VERDICT) != 0 {
                End::Stopped
            } else {
                End::Exit(libc::WEXITSTATUS(st))
            };
        } else {
            self.stop();
        }
        let b = self.base;
        let nd = shm::get(b, hdr::DEC_LEN) as usize / 16;
        let mut decisions = Vec::with_capacity(nd);
        unsafe {
            let p = b.add(shm::DEC_OFF) as *const u32;
            for i in 0..nd {
                decisions.push((*p.add(4 * i) as u16, *p.add(4 * i + 1), *p.add(4 * i + 2), *p.add(4 * i + 3)));
            }
        }
        Outcome {
            end,
            verdict: shm::get(b, hdr::VERDICT),
            stdout: slurp(&self.out),
            stderr: without_thread_ids(slurp(&self.err)),
            hist: hist::read_all(b),
            polls: shm::get(b, hdr::POLLS),
            events: shm::get(b, hdr::EVENTS),
            sim_ns: shm::get(b, hdr::SIM_TIME),
            trace: shm::get(b, hdr::TRACE_HASH),
            timers: shm::get(b, hdr::TIMERS),
            started: shm::get(b, hdr::STARTED) == 1,
            overflow: shm::get(b, hdr::OVERFLOW),
            decisions,
            cls: (0..simcore::scenario::class::COUNT).map(|i| shm::get(b, hdr::CLS0 + i)).collect(),
        }
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        self.stop();
        unsafe { libc::munmap(self.base as *mut _, shm::TOTAL) };
    }
}

use serde::{Deserialize, Serialize};

fn is_default<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}

/// A piece of data: text, then a fill byte repeated n times, then raw bytes, then a terminator.
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Seg {
    #[serde(default, skip_serializing_if = "is_default")]
    pub s: String,
    #[serde(default, skip_serializing_if = "is_default")]
    pub n: usize,
    #[serde(default, skip_serializing_if = "is_default")]
    pub raw: Vec<u8>,
    /// 0 none, 1 "\n", 2 "\r\n"
    #[serde(default, skip_serializing_if = "is_default")]
    pub t: u8,
}
impl Seg {
    pub fn line<S: Into<String>>(s: S) -> Seg {
        Seg { s: s.into(), t: 1, ..Default::default() }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.s.len() + self.n + 2);
        v.extend_from_slice(self.s.as_bytes());
        v.resize(v.len() + self.n, b'x');
        v.extend_from_slice(&self.raw);
        match self.t {
            1 => v.push(b'\n'),
            2 => v.extend_from_slice(b"\r\n"),
            _ => (),
        }
        v
    }
}

/// A passive source of bytes (file, fifo, stdin). `gaps` = (segment index, microseconds of silence before it).
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Feed {
    #[serde(default, skip_serializing_if = "is_default")]
    pub segs: Vec<Seg>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub gaps: Vec<(usize, u64)>,
    /// silence before end of file
    #[serde(default, skip_serializing_if = "is_default")]
    pub eof_gap: u64,
    /// reading fails with this errno once this many bytes have been read
    #[serde(default, skip_serializing_if = "is_default")]
    pub err_at: Option<(usize, i32)>,
    /// ... but only the first time
    #[serde(default, skip_serializing_if = "is_default")]
    pub err_once: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct SinkSpec {
    /// writing fails (persistently) with this errno once this many bytes have been accepted
    #[serde(default, skip_serializing_if = "is_default")]
    pub err_at: Option<(usize, i32)>,
    /// ... but only the first time
    #[serde(default, skip_serializing_if = "is_default")]
    pub err_once: bool,
    /// ... and also in the middle of an operation (otherwise one that fails only once does nothing)
    #[serde(default, skip_serializing_if = "is_default")]
    pub err_partial: bool,
    /// (after this many bytes, stall this many microseconds)
    #[serde(default, skip_serializing_if = "is_default")]
    pub stalls: Vec<(usize, u64)>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct FileSpec {
    pub path: String,
    /// content if the file exists
    #[serde(default, skip_serializing_if = "is_default")]
    pub feed: Option<Feed>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub open_err: Option<i32>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub create_err: Option<i32>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub sink: SinkSpec,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Rule {
    /// every input line goes, with a new header, to the ports in route[i % len] (bit 0 stdout, bit 1 stderr)
    Lines { route: Vec<u8> },
    /// bytes are passed on as read
    Raw { port: u8 },
    /// lines with h>0 go to stderr with h-1, lines with h==0 to stdout
    Loop,
    /// all lines go to stdout: with h>0 as h-1 and marked k=a (again), with h==0 marked k=d (done)
    LoopAll,
    /// lines that have this in them go to stdout, unchanged
    Filter { keep: String },
    Sink,
}
impl Default for Rule {
    fn default() -> Self {
        Rule::Sink
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Emit {
    /// 1 stdout, 2 stderr
    pub port: u8,
    pub seg: Seg,
    #[serde(default, skip_serializing_if = "is_default")]
    pub gap: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum When {
    LinesIn(u64),
    BytesIn(u64),
    BytesOut(u64),
    LinesOut(u64),
    Time(u64),
    Eof,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum What {
    Exit(i32),
    Kill(i32),
    CloseStdin,
    CloseStdout,
    CloseStderr,
    Stall(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct ProgSpec {
    pub cmd: String,
    #[serde(default, skip_serializing_if = "is_default")]
    pub spawn_err: Option<i32>,
    /// cannot be started in this directory (there is none)
    #[serde(default, skip_serializing_if = "is_default")]
    pub no_dir: Option<String>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub no_read: bool,
    #[serde(default, skip_serializing_if = "is_default")]
    pub rule: Rule,
    #[serde(default, skip_serializing_if = "is_default")]
    pub emit: Vec<Emit>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub emit_at_eof: bool,
    /// reads its input only after it has emitted everything
    #[serde(default, skip_serializing_if = "is_default")]
    pub emit_first: bool,
    /// output is collected in blocks of this size (0: written line by line)
    #[serde(default, skip_serializing_if = "is_default")]
    pub block: usize,
    #[serde(default, skip_serializing_if = "is_default")]
    pub acts: Vec<(When, What)>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub exit_code: i32,
    /// 0: after emitting everything and end of stdin; 1: after emitting everything; 2: never by itself
    #[serde(default, skip_serializing_if = "is_default")]
    pub exit_on: u8,
    #[serde(default, skip_serializing_if = "is_default")]
    pub linger: u64,
    /// close streams before lingering
    #[serde(default, skip_serializing_if = "is_default")]
    pub close_first: bool,
    /// when it exits by itself, a child of its own keeps stdout and stderr open for this long,
    #[serde(default, skip_serializing_if = "is_default")]
    pub orphan: u64,
    /// ... writes this (the port as in `Emit`) and ends
    #[serde(default, skip_serializing_if = "is_default")]
    pub orphan_says: Option<Emit>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub ignore_sigpipe: bool,
    /// capacity of its pipes (0: 65536)
    #[serde(default, skip_serializing_if = "is_default")]
    pub pipe_cap: usize,
    /// number of transient errors of the wait call
    #[serde(default, skip_serializing_if = "is_default")]
    pub status_errs: u32,
    #[serde(default, skip_serializing_if = "is_default")]
    pub start: u64,
    /// extra microseconds per line read
    #[serde(default, skip_serializing_if = "is_default")]
    pub slow: u64,
    /// reading pa2's end of its (stdout, stderr) fails after this many bytes
    #[serde(default, skip_serializing_if = "is_default")]
    pub read_err: Option<(u8, usize, i32)>,
    /// ... but only the first time
    #[serde(default, skip_serializing_if = "is_default")]
    pub read_err_once: bool,
    /// writing to its stdin fails with this errno (not EPIPE) after this many bytes
    #[serde(default, skip_serializing_if = "is_default")]
    pub write_err: Option<(usize, i32)>,
}

/// (percent of decisions that are not the default, largest value)
pub type Cls = (u8, u32);

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Timing {
    /// indexed by decision class
    pub cls: Vec<Cls>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Limits {
    pub max_polls: u64,
    pub idle_us: u64,
    /// pa2 is killed when this many things have been recorded
    #[serde(default, skip_serializing_if = "is_default")]
    pub crash_at: Option<u64>,
}
impl Default for Limits {
    fn default() -> Self {
        Limits { max_polls: 2_000_000, idle_us: 300_000_000, crash_at: None }
    }
}

/// How reading the configuration goes.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct ConfigIo {
    /// the most the reads give, in turn
    #[serde(default, skip_serializing_if = "is_default")]
    pub max: Vec<u32>,
    /// reading fails from this offset on
    #[serde(default, skip_serializing_if = "is_default")]
    pub err: Option<(u64, i32)>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub open_err: Option<i32>,
    /// bytes put into the text
    #[serde(default, skip_serializing_if = "is_default")]
    pub bytes: Vec<(usize, u8)>,
    /// (config commands) the most the writes of the result take, in turn
    #[serde(default, skip_serializing_if = "is_default")]
    pub out_max: Vec<u32>,
    /// (config commands) writing the result fails from this offset on
    #[serde(default, skip_serializing_if = "is_default")]
    pub out_err: Option<(u64, i32)>,
}

/// A call of one of pa2's config commands, which prints a changed configuration.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Step {
    /// what comes after `config --config FILE --format F`
    pub args: Vec<String>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub yaml: bool,
    #[serde(default, skip_serializing_if = "is_default")]
    pub config_stdin: bool,
    #[serde(default, skip_serializing_if = "is_default")]
    pub io: ConfigIo,
    pub hash_seed: u64,
    /// another configuration than the one at hand
    #[serde(default, skip_serializing_if = "is_default")]
    pub config: Option<String>,
    /// it cannot do what it should: what it printed is not used
    #[serde(default, skip_serializing_if = "is_default")]
    pub fails: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Scenario {
    pub config: String,
    #[serde(default, skip_serializing_if = "is_default")]
    pub config_io: ConfigIo,
    #[serde(default, skip_serializing_if = "is_default")]
    pub yaml: bool,
    /// the configuration comes from pa2's stdin (`--config -`)
    #[serde(default, skip_serializing_if = "is_default")]
    pub config_stdin: bool,
    /// the configuration is passed through these commands first
    #[serde(default, skip_serializing_if = "is_default")]
    pub steps: Vec<Step>,
    /// run this config command instead of the pipeline
    #[serde(default, skip_serializing_if = "is_default")]
    pub tool: Vec<String>,
    pub hash_seed: u64,
    pub sched_seed: u64,
    /// explicit schedule: all decisions not listed take their default
    #[serde(default, skip_serializing_if = "is_default")]
    pub decisions: Option<Vec<(u16, u32, u32, u32)>>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub stdin: Feed,
    #[serde(default, skip_serializing_if = "is_default")]
    pub files: Vec<FileSpec>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub stdout: SinkSpec,
    #[serde(default, skip_serializing_if = "is_default")]
    pub stderr: SinkSpec,
    #[serde(default, skip_serializing_if = "is_default")]
    pub progs: Vec<ProgSpec>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub timing: Timing,
    #[serde(default, skip_serializing_if = "is_default")]
    pub limits: Limits,
}

pub mod class {
    pub const PROG_START: u16 = 0;
    pub const PROG_STEP: u16 = 1;
    pub const BLOCKING: u16 = 2;
    pub const POLL_LAT: u16 = 3;
    pub const OP_COST: u16 = 4;
    pub const TIMER_LATE: u16 = 5;
    pub const SHORT_READ: u16 = 6;
    pub const SHORT_WRITE: u16 = 7;
    pub const PROG_FRAG: u16 = 8;
    pub const PROG_READ: u16 = 9;
    pub const TASK_PICK: u16 = 10;
    pub const PROG_MIX: u16 = 11;
    pub const FILE_SHORT: u16 = 12;
    pub const SPURIOUS: u16 = 13;
    pub const EXIT_NOTICE: u16 = 14;
    pub const COUNT: usize = 15;
    pub const NAMES: [&str; COUNT] = [
        "program_start_delay", "program_step_delay", "blocking_pool_delay", "late_poll", "slow_operation",
        "late_timer", "short_pipe_read", "short_pipe_write", "program_fragments_output", "program_short_read",
        "task_order", "program_emit_vs_read", "short_file_io", "spurious_wakeup", "late_exit_notice",
    ];
}

pub const DELAYS: [u64; 12] = [1, 5, 20, 100, 500, 2_000, 10_000, 50_000, 200_000, 1_000_000, 3_000_000, 10_000_000];

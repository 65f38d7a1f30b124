//! A test case: graph, scenario, and the checks that decide the property for it.
use crate::topo::Topo;
use serde::{Deserialize, Serialize};
use simcore::scenario::Scenario;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Mode {
    /// everything its sources produced
    Complete,
    /// an intact beginning of what its sources produced
    Prefix,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Check {
    /// pa2 ends by itself (no deadlock, livelock, crash by signal)
    Ends,
    /// exit code
    ExitZero,
    ExitNonZero,
    /// stderr holds exactly the data of the stderr drains
    QuietStderr,
    /// if the exit code is not zero, stderr says something; names all of these components (all, not any)
    Reports { names: Vec<String> },
    /// stdout holds exactly the data of the stdout drains
    PureStdout,
    /// received data of one sink (drain or launch)
    Data { node: usize, mode: Mode },
    AllData { mode: Mode },
    /// these sinks received the same bytes
    Same { nodes: Vec<usize> },
    /// every launched program read its input to the end
    InputsEnded,
    /// whenever pa2 has something to do (end included) it takes at most this many microseconds until something happens
    EndBound { us: u64 },
    /// the run ends before this time
    EndWithin { us: u64 },
    /// every line reaches the next program or drain within this time (direct hops only)
    Latency { us: u64 },
    /// every program was started exactly once, as configured
    Launches,
    /// pa2 ended after all programs
    Outlives,
    /// exit status messages: exactly one per program and connected sink, correct, after the program's last output
    ExitStatus { launch: usize, sink: usize },
    /// with exit code 0 all drains hold everything their sources produced
    SuccessMeansAll,
    /// between taken from `src` and handed to `dst` there are never more than this many bytes
    InFlight { src: usize, port: u8, dst: Vec<usize>, bytes: usize },
    /// the source was taken in completely before time `by` (microseconds)
    TakenBy { src: usize, port: u8, by: u64 },
    /// nothing more is taken from src between the two times
    Idle { polls_per_s: u64, after_us: u64, min_us: u64 },
    /// junction order: `hi` sources win over `lo` sources while both wait
    Priority { sink: usize, hi: Vec<(usize, u8)>, lo: Vec<(usize, u8)>, slack: usize, skip: usize },
    /// same priority: line counts stay close while all wait
    Fair { sink: usize, of: Vec<(usize, u8)>, slack: usize, skip: usize },
    /// lines of `of` all arrived at the sink before time
    ArrivedBy { sink: usize, of: (usize, u8), by: u64 },
    /// regulator: lines taken from the source but not handed out by the buffers
    /// while more than `high + slack` lines are between the (source, port, consumer) of `fill`, `src` is stopped
    Gated { src: usize, port: u8, fill: Vec<(usize, u8, usize)>, low: usize, high: usize, slack: usize, after: u64 },
    Watermark { src: usize, port: u8, dst: Vec<usize>, low: usize, high: usize, slack: usize },
    /// the program's input ended / the source was no longer read although it had more: stopped early
    StoppedEarly { src: usize, port: u8, who: Vec<usize>, bytes: usize },
    /// the program ran to its own end: was not killed by SIGPIPE, wrote everything
    Undisturbed { launch: usize },
    /// the source was read to its end
    ReadFully { src: usize, port: u8 },
    /// every message of the loop makes its rounds: (entry program's tokens) number of lines with h == k seen at the loop program
    Loop { prog: usize, seeds: Vec<(String, u32)> },
    /// pre: this run is only decisive if pa2 was told that a write to this launch failed
    IfWriteFailed { node: usize, then: Vec<Check> },
    /// only if the program did not get everything that was meant for it
    /// pa2 killed at that many random points, and run again on what is left
    Crashes { points: usize },
    IfUndelivered { node: usize, then: Vec<Check> },
    /// when not all lines that begin with `tag` were handed to `node`
    IfUndeliveredOf { node: usize, tag: String, then: Vec<Check> },
    IfExitZero { then: Vec<Check> },
    IfFault { kind: u32, then: Vec<Check> },
    /// the same pipeline written differently gave the same result (evaluated by the driver on several runs)
    SameAs,
    /// the same pipeline written differently passes the other checks exactly when this one does (evaluated by the driver)
    Rewritten,
    /// refused before anything was touched; stderr says why, naming these
    Refused { names: Vec<String> },
    /// what no connection uses is not started, read, created or written
    UnusedUntouched,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub property: String,
    pub family: String,
    pub seed: u64,
    pub topo: Topo,
    pub sc: Scenario,
    pub checks: Vec<Check>,
    /// other ways to write the same pipeline (config, yaml, hash seed, schedule seed)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub variants: Vec<Scenario>,
    /// data may be removed without changing what is expected
    #[serde(default)]
    pub shrink_data: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Finding {
    pub code: String,
    pub msg: String,
}

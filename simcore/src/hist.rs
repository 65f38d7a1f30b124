//! Recorded history of a run.
use crate::shm::{self, hdr};

pub mod k {
    pub const SPAWN: u16 = 1; // id prog, data = json of the spawn call; aux errno (0 ok)
    pub const PROG_READ: u16 = 2; // program read bytes from its stdin; id stream
    pub const PROG_EOF: u16 = 3; // program saw end of stdin
    pub const PROG_WRITE: u16 = 4; // program wrote bytes to a port; id stream; aux 1 = discarded (null)
    pub const PROG_CLOSE: u16 = 5; // program closed a stream
    pub const PROG_EXIT: u16 = 6; // id prog, aux = raw wait status
    pub const PA_READ: u16 = 7; // pa2 read bytes from a stream
    pub const PA_EOF: u16 = 8;
    pub const PA_READ_ERR: u16 = 9; // aux errno
    pub const PA_WRITE: u16 = 10; // pa2's bytes accepted by a stream
    pub const PA_WRITE_ERR: u16 = 11;
    pub const PA_CLOSE: u16 = 12; // pa2 dropped its end
    pub const FILE_OPEN: u16 = 13; // id file, aux errno, data[0]: bit0 read bit1 write bit2 truncated bit3 create
    pub const STATUS: u16 = 14; // wait call delivered status to pa2: id prog, aux raw status
    pub const STATUS_ERR: u16 = 15;
    pub const TICK: u16 = 16; // id = polls so far (once per simulated second at most)
    pub const FAULT: u16 = 17; // aux: fault kind
    pub const WORLD_END: u16 = 18;
    pub const UNKNOWN_PATH: u16 = 19;
    pub const PROG_EPIPE: u16 = 20;
    pub const FILE_REMOVED: u16 = 22; // data = path
    pub const FILE_LEN: u16 = 23; // id file, aux = new length
    pub const FILE_RENAMED: u16 = 24; // id = new file, aux = id of the old one
    pub const PROG_CHUNK: u16 = 21; // stdin feed chunk became available (id stream, aux = upto)
}
pub mod fault {
    pub const SPAWN_FAIL: u32 = 0;
    pub const OPEN_FAIL: u32 = 1;
    pub const CREATE_FAIL: u32 = 2;
    pub const READ_ERR: u32 = 3;
    pub const WRITE_ERR: u32 = 4;
    pub const KILL: u32 = 5;
    pub const EARLY_EXIT: u32 = 6;
    pub const CLOSE_STDIN: u32 = 7;
    pub const CLOSE_STDOUT: u32 = 8;
    pub const CLOSE_STDERR: u32 = 9;
    pub const STALL: u32 = 10;
    pub const STATUS_ERR: u32 = 11;
    pub const SINK_STALL: u32 = 12;
    pub const SOURCE_GAP: u32 = 13;
    pub const SIGPIPE: u32 = 14;
    pub const ORPHAN: u32 = 15;
    pub const CRASH: u32 = 16;
    pub const CONFIG_SHORT: u32 = 17;
    pub const CONFIG_ERR: u32 = 18;
    pub const CONFIG_OUT_SHORT: u32 = 19;
    pub const CONFIG_OUT_ERR: u32 = 20;
    pub const COUNT: usize = 21;
    pub const NAMES: [&str; COUNT] = [
        "spawn_failure", "open_failure", "create_failure", "read_error", "write_error", "program_killed",
        "program_early_exit", "program_closes_stdin", "program_closes_stdout", "program_closes_stderr",
        "program_stall", "wait_error", "output_stall", "input_silence", "program_sigpipe",
        "streams_outlive_program", "pa2_killed", "config_short_read", "config_unreadable",
        "config_short_write", "config_write_error",
    ];
}

/// stream ids
pub fn s_in(p: usize) -> u32 {
    (p as u32) * 4
}
pub fn s_out(p: usize) -> u32 {
    (p as u32) * 4 + 1
}
pub fn s_err(p: usize) -> u32 {
    (p as u32) * 4 + 2
}
pub const S_FILE: u32 = 0x10000;
pub const S_STDIN: u32 = 0x20000;
pub const S_STDOUT: u32 = 0x20001;
pub const S_STDERR: u32 = 0x20002;

#[derive(Clone, Debug)]
pub struct Rec {
    pub kind: u16,
    pub id: u32,
    pub t: u64,
    pub aux: u32,
    pub data: Vec<u8>,
}

pub fn push(b: *mut u8, kind: u16, id: u32, t: u64, aux: u32, data: &[u8]) {
    let len = shm::get(b, hdr::HIST_LEN) as usize;
    let need = 24 + ((data.len() + 7) & !7);
    if len + need > shm::HIST_CAP {
        shm::put(b, hdr::OVERFLOW, 1);
        return;
    }
    unsafe {
        let p = b.add(shm::HIST_OFF + len);
        (p as *mut u16).write_unaligned(kind);
        (p.add(4) as *mut u32).write_unaligned(id);
        (p.add(8) as *mut u64).write_unaligned(t);
        (p.add(16) as *mut u32).write_unaligned(aux);
        (p.add(20) as *mut u32).write_unaligned(data.len() as u32);
        std::ptr::copy_nonoverlapping(data.as_ptr(), p.add(24), data.len());
    }
    shm::put(b, hdr::HIST_LEN, (len + need) as u64);
}

pub fn read_all(b: *mut u8) -> Vec<Rec> {
    let len = shm::get(b, hdr::HIST_LEN) as usize;
    let mut v = vec![];
    let mut o = 0;
    unsafe {
        while o + 24 <= len {
            let p = b.add(shm::HIST_OFF + o);
            let n = (p.add(20) as *const u32).read_unaligned() as usize;
            v.push(Rec {
                kind: (p as *const u16).read_unaligned(),
                id: (p.add(4) as *const u32).read_unaligned(),
                t: (p.add(8) as *const u64).read_unaligned(),
                aux: (p.add(16) as *const u32).read_unaligned(),
                data: std::slice::from_raw_parts(p.add(24), n).to_vec(),
            });
            o += 24 + ((n + 7) & !7);
        }
    }
    v
}

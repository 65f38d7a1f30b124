//! Start of a simulated process. With PA2SIM set, a constructor that runs before `main` turns the process into a fork
//! server: for every request it forks a child, which installs the simulated world and goes on to the real `main`.
use simcore::{hist, scenario::Scenario, shm, world};

/// file descriptors arranged by the driver
const CTL: i32 = 10;
const SHM: i32 = 11;
const CFG: i32 = 12;
const OUT: i32 = 13;
const ERR: i32 = 14;

#[used]
#[link_section = ".init_array"]
static START: extern "C" fn(i32, *const *mut u8, *const *const u8) = start;

unsafe fn env_set() -> bool {
    !libc::getenv(b"PA2SIM\0".as_ptr() as *const _).is_null()
}

extern "C" fn start(argc: i32, argv: *const *mut u8, _env: *const *const u8) {
    unsafe {
        if !env_set() {
            return;
        }
        let base = shm::map(SHM);
        shm::set_base(base);
        loop {
            let mut b = [0u8; 1];
            let n = libc::read(CTL, b.as_mut_ptr() as *mut _, 1);
            if n < 0 && *libc::__errno_location() == libc::EINTR {
                continue;
            }
            if n != 1 {
                libc::_exit(0);
            }
            let pid = libc::fork();
            if pid == 0 {
                child(argc, argv, base);
                return;
            }
            let mut st: i32 = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
            let out = st.to_ne_bytes();
            libc::write(CTL, out.as_ptr() as *const _, 4);
        }
    }
}

extern "C" {
    fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32;
}

unsafe fn child(argc: i32, argv: *const *mut u8, base: *mut u8) {
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    libc::close(CTL);
    libc::dup2(OUT, 1);
    libc::dup2(ERR, 2);
    let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &lim);
    // a run that eats memory without end is stopped (its allocation fails) before it troubles the others
    let lim = libc::rlimit { rlim_cur: 2 << 30, rlim_max: 2 << 30 };
    libc::setrlimit(libc::RLIMIT_DATA, &lim);
    let cpu = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: 20, tv_usec: 0 },
    };
    setitimer(2, &cpu, std::ptr::null_mut());
    let len = shm::get(base, shm::hdr::SCEN_LEN) as usize;
    let text = std::slice::from_raw_parts(base.add(shm::SCEN_OFF), len);
    let sc: Scenario = match serde_json::from_slice(text) {
        Ok(s) => s,
        Err(_) => world::die(shm::verdict::HARNESS, "bad scenario"),
    };
    // the configuration, and its format on the command line (both names have four letters)
    let mut text = sc.config.clone().into_bytes();
    for (at, b) in &sc.config_io.bytes {
        text.insert((*at).min(text.len()), *b);
    }
    let cfg = &text[..];
    libc::ftruncate(CFG, 0);
    let mut o = 0;
    while o < cfg.len() {
        let n = libc::pwrite(CFG, cfg[o..].as_ptr() as *const _, cfg.len() - o, o as i64);
        if n <= 0 {
            world::die(shm::verdict::HARNESS, "cannot write the configuration");
        }
        o += n as usize;
    }
    if sc.config_stdin {
        libc::dup2(CFG, 0);
        libc::lseek(0, 0, libc::SEEK_SET);
    }
    for i in 0..argc as isize {
        let a = *argv.offset(i);
        if sc.config_stdin && libc::strcmp(a as *const _, b"/dev/fd/12\0".as_ptr() as *const _) == 0 {
            std::ptr::copy_nonoverlapping(b"-\0".as_ptr(), a, 2);
        }
        if libc::strcmp(a as *const _, b"FMT_\0".as_ptr() as *const _) == 0 {
            let f: &[u8; 4] = if sc.yaml { b"yaml" } else { b"json" };
            std::ptr::copy_nonoverlapping(f.as_ptr(), a, 4);
        }
    }
    libc::atexit(at_exit);
    shm::put(base, shm::hdr::STARTED, 1);
    world::install(&sc);
}

extern "C" fn at_exit() {
    super::stdstream::flush_at_exit();
    let b = shm::base();
    let t = world::NOW.load(std::sync::atomic::Ordering::Relaxed);
    hist::push(b, hist::k::WORLD_END, 0, t, 0, &[]);
}

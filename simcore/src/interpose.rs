//! libc symbols replaced in the simulated process: hash seeds and clocks come from the simulator while a run is
//! active, from the kernel otherwise. Blocking accesses to files of the simulated world (`std::fs`) end up there too.
use crate::world::{self, mix, Handle, OpenOpts, ACTIVE, HASH_SEED, NOW};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};

static RAND_CTR: AtomicU64 = AtomicU64::new(0);
/// 2030-01-01
const BASE_S: i64 = 1_893_456_000;

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if ACTIVE.load(Ordering::Relaxed) {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for (i, x) in b.iter_mut().enumerate() {
            if i % 8 == 0 {
                RAND_CTR.fetch_add(1, Ordering::Relaxed);
            }
            *x = (mix(HASH_SEED.load(Ordering::Relaxed) ^ mix(RAND_CTR.load(Ordering::Relaxed))) >> (8 * (i % 8))) as u8;
        }
        return len as libc::ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if ACTIVE.load(Ordering::Relaxed) && clk != libc::CLOCK_PROCESS_CPUTIME_ID && clk != libc::CLOCK_THREAD_CPUTIME_ID {
        let t = NOW.fetch_add(50, Ordering::Relaxed) + 50;
        let base = if clk == libc::CLOCK_REALTIME { BASE_S } else { 1_000_000 };
        (*ts).tv_sec = base + (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

fn sim_sleep(ns: u64) {
    NOW.fetch_add(ns, Ordering::Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if ACTIVE.load(Ordering::Relaxed) {
        sim_sleep((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: libc::c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> libc::c_int {
    if ACTIVE.load(Ordering::Relaxed) && flags == 0 {
        sim_sleep((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    if libc::syscall(libc::SYS_clock_nanosleep, clk, flags, req, rem) == 0 {
        0
    } else {
        *libc::__errno_location()
    }
}

thread_local! {
    static FDS: RefCell<BTreeMap<i32, Handle>> = const { RefCell::new(BTreeMap::new()) };
}
static ANY_FD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

unsafe fn fail(e: i32) -> libc::c_int {
    *libc::__errno_location() = e;
    -1
}

/// None: not a path of the simulated world
unsafe fn sim_open(path: *const libc::c_char, flags: libc::c_int) -> Option<libc::c_int> {
    if !ACTIVE.load(Ordering::Relaxed) || path.is_null() {
        return None;
    }
    let p = std::ffi::CStr::from_ptr(path).to_str().ok()?;
    let acc = flags & libc::O_ACCMODE;
    let o = OpenOpts {
        read: acc != libc::O_WRONLY,
        write: acc != libc::O_RDONLY,
        append: flags & libc::O_APPEND != 0,
        truncate: flags & libc::O_TRUNC != 0,
        create: flags & libc::O_CREAT != 0,
        create_new: flags & (libc::O_CREAT | libc::O_EXCL) == (libc::O_CREAT | libc::O_EXCL),
    };
    let r = world::try_with(|w| if w.file_known(p) { Some(w.file_open(p, o).map(|h| (w.file_content(&h), h))) } else { None })??;
    Some(match r {
        Err(e) => fail(e),
        Ok((content, h)) => {
            let fd = libc::memfd_create(b"sim\0".as_ptr() as *const _, libc::MFD_CLOEXEC);
            if fd >= 0 {
                let mut at = 0;
                while at < content.len() {
                    let n = libc::syscall(libc::SYS_pwrite64, fd, content[at..].as_ptr(), content.len() - at, at);
                    if n <= 0 {
                        break;
                    }
                    at += n as usize;
                }
                if o.write {
                    FDS.with(|f| f.borrow_mut().insert(fd, h));
                    ANY_FD.store(true, Ordering::Relaxed);
                }
            }
            fd
        }
    })
}

/// the configuration, as given on the command line by the driver
const CONFIG_PATH: &[u8] = b"/dev/fd/12\0";

#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    if ACTIVE.load(Ordering::Relaxed) {
        match world::try_with(|w| w.config_read(fd, n)).flatten() {
            Some(Err(e)) => return fail(e) as libc::ssize_t,
            Some(Ok(most)) => {
                let r = libc::syscall(libc::SYS_read, fd, buf, most) as libc::ssize_t;
                if r > 0 {
                    world::try_with(|w| w.config_was_read(r as usize));
                }
                return r;
            }
            None => (),
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as libc::ssize_t
}

// what std uses to open files
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    if let Some(r) = sim_open(path, flags) {
        return r;
    }
    let config = ACTIVE.load(Ordering::Relaxed) && !path.is_null() && libc::strcmp(path, CONFIG_PATH.as_ptr() as *const _) == 0;
    if config {
        if let Some(Some(e)) = world::try_with(|w| w.config_open()) {
            return fail(e);
        }
    }
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode) as libc::c_int;
    if config {
        world::try_with(|w| w.config_opened(fd));
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const libc::c_char) -> libc::c_int {
    if ACTIVE.load(Ordering::Relaxed) && !path.is_null() {
        if let Ok(p) = std::ffi::CStr::from_ptr(path).to_str() {
            if let Some(Some(r)) = world::try_with(|w| if w.file_known(p) { Some(w.file_removed(p)) } else { None }) {
                return match r {
                    Ok(()) => 0,
                    Err(e) => fail(e),
                };
            }
        }
    }
    libc::syscall(libc::SYS_unlink, path) as libc::c_int
}
/// a real file of this length, to ask for its metadata
pub fn memfd(len: usize) -> libc::c_int {
    unsafe {
        let fd = libc::memfd_create(b"sim\0".as_ptr() as *const _, libc::MFD_CLOEXEC);
        if fd >= 0 {
            libc::ftruncate(fd, len as libc::off_t);
        }
        fd
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: libc::c_int, path: *const libc::c_char, flags: libc::c_int, mask: libc::c_uint, buf: *mut libc::statx) -> libc::c_int {
    if ACTIVE.load(Ordering::Relaxed) && !path.is_null() && *path != 0 {
        if let Ok(p) = std::ffi::CStr::from_ptr(path).to_str() {
            if let Some(Some(r)) = world::try_with(|w| if w.file_known(p) { Some(w.file_size(p)) } else { None }) {
                return match r {
                    None => fail(libc::ENOENT),
                    Some(n) => {
                        let fd = memfd(n);
                        let r = libc::syscall(libc::SYS_statx, fd, b"\0".as_ptr(), libc::AT_EMPTY_PATH, mask, buf) as libc::c_int;
                        libc::syscall(libc::SYS_close, fd);
                        r
                    }
                };
            }
        }
    }
    libc::syscall(libc::SYS_statx, dir, path, flags, mask, buf) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> libc::c_int {
    if ACTIVE.load(Ordering::Relaxed) && !a.is_null() && !b.is_null() {
        if let (Ok(x), Ok(y)) = (std::ffi::CStr::from_ptr(a).to_str(), std::ffi::CStr::from_ptr(b).to_str()) {
            let r = world::try_with(|w| if w.file_known(x) || w.file_known(y) { Some(w.file_renamed(x, y)) } else { None });
            if let Some(Some(r)) = r {
                return match r {
                    Ok(()) => 0,
                    Err(e) => fail(e),
                };
            }
        }
    }
    libc::syscall(libc::SYS_renameat, libc::AT_FDCWD, a, libc::AT_FDCWD, b) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    if ANY_FD.load(Ordering::Relaxed) && ACTIVE.load(Ordering::Relaxed) {
        let b = std::slice::from_raw_parts(buf as *const u8, n);
        let r = FDS.try_with(|f| f.try_borrow_mut().ok().and_then(|mut f| f.get_mut(&fd).and_then(|h| world::try_with(|w| w.file_write(h, b)))));
        match r {
            Ok(Some(Ok(n))) => return n as libc::ssize_t,
            Ok(Some(Err(e))) => return fail(e) as libc::ssize_t,
            _ => (),
        }
    }
    if fd == 1 && ACTIVE.load(Ordering::Relaxed) {
        match world::try_with(|w| w.config_write(n)).flatten() {
            Some(Err(e)) => return fail(e) as libc::ssize_t,
            Some(Ok(most)) => return libc::syscall(libc::SYS_write, fd, buf, most) as libc::ssize_t,
            None => (),
        }
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: libc::c_int) -> libc::c_int {
    if ANY_FD.load(Ordering::Relaxed) {
        let h = FDS.try_with(|f| f.try_borrow_mut().ok().and_then(|mut f| f.remove(&fd))).ok().flatten();
        if let Some(h) = h {
            world::try_with(|w| w.file_close(&h));
        }
    }
    if ACTIVE.load(Ordering::Relaxed) {
        world::try_with(|w| w.config_closed(fd));
    }
    libc::syscall(libc::SYS_close, fd) as libc::c_int
}

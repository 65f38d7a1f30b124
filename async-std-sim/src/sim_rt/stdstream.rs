//! Stand-ins for `std::io::{Stdin, Stdout, Stderr}`: standard input behind one process-wide buffered reader, standard
//! output behind one process-wide line writer that is flushed when the process exits, standard error unbuffered.
use simcore::world::with;
use std::cell::{Cell, RefCell};
use std::io::{self, BufRead, BufReader, LineWriter, Read, Write};

fn err(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}

struct RawIn;
impl Read for RawIn {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match with(|w| w.stdin_read(buf)) {
            Err(libc::EBADF) => Ok(0),
            r => r.map_err(err),
        }
    }
}
struct RawOut(bool);
impl Write for RawOut {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match with(|w| w.std_write(self.0, buf)) {
            Err(libc::EBADF) => Ok(buf.len()),
            r => r.map_err(err),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

thread_local! {
    static IN: Cell<Option<&'static RefCell<BufReader<RawIn>>>> = const { Cell::new(None) };
    static OUT: Cell<Option<&'static RefCell<LineWriter<RawOut>>>> = const { Cell::new(None) };
}
fn input() -> &'static RefCell<BufReader<RawIn>> {
    IN.with(|c| {
        if c.get().is_none() {
            c.set(Some(Box::leak(Box::new(RefCell::new(BufReader::with_capacity(8192, RawIn))))))
        }
        c.get().unwrap()
    })
}
fn output() -> &'static RefCell<LineWriter<RawOut>> {
    OUT.with(|c| {
        if c.get().is_none() {
            c.set(Some(Box::leak(Box::new(RefCell::new(LineWriter::with_capacity(1024, RawOut(false)))))))
        }
        c.get().unwrap()
    })
}

/// What `std` does with its standard output when the process exits.
pub extern "C" fn flush_at_exit() {
    if let Some(Some(o)) = OUT.try_with(|c| c.get()).ok() {
        if let Ok(mut o) = o.try_borrow_mut() {
            let _ = o.flush();
        }
    }
}

#[derive(Debug)]
pub struct StdIn;
impl StdIn {
    pub fn wait(&self) -> u64 {
        if input().borrow().buffer().is_empty() {
            with(|w| w.stdin_ready())
        } else {
            0
        }
    }
    pub fn read_line(&self, s: &mut String) -> io::Result<usize> {
        input().borrow_mut().read_line(s)
    }
}
impl Read for StdIn {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        input().borrow_mut().read(buf)
    }
}

#[derive(Debug)]
pub struct StdOut;
impl StdOut {
    pub fn wait(&self) -> u64 {
        with(|w| w.std_ready(false))
    }
}
impl Write for StdOut {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        output().borrow_mut().write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        output().borrow_mut().flush()
    }
}

#[derive(Debug)]
pub struct StdErr;
impl StdErr {
    pub fn wait(&self) -> u64 {
        with(|w| w.std_ready(true))
    }
}
impl Write for StdErr {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        RawOut(true).write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

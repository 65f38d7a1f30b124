//! Stand-in for `std::fs::File`.
use simcore::world::{with, Handle, OpenOpts};
use std::io;
use std::path::Path;
use std::sync::Mutex;

pub struct StdFile {
    h: Mutex<Handle>,
}
impl std::fmt::Debug for StdFile {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("File { simulated }")
    }
}
fn err(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}
fn open(path: &Path, o: OpenOpts) -> io::Result<StdFile> {
    let p = path.to_string_lossy().into_owned();
    with(|w| w.file_open(&p, o)).map(|h| StdFile { h: Mutex::new(h) }).map_err(err)
}
impl StdFile {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<StdFile> {
        open(p.as_ref(), OpenOpts { read: true, ..OpenOpts::default() })
    }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<StdFile> {
        open(p.as_ref(), OpenOpts { write: true, create: true, truncate: true, ..OpenOpts::default() })
    }
    pub fn sync_all(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn sync_data(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn set_len(&self, n: u64) -> io::Result<()> {
        with(|w| w.file_set_len(&self.h.lock().unwrap(), n as usize));
        Ok(())
    }
    pub fn metadata(&self) -> io::Result<std::fs::Metadata> {
        use std::os::unix::io::FromRawFd;
        let n = with(|w| w.file_len(&self.h.lock().unwrap()));
        let fd = simcore::interpose::memfd(n);
        if fd < 0 {
            return Err(io::Error::last_os_error());
        }
        unsafe { std::fs::File::from_raw_fd(fd) }.metadata()
    }
    pub fn set_permissions(&self, _: std::fs::Permissions) -> io::Result<()> {
        Ok(())
    }
    /// how long a read, or write, issued now would block
    pub fn read_wait(&self) -> u64 {
        with(|w| w.file_read_ready(&self.h.lock().unwrap()))
    }
    pub fn write_wait(&self) -> u64 {
        with(|w| w.file_write_ready(&self.h.lock().unwrap()))
    }
}
impl Drop for StdFile {
    fn drop(&mut self) {
        with(|w| w.file_close(&self.h.lock().unwrap()))
    }
}
impl io::Read for &StdFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        with(|w| w.file_read(&mut self.h.lock().unwrap(), buf)).map_err(err)
    }
}
impl io::Write for &StdFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        with(|w| w.file_write(&mut self.h.lock().unwrap(), buf)).map_err(err)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl io::Seek for &StdFile {
    fn seek(&mut self, pos: io::SeekFrom) -> io::Result<u64> {
        let mut h = self.h.lock().unwrap();
        let len = with(|w| w.file_len(&h));
        let n = match pos {
            io::SeekFrom::Start(n) => n as i64,
            io::SeekFrom::End(n) => len as i64 + n,
            io::SeekFrom::Current(n) => h.pos as i64 + n,
        };
        if n < 0 {
            return Err(err(libc::EINVAL));
        }
        h.pos = n as usize;
        Ok(n as u64)
    }
}

/// Stand-in for `std::fs::OpenOptions`.
#[derive(Clone, Debug, Default)]
pub struct StdOpenOptions(OpenOpts);
impl StdOpenOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn read(&mut self, v: bool) -> &mut Self {
        self.0.read = v;
        self
    }
    pub fn write(&mut self, v: bool) -> &mut Self {
        self.0.write = v;
        self
    }
    pub fn append(&mut self, v: bool) -> &mut Self {
        self.0.append = v;
        self
    }
    pub fn truncate(&mut self, v: bool) -> &mut Self {
        self.0.truncate = v;
        self
    }
    pub fn create(&mut self, v: bool) -> &mut Self {
        self.0.create = v;
        self
    }
    pub fn create_new(&mut self, v: bool) -> &mut Self {
        self.0.create_new = v;
        self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<StdFile> {
        open(p.as_ref(), self.0)
    }
}

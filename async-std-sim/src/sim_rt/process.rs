//! Stand-in for async-process: programs are state machines of the simulated world.
use crate::future::poll_fn;
use crate::sim_rt::syscall;
use futures_io::{AsyncRead, AsyncWrite};
use simcore::world::with;
use std::ffi::{OsStr, OsString};
use std::io;
use std::os::unix::process::ExitStatusExt;
use std::path::Path;
use std::pin::Pin;
use std::task::{Context, Poll};

pub use std::process::{ExitStatus, Output, Stdio};

fn err(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}

/// 0 inherit, 1 null, 2 piped, 3 something else
fn stdio_kind(s: &Stdio) -> u8 {
    fn tag(s: &Stdio) -> i32 {
        assert!(std::mem::size_of::<Stdio>() >= 4);
        unsafe { std::ptr::read_volatile(s as *const Stdio as *const i32) }
    }
    let t = tag(s);
    let all = [tag(&Stdio::inherit()), tag(&Stdio::null()), tag(&Stdio::piped())];
    if all[0] == all[1] || all[1] == all[2] || all[0] == all[2] {
        simcore::world::die(simcore::shm::verdict::HARNESS, "cannot tell Stdio values apart");
    }
    all.iter().position(|x| *x == t).unwrap_or(3) as u8
}
const KINDS: [&str; 5] = ["inherit", "null", "piped", "other", "default"];

#[derive(Debug)]
pub struct Command {
    program: OsString,
    args: Vec<OsString>,
    env: Vec<(OsString, Option<OsString>)>,
    env_clear: bool,
    dir: Option<OsString>,
    io: [u8; 3],
    kill_on_drop: bool,
}
impl Command {
    pub fn new<S: AsRef<OsStr>>(program: S) -> Command {
        Command {
            program: program.as_ref().to_owned(),
            args: vec![],
            env: vec![],
            env_clear: false,
            dir: None,
            io: [4; 3],
            kill_on_drop: false,
        }
    }
    pub fn arg<S: AsRef<OsStr>>(&mut self, a: S) -> &mut Command {
        self.args.push(a.as_ref().to_owned());
        self
    }
    pub fn args<I, S>(&mut self, args: I) -> &mut Command
    where
        I: IntoIterator<Item = S>,
        S: AsRef<OsStr>,
    {
        for a in args {
            self.arg(a);
        }
        self
    }
    pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, k: K, v: V) -> &mut Command {
        self.env.push((k.as_ref().to_owned(), Some(v.as_ref().to_owned())));
        self
    }
    pub fn envs<I, K, V>(&mut self, vars: I) -> &mut Command
    where
        I: IntoIterator<Item = (K, V)>,
        K: AsRef<OsStr>,
        V: AsRef<OsStr>,
    {
        for (k, v) in vars {
            self.env(k, v);
        }
        self
    }
    pub fn env_remove<K: AsRef<OsStr>>(&mut self, k: K) -> &mut Command {
        self.env.push((k.as_ref().to_owned(), None));
        self
    }
    pub fn env_clear(&mut self) -> &mut Command {
        self.env.clear();
        self.env_clear = true;
        self
    }
    pub fn current_dir<P: AsRef<Path>>(&mut self, d: P) -> &mut Command {
        self.dir = Some(d.as_ref().as_os_str().to_owned());
        self
    }
    pub fn stdin<T: Into<Stdio>>(&mut self, s: T) -> &mut Command {
        self.io[0] = stdio_kind(&s.into());
        self
    }
    pub fn stdout<T: Into<Stdio>>(&mut self, s: T) -> &mut Command {
        self.io[1] = stdio_kind(&s.into());
        self
    }
    pub fn stderr<T: Into<Stdio>>(&mut self, s: T) -> &mut Command {
        self.io[2] = stdio_kind(&s.into());
        self
    }
    pub fn reap_on_drop(&mut self, _: bool) -> &mut Command {
        self
    }
    pub fn kill_on_drop(&mut self, v: bool) -> &mut Command {
        self.kill_on_drop = v;
        self
    }
    fn spawn_with(&mut self, default: u8) -> io::Result<Child> {
        let st = |s: &OsString| s.to_string_lossy().into_owned();
        let io: Vec<u8> = self.io.iter().map(|k| if *k == 4 { default } else { *k }).collect();
        let mut env = serde_json::Map::new();
        for (k, v) in &self.env {
            env.insert(st(k), v.as_ref().map(|v| serde_json::Value::String(st(v))).unwrap_or(serde_json::Value::Null));
        }
        let call = serde_json::json!({
            "cmd": st(&self.program),
            "args": self.args.iter().map(st).collect::<Vec<_>>(),
            "env": env,
            "env_clear": self.env_clear,
            "dir": self.dir.as_ref().map(st),
            "io": io.iter().map(|k| KINDS[*k as usize]).collect::<Vec<_>>(),
        });
        let cmd = st(&self.program);
        syscall(0x30000);
        let p = with(|w| w.spawn(&cmd, &call.to_string(), io[0] == 2, io[1] == 2, io[2] == 2)).map_err(err)?;
        Ok(Child {
            stdin: if io[0] == 2 { Some(ChildStdin(p)) } else { None },
            stdout: if io[1] == 2 { Some(ChildStdout(Port(p, 0))) } else { None },
            stderr: if io[2] == 2 { Some(ChildStderr(Port(p, 1))) } else { None },
            p,
            kill_on_drop: self.kill_on_drop,
        })
    }
    pub fn spawn(&mut self) -> io::Result<Child> {
        self.spawn_with(0)
    }
    pub fn status(&mut self) -> impl std::future::Future<Output = io::Result<ExitStatus>> {
        let child = self.spawn_with(0);
        async move { child?.status().await }
    }
    pub fn output(&mut self) -> impl std::future::Future<Output = io::Result<Output>> {
        let child = self.spawn_with(2);
        async move { child?.output().await }
    }
}

#[derive(Debug)]
pub struct Child {
    pub stdin: Option<ChildStdin>,
    pub stdout: Option<ChildStdout>,
    pub stderr: Option<ChildStderr>,
    p: usize,
    kill_on_drop: bool,
}
impl Drop for Child {
    fn drop(&mut self) {
        if self.kill_on_drop {
            with(|w| w.kill(self.p, 9));
        }
    }
}
impl Child {
    pub fn id(&self) -> u32 {
        1000 + self.p as u32
    }
    pub fn kill(&mut self) -> io::Result<()> {
        with(|w| w.kill(self.p, 9));
        Ok(())
    }
    pub fn try_status(&mut self) -> io::Result<Option<ExitStatus>> {
        syscall(self.p as u32 * 4 + 3);
        match with(|w| w.status(self.p, None)) {
            Poll::Ready(Ok(st)) => Ok(Some(ExitStatus::from_raw(st))),
            Poll::Ready(Err(e)) => Err(err(e)),
            Poll::Pending => Ok(None),
        }
    }
    pub fn status(&mut self) -> impl std::future::Future<Output = io::Result<ExitStatus>> {
        self.stdin.take();
        let p = self.p;
        poll_fn(move |cx| {
            syscall(p as u32 * 4 + 3);
            match with(|w| w.status(p, Some(cx.waker()))) {
                Poll::Ready(Ok(st)) => Poll::Ready(Ok(ExitStatus::from_raw(st))),
                Poll::Ready(Err(e)) => Poll::Ready(Err(err(e))),
                Poll::Pending => Poll::Pending,
            }
        })
    }
    pub fn output(mut self) -> impl std::future::Future<Output = io::Result<Output>> {
        use futures_lite::AsyncReadExt;
        async move {
            self.stdin.take();
            let mut stdout = vec![];
            let mut stderr = vec![];
            if let Some(mut s) = self.stdout.take() {
                s.read_to_end(&mut stdout).await?;
            }
            if let Some(mut s) = self.stderr.take() {
                s.read_to_end(&mut stderr).await?;
            }
            let status = self.status().await?;
            Ok(Output { status, stdout, stderr })
        }
    }
}

#[derive(Debug)]
pub struct ChildStdin(usize);
impl Drop for ChildStdin {
    fn drop(&mut self) {
        with(|w| w.pipe_drop(self.0, 0))
    }
}
impl AsyncWrite for ChildStdin {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        syscall(self.0 as u32 * 4);
        with(|w| w.pipe_write(self.0, buf, cx.waker())).map(|r| r.map_err(err))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        // as in async-io: closing a `ChildStdin` only flushes it, dropping it closes the pipe
        Poll::Ready(Ok(()))
    }
}

#[derive(Debug)]
struct Port(usize, usize);
impl Port {
    fn read(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        syscall(self.0 as u32 * 4 + 1 + self.1 as u32);
        with(|w| w.pipe_read(self.0, self.1, buf, cx.waker())).map(|r| r.map_err(err))
    }
}
impl Drop for Port {
    fn drop(&mut self) {
        with(|w| w.pipe_drop(self.0, 1 + self.1))
    }
}
#[derive(Debug)]
pub struct ChildStdout(Port);
impl AsyncRead for ChildStdout {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.0.read(cx, buf)
    }
}
#[derive(Debug)]
pub struct ChildStderr(Port);
impl AsyncRead for ChildStderr {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.0.read(cx, buf)
    }
}

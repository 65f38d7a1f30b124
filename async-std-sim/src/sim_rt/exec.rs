//! Single threaded executor: one seeded choice per step.
use simcore::scenario::class;
use simcore::world::{with, Fired};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

type Job = Box<dyn FnOnce()>;
type Fut = Pin<Box<dyn Future<Output = ()>>>;

#[derive(Default)]
struct Ex {
    tasks: BTreeMap<u64, Option<(Fut, Arc<Flag>)>>,
    next: u64,
    jobs: BTreeMap<u64, Job>,
    next_job: u64,
}

thread_local! {
    static EX: Cell<Option<&'static RefCell<Ex>>> = const { Cell::new(None) };
}
fn ex() -> &'static RefCell<Ex> {
    EX.with(|c| match c.get() {
        Some(e) => e,
        None => {
            let e: &'static RefCell<Ex> = Box::leak(Box::default());
            c.set(Some(e));
            e
        }
    })
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::Relaxed)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::Relaxed)
    }
}

/// Let everything happen that is due at the present moment.
pub fn pump() {
    loop {
        match with(|w| w.fire_due()) {
            Fired::Nothing => return,
            Fired::Internal => (),
            Fired::Blocking(id) => {
                let job = ex().borrow_mut().jobs.remove(&id);
                if let Some(j) = job {
                    j()
                }
            }
        }
    }
}

fn run_one_task() -> bool {
    let ready: Vec<u64> = ex()
        .borrow()
        .tasks
        .iter()
        .filter(|(_, t)| matches!(t, Some((_, f)) if f.0.load(Ordering::Relaxed)))
        .map(|(id, _)| *id)
        .collect();
    if ready.is_empty() {
        return false;
    }
    let i = with(|w| w.decide(class::TASK_PICK, 0, ready.len() as u32 - 1)) as usize;
    let id = ready[i];
    let (mut fut, flag) = ex().borrow_mut().tasks.get_mut(&id).unwrap().take().unwrap();
    flag.0.store(false, Ordering::Relaxed);
    with(|w| w.count_poll());
    let waker = Waker::from(flag.clone());
    match fut.as_mut().poll(&mut Context::from_waker(&waker)) {
        Poll::Ready(()) => {
            ex().borrow_mut().tasks.remove(&id);
            drop(fut);
        }
        Poll::Pending => {
            if let Some(slot) = ex().borrow_mut().tasks.get_mut(&id) {
                *slot = Some((fut, flag));
            }
        }
    }
    true
}

pub fn block_on<F: Future>(fut: F) -> F::Output {
    let mut fut = Box::pin(fut);
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    loop {
        pump();
        if !flag.0.load(Ordering::Relaxed) && with(|w| w.decide(class::SPURIOUS, 0, 1)) == 1 {
            flag.0.store(true, Ordering::Relaxed);
        }
        if flag.0.load(Ordering::Relaxed) {
            let d = with(|w| w.delay(class::POLL_LAT, 0));
            with(|w| w.advance(d));
            pump();
            // wake-ups from here on ask for another poll
            flag.0.store(false, Ordering::Relaxed);
            with(|w| w.count_poll());
            if let Poll::Ready(r) = fut.as_mut().poll(&mut Context::from_waker(&waker)) {
                return r;
            }
            run_one_task();
            continue;
        }
        if run_one_task() {
            continue;
        }
        pump();
        if flag.0.load(Ordering::Relaxed) {
            continue;
        }
        with(|w| w.jump());
    }
}

struct Shared<T> {
    value: Option<T>,
    done: bool,
    waker: Option<Waker>,
}
/// Handle of a spawned task or blocking job.
pub struct Task<T> {
    s: Arc<Mutex<Shared<T>>>,
    id: Option<u64>,
}
impl<T> std::fmt::Debug for Task<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Task")
    }
}
impl<T> Task<T> {
    pub fn detach(self) {}
    pub async fn cancel(self) -> Option<T> {
        if let Some(id) = self.id {
            let t = ex().borrow_mut().tasks.remove(&id);
            drop(t);
        }
        self.s.lock().unwrap().value.take()
    }
}
impl<T> Future for Task<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let mut s = self.s.lock().unwrap();
        if let Some(v) = s.value.take() {
            return Poll::Ready(v);
        }
        if s.done {
            panic!("task polled after completion");
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
fn finish<T>(s: &Arc<Mutex<Shared<T>>>, v: T) {
    let w = {
        let mut s = s.lock().unwrap();
        s.value = Some(v);
        s.done = true;
        s.waker.take()
    };
    if let Some(w) = w {
        w.wake()
    }
}
fn shared<T>() -> Arc<Mutex<Shared<T>>> {
    Arc::new(Mutex::new(Shared { value: None, done: false, waker: None }))
}

pub fn spawn_local<F, T>(fut: F) -> Task<T>
where
    F: Future<Output = T> + 'static,
    T: 'static,
{
    let s = shared();
    let s2 = s.clone();
    let f: Fut = Box::pin(async move {
        let v = fut.await;
        finish(&s2, v);
    });
    let mut e = ex().borrow_mut();
    let id = e.next;
    e.next += 1;
    e.tasks.insert(id, Some((f, Arc::new(Flag(AtomicBool::new(true))))));
    Task { s, id: Some(id) }
}

/// A job on the blocking pool: runs, as one step, some time after now, and not before `extra` nanoseconds from now
/// (how long the system call it makes would block).
pub fn blocking_after<F, T>(extra: u64, f: F) -> Task<T>
where
    F: FnOnce() -> T + 'static,
    T: 'static,
{
    let s = shared();
    let s2 = s.clone();
    let id = {
        let mut e = ex().borrow_mut();
        let id = e.next_job;
        e.next_job += 1;
        e.jobs.insert(id, Box::new(move || finish(&s2, f())));
        id
    };
    with(|w| w.blocking(id, extra));
    Task { s, id: None }
}

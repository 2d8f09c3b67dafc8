use crate::{expect_current, Cfg, Choice, Inner, Kind, Policy, World};
use std::any::Any;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, Weak};
use std::task::{Context, Poll, Wake, Waker};

type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;

pub(crate) struct Slot {
    fut: Option<Fut>,
    /// Polled by a foreign thread (program mode): called instead of `fut`.
    remote: Option<Arc<dyn Fn() -> bool + Send + Sync>>,
    pub(crate) group: u32,
    root: bool,
    done: bool,
    wake: Arc<TaskWake>,
}

pub(crate) struct Timer {
    at: u64,
    seq: u64,
    waker: Waker,
    fired: Arc<AtomicBool>,
}

struct TaskWake {
    id: usize,
    queued: AtomicBool,
    world: Weak<Mutex<Inner>>,
}

impl Wake for TaskWake {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.queued.swap(true, Ordering::SeqCst) {
            return;
        }
        if let Some(w) = self.world.upgrade() {
            let mut i = match w.lock() {
                Ok(g) => g,
                Err(e) => e.into_inner(),
            };
            if !i.tasks[self.id].done {
                i.queue.push_back(self.id);
            }
        }
    }
}

pub struct JoinState<T> {
    result: Option<Result<T, Panic>>,
    finished: bool,
    waker: Option<Waker>,
}

pub enum Panic {
    Payload(Box<dyn Any + Send>),
    Cancelled,
}

pub type Shared<T> = Arc<Mutex<JoinState<T>>>;

fn msg_of(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

struct Wrapper<F: Future> {
    fut: Option<Pin<Box<F>>>,
    state: Shared<F::Output>,
    world: Weak<Mutex<Inner>>,
    group: u32,
}

impl<F: Future> Future for Wrapper<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = &mut *self;
        let fut = match this.fut.as_mut() {
            Some(f) => f,
            None => return Poll::Ready(()),
        };
        let res = match catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(cx))) {
            Ok(Poll::Pending) => return Poll::Pending,
            Ok(Poll::Ready(v)) => Ok(v),
            Err(p) => {
                if let Some(w) = this.world.upgrade() {
                    let m = msg_of(&*p);
                    World(w).lock().panics.push((this.group, m));
                }
                Err(Panic::Payload(p))
            }
        };
        // The future is dropped before the result becomes visible, as in tokio.
        let f = this.fut.take();
        let _ = catch_unwind(AssertUnwindSafe(|| drop(f)));
        let wk = {
            let mut s = this.state.lock().unwrap();
            s.result = Some(res);
            s.finished = true;
            s.waker.take()
        };
        if let Some(w) = wk {
            w.wake();
        }
        Poll::Ready(())
    }
}

impl<F: Future> Drop for Wrapper<F> {
    fn drop(&mut self) {
        let f = self.fut.take();
        if f.is_some() {
            let _ = catch_unwind(AssertUnwindSafe(|| drop(f)));
            let wk = {
                let mut s = self.state.lock().unwrap();
                s.result = Some(Err(Panic::Cancelled));
                s.finished = true;
                s.waker.take()
            };
            if let Some(w) = wk {
                w.wake();
            }
        }
    }
}

fn add_task(w: &World, group: u32, root: bool, fut: Option<Fut>, remote: Option<Arc<dyn Fn() -> bool + Send + Sync>>) -> usize {
    let mut i = w.lock();
    let id = i.tasks.len();
    let wake = Arc::new(TaskWake { id, queued: AtomicBool::new(true), world: Arc::downgrade(&w.0) });
    i.tasks.push(Slot { fut, remote, group, root, done: false, wake });
    i.live_roots += root as usize;
    i.queue.push_back(id);
    id
}

/// Spawns into the group of the running task.
pub fn spawn<F>(fut: F) -> (usize, Shared<F::Output>)
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let w = expect_current();
    let g = w.lock().cur_group;
    spawn_in(&w, g, false, fut)
}

pub fn spawn_in<F>(w: &World, group: u32, root: bool, fut: F) -> (usize, Shared<F::Output>)
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let state = Arc::new(Mutex::new(JoinState { result: None, finished: false, waker: None }));
    let wr = Wrapper { fut: Some(Box::pin(fut)), state: state.clone(), world: Arc::downgrade(&w.0), group };
    let id = add_task(w, group, root, Some(Box::pin(wr)), None);
    (id, state)
}

/// A root whose polls are delegated to `f` (returns true when finished).
pub fn add_remote(w: &World, group: u32, f: Arc<dyn Fn() -> bool + Send + Sync>) -> (usize, Waker) {
    let id = add_task(w, group, true, None, Some(f));
    let wk = w.lock().tasks[id].wake.clone();
    (id, Waker::from(wk))
}

pub fn poll_join<T>(s: &Shared<T>, cx: &mut Context<'_>) -> Poll<Result<T, Panic>> {
    let mut s = s.lock().unwrap();
    if let Some(r) = s.result.take() {
        return Poll::Ready(r);
    }
    s.waker = Some(cx.waker().clone());
    Poll::Pending
}

pub fn is_finished<T>(s: &Shared<T>) -> bool {
    s.lock().unwrap().finished
}

/// A task that is done is never queued again.
fn finish(i: &mut Inner, id: usize) {
    if i.tasks[id].done {
        return;
    }
    i.tasks[id].done = true;
    i.live_roots -= i.tasks[id].root as usize;
    if i.tasks[id].wake.queued.load(Ordering::SeqCst) {
        i.queue.retain(|&t| t != id);
    }
}

/// Drops a task's future.
pub fn abort(id: usize) {
    if let Some(w) = crate::current() {
        abort_in(&w, id)
    }
}

fn abort_in(w: &World, id: usize) {
    let f = {
        let mut i = w.lock();
        if i.current == Some(id) {
            return;
        }
        if id >= i.tasks.len() {
            return;
        }
        finish(&mut i, id);
        i.tasks[id].fut.take()
    };
    w.enter(|| drop(f));
}

/// Ends a process: its tasks are dropped (closing their sockets) and never run again.
pub fn kill_group(w: &World, group: u32) {
    let ids: Vec<usize> = {
        let mut i = w.lock();
        i.dead_groups.push(group);
        i.tasks.iter().enumerate().filter(|(_, s)| s.group == group && !s.done).map(|(k, _)| k).collect()
    };
    for id in ids {
        abort_in(w, id);
    }
    crate::net::close_group(w, group);
}

// ---- time -------------------------------------------------------------------------------------

pub struct Sleep {
    at: u64,
    fired: Option<Arc<AtomicBool>>,
}

pub fn sleep_ns(ns: u64) -> Sleep {
    let now = expect_current().lock().now;
    Sleep { at: now.saturating_add(ns), fired: None }
}

pub fn now_ns() -> u64 {
    crate::current().map(|w| w.lock().now).unwrap_or(0)
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let w = expect_current();
        let mut i = w.lock();
        if let Some(f) = &self.fired {
            if f.load(Ordering::SeqCst) {
                return Poll::Ready(());
            }
        }
        if i.now >= self.at {
            return Poll::Ready(());
        }
        let fired = Arc::new(AtomicBool::new(false));
        if let Some(old) = &self.fired {
            // Replace the registration (the waker may have changed).
            let o = old.clone();
            i.timers.retain(|t| !Arc::ptr_eq(&t.fired, &o));
        }
        i.timer_seq += 1;
        let seq = i.timer_seq;
        i.timers.push(Timer { at: self.at, seq, waker: cx.waker().clone(), fired: fired.clone() });
        self.fired = Some(fired);
        Poll::Pending
    }
}

impl Drop for Sleep {
    fn drop(&mut self) {
        if let (Some(f), Some(w)) = (&self.fired, crate::current()) {
            let mut i = w.lock();
            let f = f.clone();
            i.timers.retain(|t| !Arc::ptr_eq(&t.fired, &f));
        }
    }
}

fn fire_next_timer(w: &World) -> bool {
    let wk = {
        let mut i = w.lock();
        let best = i.timers.iter().enumerate().min_by_key(|(_, t)| (t.at, t.seq)).map(|(k, _)| k);
        match best {
            None => None,
            Some(k) => {
                let t = i.timers.remove(k);
                if t.at > i.now {
                    i.now = t.at;
                }
                t.fired.store(true, Ordering::SeqCst);
                Some(t.waker)
            }
        }
    };
    match wk {
        Some(x) => {
            x.wake();
            true
        }
        None => false,
    }
}

// ---- main loop --------------------------------------------------------------------------------

#[derive(Debug, Clone)]
pub struct Outcome {
    pub trace: Vec<Choice>,
    pub steps: u64,
    pub panics: Vec<(u32, String)>,
    pub unfinished_roots: Vec<u32>,
    pub step_limit: bool,
    pub overflow: bool,
    pub tasks: usize,
    pub draws: std::collections::BTreeMap<u32, u32>,
}

/// Order of preference under the policy, as indices into `queue`.
fn order(i: &Inner) -> Vec<usize> {
    let n = i.queue.len();
    let mut v: Vec<usize> = (0..n).collect();
    match &i.cfg.policy {
        Policy::Fifo => {}
        Policy::Lifo => v.reverse(),
        Policy::StarveTask(k) => v.sort_by_key(|&x| i.queue[x] == *k),
        Policy::StarveGroup(g) => v.sort_by_key(|&x| i.tasks[i.queue[x]].group == *g),
        Policy::GroupAscending => v.sort_by_key(|&x| i.tasks[i.queue[x]].group),
        Policy::GroupDescending => v.sort_by_key(|&x| std::cmp::Reverse(i.tasks[i.queue[x]].group)),
    }
    if !i.parked.is_empty() && i.queue.iter().any(|t| !i.parked.contains(t)) {
        v.retain(|&x| !i.parked.contains(&i.queue[x]));
    }
    v
}

impl World {
    pub fn spawn_root<F>(&self, group: u32, fut: F) -> Shared<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        spawn_in(self, group, true, fut).1
    }

    /// Runs until nothing can happen any more (or, if `stop_when_done`, all roots finished).
    pub fn run(&self, stop_when_roots_done: bool) -> Outcome {
        self.enter(|| self.run_inner(stop_when_roots_done))
    }

    fn run_inner(&self, stop_when_roots_done: bool) -> Outcome {
        let mut limit = false;
        let mut turns = 0u32;
        loop {
            if turns % 4096 == 0 {
                if let Some(f) = crate::ON_PROGRESS.get() {
                    f();
                }
            }
            turns = turns.wrapping_add(1);
            enum Next {
                Task(usize),
                Timer,
                Idle,
                Stop,
            }
            let next = {
                let mut i = self.lock();
                if stop_when_roots_done && i.live_roots == 0 {
                    Next::Stop
                } else if i.steps >= i.cfg.max_steps {
                    limit = true;
                    Next::Stop
                } else if i.queue.is_empty() {
                    if i.timers.is_empty() {
                        Next::Idle
                    } else {
                        Next::Timer
                    }
                } else {
                    let v = if matches!(i.cfg.policy, Policy::Fifo) && i.parked.is_empty() { None } else { Some(order(&i)) };
                    let n = v.as_ref().map_or(i.queue.len(), |v| v.len());
                    let timer_alt = !i.timers.is_empty() && i.cfg.kinds & (1 << (Kind::Timer as u8)) != 0;
                    let task_alt = i.cfg.kinds & (1 << (Kind::Task as u8)) != 0;
                    let pick = if task_alt {
                        i.choose(Kind::Task, n + timer_alt as usize)
                    } else {
                        0
                    };
                    if pick == n {
                        Next::Timer
                    } else {
                        let pos = v.map_or(pick, |v| v[pick]);
                        let id = i.queue.remove(pos).unwrap();
                        i.parked.retain(|&t| t != id);
                        i.steps += 1;
                        i.tasks[id].wake.queued.store(false, Ordering::SeqCst);
                        i.current = Some(id);
                        i.cur_group = i.tasks[id].group;
                        Next::Task(id)
                    }
                }
            };
            match next {
                Next::Stop => break,
                Next::Idle => break,
                Next::Timer => {
                    self.lock().steps += 1;
                    fire_next_timer(self);
                }
                Next::Task(id) => {
                    let (fut, remote, wake) = {
                        let mut i = self.lock();
                        let s = &mut i.tasks[id];
                        (s.fut.take(), s.remote.clone(), s.wake.clone())
                    };
                    let waker = Waker::from(wake);
                    let mut cx = Context::from_waker(&waker);
                    if let Some(r) = remote {
                        let fin = r();
                        let g = {
                            let mut i = self.lock();
                            i.current = None;
                            if fin {
                                finish(&mut i, id);
                                i.tasks[id].remote = None;
                            }
                            i.tasks[id].group
                        };
                        if fin {
                            // The program's runtime goes away with its main future.
                            kill_group(self, g);
                        }
                    } else if let Some(mut f) = fut {
                        let r = f.as_mut().poll(&mut cx);
                        let mut i = self.lock();
                        i.current = None;
                        match r {
                            Poll::Ready(()) => {
                                finish(&mut i, id);
                                drop(i);
                                drop(f);
                            }
                            Poll::Pending => {
                                if i.tasks[id].done {
                                    drop(i);
                                    drop(f);
                                } else {
                                    i.tasks[id].fut = Some(f);
                                }
                            }
                        }
                    }
                }
            }
        }
        let out = {
            let i = self.lock();
            Outcome {
                trace: i.trace.clone(),
                steps: i.steps,
                panics: i.panics.clone(),
                unfinished_roots: i.tasks.iter().filter(|s| s.root && !s.done).map(|s| s.group).collect(),
                step_limit: limit,
                overflow: i.overflow,
                tasks: i.tasks.len(),
                draws: i.rng_draws.clone(),
            }
        };
        out
    }

    /// Drops everything still alive.
    pub fn teardown(&self) {
        self.lock().tearing_down = true;
        let remotes: Vec<_> = self.lock().tasks.iter_mut().map(|s| s.remote.take()).collect();
        drop(remotes);
        self.enter(|| {
            let n = self.lock().tasks.len();
            for id in 0..n {
                let f = self.lock().tasks[id].fut.take();
                drop(f);
            }
            self.lock().timers.clear();
            let net = std::mem::take(&mut self.lock().net);
            drop(net);
        });
    }

    pub fn set_cfg(&self, f: impl FnOnce(&mut Cfg)) {
        f(&mut self.lock().cfg)
    }
}

/// Returns Pending once.
pub struct Yield(bool);

pub fn yield_now() -> Yield {
    Yield(false)
}

impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

/// Group of the running task.
pub fn group() -> u32 {
    expect_current().lock().cur_group
}

// ---- programs on their own threads ------------------------------------------------------------

thread_local! {
    static REMOTE: std::cell::RefCell<Option<Remote>> = std::cell::RefCell::new(None);
}

struct Remote {
    go: std::sync::mpsc::Receiver<Waker>,
    back: std::sync::mpsc::Sender<bool>,
    waker: Waker,
}

/// Runs `main` on a thread of its own as process `group`; the thread only runs while the executor
/// has handed it the turn, so the whole world stays sequential.
pub fn spawn_program(w: &World, group: u32, args: Vec<String>, main: impl FnOnce() + Send + 'static) -> std::thread::JoinHandle<()> {
    let (go_s, go_r) = std::sync::mpsc::channel::<Waker>();
    let (back_s, back_r) = std::sync::mpsc::channel::<bool>();
    let w2 = w.clone();
    let th = std::thread::Builder::new()
        .name(format!("party{group}"))
        .spawn(move || {
            let waker = match go_r.recv() {
                Ok(x) => x,
                Err(_) => return,
            };
            REMOTE.with(|r| *r.borrow_mut() = Some(Remote { go: go_r, back: back_s.clone(), waker }));
            crate::set_args(Some(args));
            let res = w2.enter(|| catch_unwind(AssertUnwindSafe(main)));
            if let Err(p) = res {
                if !p.is::<Stopped>() {
                    w2.lock().panics.push((group, msg_of(&*p)));
                }
            }
            REMOTE.with(|r| *r.borrow_mut() = None);
            let _ = back_s.send(true);
        })
        .unwrap();
    let go_s = Mutex::new(go_s);
    let back_r = Mutex::new(back_r);
    let wk: Arc<Mutex<Option<Waker>>> = Arc::new(Mutex::new(None));
    let wk2 = wk.clone();
    let f = Arc::new(move || {
        let waker = wk2.lock().unwrap().clone().unwrap();
        if go_s.lock().unwrap().send(waker).is_err() {
            return true;
        }
        back_r.lock().unwrap().recv().unwrap_or(true)
    });
    let (_, waker) = add_remote(w, group, f);
    *wk.lock().unwrap() = Some(waker);
    th
}

/// Unwinding payload of a program thread whose world has ended.
pub struct Stopped;

/// Drives a future on the calling thread.
pub fn block_on<F: Future>(fut: F) -> F::Output {
    let mut fut = Box::pin(fut);
    let remote = REMOTE.with(|r| r.borrow_mut().take());
    if let Some(rem) = remote {
        let mut rem = rem;
        loop {
            let waker = rem.waker.clone();
            let mut cx = Context::from_waker(&waker);
            if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
                REMOTE.with(|r| *r.borrow_mut() = Some(rem));
                return v;
            }
            let _ = rem.back.send(false);
            match rem.go.recv() {
                Ok(w) => rem.waker = w,
                Err(_) => std::panic::resume_unwind(Box::new(Stopped)),
            }
        }
    }
    // No program: run everything here.
    let (w, fresh) = match crate::current() {
        Some(w) => (w, false),
        None => (World::new(Cfg::default()), true),
    };
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let r = w.enter(|| loop {
        if !flag.0.swap(false, Ordering::SeqCst) {
            let o = w.run_inner(false);
            if !flag.0.swap(false, Ordering::SeqCst) {
                panic!("deadlock: blocked future can never finish {:?}", o.panics);
            }
        }
        let waker = Waker::from(flag.clone());
        let mut cx = Context::from_waker(&waker);
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            break v;
        }
    });
    w.enter(|| drop(fut));
    if fresh {
        w.teardown();
    }
    r
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

/// The runtime of the calling program is gone: its tasks are dropped.
pub fn drop_runtime() {
    let in_program = REMOTE.with(|r| r.borrow().is_some());
    if let (true, Some(w)) = (in_program, crate::current()) {
        let g = w.lock().cur_group;
        let ids: Vec<usize> = {
            let i = w.lock();
            i.tasks.iter().enumerate().filter(|(_, s)| s.group == g && !s.done && s.remote.is_none()).map(|(k, _)| k).collect()
        };
        for id in ids {
            abort_in(&w, id);
        }
    }
}

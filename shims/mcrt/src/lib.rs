//! Controlled world: executor, virtual time, simulated TCP, scripted randomness and the choice
//! sequence that drives all of them.  One `World` is one execution; the explorer in the harness
//! replays worlds with different choice prefixes.

pub mod exec;
pub mod net;

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::{Arc, Mutex, MutexGuard};

pub use exec::*;

/// Called at the start of every execution and now and then during it, on the thread that runs it.
pub static ON_PROGRESS: std::sync::OnceLock<fn()> = std::sync::OnceLock::new();

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Kind {
    Task = 0,
    Select = 1,
    Timer = 2,
    Io = 3,
    Rng = 4,
    Join = 5,
    Connect = 6,
    Other = 7,
    /// A task gives way although it could go on (preemption, used-up budget, slow link).
    Yield = 8,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Choice {
    pub kind: Kind,
    pub n: u32,
    pub taken: u32,
}

/// Where `thread_rng()` words come from.
#[derive(Clone)]
pub enum RngMode {
    /// Deterministic stream, one per group.
    Stream(u64),
    /// Every draw is a choice point with 2^w alternatives.
    Choice { w: u32 },
    /// Draw `i` of group `g` is `tape[(g,i)]`, 0 if absent.
    Tape { w: u32, tape: HashMap<(u32, u32), u32> },
    /// Stream values (from the given seed) reduced to w bits, except where the tape overrides.
    Overlay { w: u32, seed: u64, tape: HashMap<(u32, u32), u32> },
}

/// Default order in which runnable tasks are polled; deviations are counted against it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Policy {
    Fifo,
    Lifo,
    /// Task with this index only runs when nothing else can.
    StarveTask(usize),
    /// All tasks of this group only run when nothing else can.
    StarveGroup(u32),
    /// Lowest group first.
    GroupAscending,
    /// Highest group first.
    GroupDescending,
}

#[derive(Clone)]
pub struct Cfg {
    pub prefix: Vec<u32>,
    pub kinds: u32,
    pub policy: Policy,
    pub rng: RngMode,
    pub join_order: u8, // 0: a then b, 1: b then a, 2: choice, 3: alternate
    pub io_chunk: IoChunk,
    pub pipe_cap: usize,
    pub max_steps: u64,
    pub record_streams: bool,
    pub rayon_threads: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IoChunk {
    Full,
    /// At most this many bytes per read/write.
    Max(usize),
    /// Reads choose the number of bytes (Kind::Io).
    ChooseRead,
    /// Reads and writes choose between everything, 1 byte and all but one byte.
    ChooseBoth,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            prefix: vec![],
            kinds: 0,
            policy: Policy::Fifo,
            rng: RngMode::Stream(1),
            join_order: 0,
            io_chunk: IoChunk::Full,
            pipe_cap: usize::MAX,
            max_steps: 5_000_000,
            record_streams: false,
            rayon_threads: 4,
        }
    }
}

pub fn kind_mask(ks: &[Kind]) -> u32 {
    ks.iter().fold(0, |a, k| a | (1 << (*k as u8)))
}

pub struct Inner {
    pub cfg: Cfg,
    pub trace: Vec<Choice>,
    pub steps: u64,
    pub overflow: bool,
    rng_state: HashMap<u32, u64>,
    pub rng_draws: BTreeMap<u32, u32>,
    join_flip: bool,
    pub(crate) tasks: Vec<exec::Slot>,
    pub(crate) live_roots: usize,
    pub(crate) queue: VecDeque<usize>,
    pub(crate) current: Option<usize>,
    pub(crate) cur_group: u32,
    pub(crate) timers: Vec<exec::Timer>,
    pub(crate) now: u64,
    pub(crate) timer_seq: u64,
    pub panics: Vec<(u32, String)>,
    pub(crate) net: net::Net,
    pub(crate) dead_groups: Vec<u32>,
    pub(crate) tearing_down: bool,
    /// Tasks that gave way and only go on when nothing else can.
    pub(crate) parked: Vec<usize>,
}

/// Shared handle.  All locking is short and never spans user code.
#[derive(Clone)]
pub struct World(pub(crate) Arc<Mutex<Inner>>);

thread_local! {
    static CUR: RefCell<Option<World>> = RefCell::new(None);
    static ARGS: RefCell<Option<Vec<String>>> = RefCell::new(None);
    static PLAIN: RefCell<(u64, bool, u8, usize)> = RefCell::new((0x9e3779b97f4a7c15, false, 0, 4));
}

impl World {
    pub fn new(cfg: Cfg) -> World {
        World(Arc::new(Mutex::new(Inner {
            cfg,
            trace: vec![],
            steps: 0,
            overflow: false,
            rng_state: HashMap::new(),
            rng_draws: BTreeMap::new(),
            join_flip: false,
            tasks: vec![],
            live_roots: 0,
            queue: VecDeque::new(),
            current: None,
            cur_group: 0,
            timers: vec![],
            now: 0,
            timer_seq: 0,
            panics: vec![],
            net: net::Net::default(),
            dead_groups: vec![],
            tearing_down: false,
            parked: vec![],
        })))
    }
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        match self.0.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }
    /// Makes this the current world of the calling thread while `f` runs.
    pub fn enter<R>(&self, f: impl FnOnce() -> R) -> R {
        struct Reset(Option<World>);
        impl Drop for Reset {
            fn drop(&mut self) {
                let old = self.0.take();
                CUR.with(|c| *c.borrow_mut() = old);
            }
        }
        let old = CUR.with(|c| c.borrow_mut().replace(self.clone()));
        let _r = Reset(old);
        f()
    }
}

pub fn current() -> Option<World> {
    CUR.with(|c| c.borrow().clone())
}

pub fn expect_current() -> World {
    current().expect("no controlled world on this thread")
}

impl Inner {
    pub fn choose(&mut self, kind: Kind, n: usize) -> usize {
        if n <= 1 || self.cfg.kinds & (1 << (kind as u8)) == 0 {
            return 0;
        }
        let i = self.trace.len();
        let mut t = self.cfg.prefix.get(i).copied().unwrap_or(0);
        if t as usize >= n {
            // Replays of the same program never get here; a diverging replay is reported.
            self.overflow = true;
            t = 0;
        }
        self.trace.push(Choice { kind, n: n as u32, taken: t });
        t as usize
    }
    pub fn now(&self) -> u64 {
        self.now
    }
}

pub fn choose(kind: Kind, n: usize) -> usize {
    match current() {
        Some(w) => w.lock().choose(kind, n),
        None => 0,
    }
}

/// Asked where a task could go on: true if it has to give way here and to stay behind until
/// nothing else can run.  The caller wakes its own waker and reports pending.
pub fn give_way() -> bool {
    match current() {
        None => false,
        Some(w) => {
            let mut i = w.lock();
            let Some(id) = i.current else { return false };
            if i.choose(Kind::Yield, 2) == 0 {
                return false;
            }
            i.parked.push(id);
            true
        }
    }
}

// ---- randomness -------------------------------------------------------------------------------

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// A draw: either raw bits or a value of `w` bits, to be spread over the word so that any way of
/// turning a word into a `w`-bit element (top bits, low bits, modulo) yields that value.
#[derive(Clone, Copy, Debug)]
pub enum Draw {
    Raw(u64),
    Val { w: u32, v: u32 },
}

impl Draw {
    pub fn u32(&self) -> u32 {
        match *self {
            Draw::Raw(r) => (r >> 32) as u32,
            Draw::Val { w, v } => spread32(w, v),
        }
    }
    pub fn u64(&self) -> u64 {
        match *self {
            Draw::Raw(r) => r,
            Draw::Val { w, v } => ((v as u64) << (64 - w)) | v as u64,
        }
    }
}

pub fn spread32(w: u32, v: u32) -> u32 {
    if w <= 16 {
        (v << (32 - w)) | v
    } else {
        v << (32 - w)
    }
}

pub fn draw() -> Draw {
    match current() {
        None => PLAIN.with(|p| Draw::Raw(splitmix(&mut p.borrow_mut().0))),
        Some(w) => {
            let mut i = w.lock();
            let g = i.cur_group;
            let idx = {
                let c = i.rng_draws.entry(g).or_insert(0);
                *c += 1;
                *c - 1
            };
            let mode = i.cfg.rng.clone_light(g, idx);
            match mode {
                Light::Stream(seed) => {
                    let st = i
                        .rng_state
                        .entry(g)
                        .or_insert(seed ^ (0x1234_5678_9abc_def1u64.wrapping_mul(g as u64 + 1)));
                    Draw::Raw(splitmix(st))
                }
                Light::Choice { w } => {
                    let v = i.choose(Kind::Rng, 1usize << w) as u32;
                    Draw::Val { w, v }
                }
                Light::Tape { w, v } => Draw::Val { w, v },
                Light::StreamVal { w, seed } => {
                    let st = i
                        .rng_state
                        .entry(g)
                        .or_insert(seed ^ (0x1234_5678_9abc_def1u64.wrapping_mul(g as u64 + 1)));
                    Draw::Val { w, v: (splitmix(st) >> (64 - w)) as u32 }
                }
            }
        }
    }
}

/// A generator seeded with fresh randomness: its words are draws like any others, except that
/// clones of it repeat them.
#[derive(Clone, Debug, Default)]
pub struct Fresh {
    seen: Arc<Mutex<Vec<Draw>>>,
    pos: usize,
}

impl Fresh {
    pub fn draw(&mut self) -> Draw {
        let mut seen = self.seen.lock().unwrap_or_else(|e| e.into_inner());
        while seen.len() <= self.pos {
            seen.push(draw());
        }
        self.pos += 1;
        seen[self.pos - 1]
    }
    pub fn bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.draw().u64().to_le_bytes();
            let k = c.len();
            c.copy_from_slice(&v[..k]);
        }
    }
}

enum Light {
    Stream(u64),
    Choice { w: u32 },
    Tape { w: u32, v: u32 },
    StreamVal { w: u32, seed: u64 },
}

impl RngMode {
    fn clone_light(&self, g: u32, idx: u32) -> Light {
        match self {
            RngMode::Stream(s) => Light::Stream(*s),
            RngMode::Choice { w } => Light::Choice { w: *w },
            RngMode::Tape { w, tape } => Light::Tape { w: *w, v: tape.get(&(g, idx)).copied().unwrap_or(0) },
            RngMode::Overlay { w, seed, tape } => match tape.get(&(g, idx)) {
                Some(v) => Light::Tape { w: *w, v: *v },
                None => Light::StreamVal { w: *w, seed: *seed },
            },
        }
    }
}

// ---- data parallelism -------------------------------------------------------------------------

/// Should the second half of a parallel join run first?
pub fn join_swap() -> bool {
    match current() {
        None => PLAIN.with(|p| {
            let mut p = p.borrow_mut();
            match p.2 {
                0 => false,
                1 => true,
                _ => {
                    p.1 = !p.1;
                    p.1
                }
            }
        }),
        Some(w) => {
            let mut i = w.lock();
            match i.cfg.join_order {
                0 => false,
                1 => true,
                2 => i.choose(Kind::Join, 2) == 1,
                _ => {
                    i.join_flip = !i.join_flip;
                    i.join_flip
                }
            }
        }
    }
}

pub fn rayon_threads() -> usize {
    match current() {
        None => PLAIN.with(|p| p.borrow().3),
        Some(w) => w.lock().cfg.rayon_threads,
    }
}

/// Join order and apparent thread count outside any world.
pub fn set_plain_parallel(order: u8, threads: usize) {
    PLAIN.with(|p| {
        let mut p = p.borrow_mut();
        p.2 = order;
        p.3 = threads;
    })
}

/// Is data parallelism to be simulated on the calling thread (always, unless a check asks for
/// real threads)?
pub fn simulate_join() -> bool {
    true
}

// ---- program arguments for in-process program runs --------------------------------------------

pub fn set_args(a: Option<Vec<String>>) {
    ARGS.with(|x| *x.borrow_mut() = a);
}

pub fn args() -> Option<Vec<String>> {
    ARGS.with(|x| x.borrow().clone())
}

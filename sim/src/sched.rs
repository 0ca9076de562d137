//! The simulator: one thread runs at a time, and who runs next, when the network delivers
//! and what the socket and the random source return is decided here from one seed (or from
//! a recorded schedule).
use crate::alloc;
use crate::rng::{hash_bytes, mix, Rng};
use quic_sea::sim::{set_runtime, Runtime};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io;
use std::net::SocketAddr;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

pub const NET: u16 = u16::MAX;
/// errno returned by receives once the simulation shuts a socket down
pub const SHUTDOWN_ERRNO: i32 = 108;

/// moves whenever the simulation does, watched for hangs
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Schedule {
    Search { seed: u64 },
    /// decisions that differ from the default choice, by their number
    Explicit { deviations: Vec<(u32, u16)> },
}

#[derive(Debug)]
enum Strategy {
    Uniform,
    Sticky(u64),
    Pct { change_at: Vec<u32>, priority: HashMap<u16, u64>, low: u64 },
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Status {
    Runnable,
    Blocked { key: usize, what: &'static str },
    Idle,
    Done,
}

struct Th {
    status: Status,
    name: String,
    cv: Arc<Condvar>,
    /// started by the code under simulation
    product: bool,
}

/// what the network does next
pub enum Ev {
    Arrive { copy: usize },
    RecvError { errno: i32 },
    Wake { key: usize },
    /// handled by the world, which may add further events
    Custom(u64, Vec<u8>),
}

pub enum Item {
    Datagram(usize),
    Error(i32),
}

/// a datagram on its way or arrived
pub struct CopyRec {
    pub data: Arc<Vec<u8>>,
    pub addr: SocketAddr,
    /// of the world: which send it came from, and whether it is as sent
    pub origin: usize,
    pub intact: bool,
}

/// a receive call that returned something
#[derive(Debug, Clone)]
pub struct RecvRec {
    pub thread: usize,
    pub sock: u64,
    pub seq: u64,
    pub got: Result<usize, i32>,
    /// whether the random source failed while that thread dealt with it
    pub rand_failed: bool,
    /// when that thread next asked for a datagram, or left its call
    pub end: u64,
}

struct Sock {
    open: bool,
    shutdown: bool,
    queue: VecDeque<Item>,
}

pub type CustomHandler = Box<dyn FnMut(&mut Inner, u64, Vec<u8>) + Send>;

pub struct Inner {
    threads: Vec<Th>,
    current: usize,
    events: BTreeMap<(u64, u64), Ev>,
    ev_seq: u64,
    pub now: u64,
    decisions: u32,
    run_length: u32,
    pub yields: u64,
    max_yields: u64,
    strategy: Strategy,
    net_per_mille: u64,
    rng: Rng,
    explicit: Option<HashMap<u32, u16>>,
    pub deviations: Vec<(u32, u16)>,
    pub hash: u64,
    pub switches: u64,
    tick: u64,
    socks: Vec<Sock>,
    pub copies: Vec<CopyRec>,
    pub recvs: Vec<RecvRec>,
    last_recv: HashMap<usize, usize>,
    rand: Rng,
    rand_repeat: u64,
    /// how often (per mille) the random source fails
    pub rand_fails: u64,
    outputs: u64,
    /// what the next attempts to bind meet, and where sockets were bound
    pub bind_plan: VecDeque<Option<i32>>,
    pub bound: Vec<SocketAddr>,
    /// attempts to write to standard output: thread, time and hash of the text
    pub written: Vec<(usize, u64, u64)>,
    output_fails: Option<(u8, u64, i32)>,
    clock_scale: u64,
    wall_jumps: u64,
    pub clock_readings: u64,
    rand_near: u64,
    rand_pool: Vec<u64>,
    rand_mask: u64,
    rand_given: Vec<u64>,
    handler: Option<CustomHandler>,
    pub violations: Vec<Violation>,
    dead: bool,
    finished: bool,
    pub faults: BTreeMap<&'static str, u64>,
    pub max_peak: i64,
    /// connections accepted so far, which the product keeps a table of
    pub accepted: i64,
    pub trace: Option<Vec<String>>,
}

pub struct Sim {
    inner: Mutex<Inner>,
    main: Condvar,
    writers_first: bool,
}

pub struct Setup {
    pub schedule: Schedule,
    pub writers_first: bool,
    pub rand_seed: u64,
    /// how often (per mille) the random source repeats itself, and how many bits it has
    pub rand_repeat: u64,
    pub rand_bits: u32,
    /// how often (per mille) it gives something close to an earlier value, or one of these
    pub rand_near: u64,
    /// milliseconds of the clocks per unit of simulated time, 0 counts as 1
    pub clock_scale: u64,
    /// seed of the jumps of the wall clock, 0 for none
    pub wall_jumps: u64,
    /// which of standard output (1) and error (2) fail, after how many writes and with what
    pub output_fails: Option<(u8, u64, i32)>,
    pub rand_pool: Vec<u64>,
    pub max_yields: u64,
    pub trace: bool,
}

thread_local! {
    static USER_PANIC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST_PANIC: RefCell<Option<(String, bool)>> = const { RefCell::new(None) };
    static ME: RefCell<Option<(Arc<Sim>, usize)>> = const { RefCell::new(None) };
}

/// Notes panics instead of printing them.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let product = alloc::in_product();
        alloc::harness(|| {
            let what = info
                .payload()
                .downcast_ref::<&str>()
                .map(|x| x.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            let at = info.location().map_or("?".into(), |x| {
                // line numbers move with unrelated edits
                x.file().to_string()
            });
            let line = info.location().map_or(0, |x| x.line());
            if !product {
                crate::harness_note(&format!("panic in the simulator: {what} at {at}:{line}"));
            }
            LAST_PANIC.with(|x| {
                // the first panic is the cause, not those it leads to
                let mut x = x.borrow_mut();
                if x.is_none() {
                    *x = Some((format!("{what} ({at}:{line})"), product));
                }
            });
        });
    }));
}

/// Runs code under simulation on the calling thread without a scheduler, and returns its
/// panic if it has one.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST_PANIC.with(|x| x.borrow_mut().take());
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    match catch_unwind(AssertUnwindSafe(|| alloc::product(f))) {
        Ok(x) => Ok(x),
        Err(_) => {
            let (what, product) =
                LAST_PANIC.with(|x| x.borrow_mut().take()).unwrap_or(("unknown panic".into(), true));
            if !product {
                crate::harness_error(&what);
            }
            Err(what)
        }
    }
}

fn strategy(rng: &mut Rng) -> Strategy {
    match rng.below(10) {
        0..=2 => Strategy::Uniform,
        3..=5 => Strategy::Sticky(*rng.pick(&[500u64, 800, 900, 950])),
        _ => {
            let horizon = *rng.pick(&[40u64, 120, 400, 1200]);
            let n = rng.range(1, 6);
            Strategy::Pct {
                change_at: (0..n).map(|_| rng.below(horizon) as u32).collect(),
                priority: HashMap::new(),
                low: 1 << 20,
            }
        }
    }
}

impl Inner {
    /// what the clocks of the code under simulation show
    fn clock(&self) -> Duration {
        Duration::from_secs(3600) + Duration::from_millis(self.now.saturating_mul(self.clock_scale))
    }
    fn fold(&mut self, x: u64) {
        self.hash = mix(self.hash ^ x);
    }
    fn note(&mut self, f: impl FnOnce(&Inner) -> String) {
        if self.trace.is_some() {
            let s = f(self);
            self.trace.as_mut().unwrap().push(s);
        }
    }
    pub fn count(&mut self, fault: &'static str) {
        *self.faults.entry(fault).or_insert(0) += 1;
    }
    pub fn send_copy(&mut self, delay: u64, rec: CopyRec) {
        let copy = self.copies.len();
        self.copies.push(rec);
        self.schedule(delay, Ev::Arrive { copy });
    }
    pub fn schedule(&mut self, delay: u64, ev: Ev) {
        self.ev_seq += 1;
        self.events.insert((self.now + delay, self.ev_seq), ev);
    }
    fn wake(&mut self, key: usize) {
        for t in self.threads.iter_mut() {
            if let Status::Blocked { key: k, .. } = t.status {
                if k == key {
                    t.status = Status::Runnable;
                }
            }
        }
    }
    fn end_receive(&mut self, me: usize) {
        self.tick += 1;
        let t = self.tick;
        if let Some(i) = self.last_recv.remove(&me) {
            self.recvs[i].end = self.recvs[i].end.min(t);
            if let Ok(c) = self.recvs[i].got {
                let peak = alloc::peak();
                let len = self.copies[c].data.len();
                self.max_peak = self.max_peak.max(peak);
                // a table grows by more than an entry at a time
                let table = if self.accepted > 16 { 4096 * self.accepted } else { 0 };
                if peak > alloc::limit(len) + table && self.violations.len() < 50 {
                    self.violations.push(Violation {
                        class: "memory".into(),
                        detail: format!("receiving a datagram of {len} bytes allocated {peak} bytes"),
                    });
                }
            }
        }
    }
    fn deliver_next(&mut self) {
        let ((at, _), ev) = self.events.pop_first().unwrap();
        self.now = self.now.max(at);
        self.fold(at ^ 0x6e65_7400);
        match ev {
            Ev::Arrive { copy } => {
                let target = self.socks.iter().rposition(|x| x.open && !x.shutdown);
                let data = self.copies[copy].data.clone();
                self.hash = hash_bytes(self.hash, &data);
                match target {
                    Some(i) => {
                        self.socks[i].queue.push_back(Item::Datagram(copy));
                        self.note(|x| {
                            format!("t={} arrive copy {copy} ({} bytes from {})", x.now, data.len(), x.copies[copy].addr)
                        });
                        self.wake(sock_key(i as u64));
                    }
                    None => self.count("arrival with no socket open"),
                }
            }
            Ev::RecvError { errno } => {
                if let Some(i) = self.socks.iter().rposition(|x| x.open && !x.shutdown) {
                    self.socks[i].queue.push_back(Item::Error(errno));
                    self.note(|x| format!("t={} receive error {errno} queued", x.now));
                    self.wake(sock_key(i as u64));
                }
            }
            Ev::Wake { key } => self.wake(key),
            Ev::Custom(code, data) => {
                self.note(|x| format!("t={} event {code}", x.now));
                if let Some(mut h) = self.handler.take() {
                    h(self, code, data);
                    self.handler = Some(h);
                }
            }
        }
    }
    /// chooses who runs next, delivering network events on the way
    fn pick(&mut self, me: usize) -> Option<usize> {
        loop {
            let runnable: Vec<u16> = (0..self.threads.len())
                .filter(|i| self.threads[*i].status == Status::Runnable)
                .map(|i| i as u16)
                .collect();
            let net = !self.events.is_empty();
            if runnable.is_empty() && !net {
                return self.threads.iter().position(|x| x.status == Status::Idle);
            }
            let n = runnable.len() + usize::from(net);
            let choice = if n == 1 {
                runnable.first().copied().unwrap_or(NET)
            } else {
                let index = self.decisions;
                self.decisions += 1;
                let default = self.default_choice(me as u16, &runnable, net);
                let choice = match &self.explicit {
                    Some(x) => match x.get(&index) {
                        Some(c) if (*c == NET && net) || runnable.contains(c) => *c,
                        _ => default,
                    },
                    None => self.search_choice(me as u16, &runnable, net, index),
                };
                if choice != default {
                    self.deviations.push((index, choice));
                }
                self.fold(u64::from(choice) | u64::from(index) << 16);
                choice
            };
            if choice == me as u16 {
                self.run_length += 1;
            } else {
                self.run_length = 0;
            }
            if choice == NET {
                self.deliver_next();
            } else {
                return Some(usize::from(choice));
            }
        }
    }
    fn default_choice(&self, me: u16, runnable: &[u16], net: bool) -> u16 {
        if runnable.contains(&me) && self.run_length < 400 {
            me
        } else {
            match runnable.iter().find(|x| **x > me).or(runnable.first()) {
                Some(x) if *x != me || !net => *x,
                _ => NET,
            }
        }
    }
    fn search_choice(&mut self, me: u16, runnable: &[u16], net: bool, index: u32) -> u16 {
        let fair = index > 4000;
        if net && (runnable.is_empty() || self.rng.chance(self.net_per_mille)) {
            return NET;
        }
        if fair {
            return *self.rng.pick(runnable);
        }
        match &mut self.strategy {
            Strategy::Uniform => *self.rng.pick(runnable),
            Strategy::Sticky(p) => {
                if runnable.contains(&me) && self.rng.chance(*p) {
                    me
                } else {
                    *self.rng.pick(runnable)
                }
            }
            Strategy::Pct { change_at, priority, low } => {
                for x in runnable {
                    if !priority.contains_key(x) {
                        let p = self.rng.next() | 1 << 32;
                        priority.insert(*x, p);
                    }
                }
                let best = *runnable.iter().max_by_key(|x| priority[x]).unwrap();
                if change_at.contains(&index) {
                    *low -= 1;
                    priority.insert(best, *low);
                    *runnable.iter().max_by_key(|x| priority[x]).unwrap()
                } else {
                    best
                }
            }
        }
    }
}

fn sock_key(id: u64) -> usize {
    0x100 + id as usize
}

/// key of the n-th condition of the world
pub fn world_key(n: usize) -> usize {
    0x800 + n
}

struct Rt {
    sim: Arc<Sim>,
    me: usize,
}

impl Sim {
    pub fn new(setup: Setup) -> Arc<Self> {
        let (seed, explicit) = match &setup.schedule {
            Schedule::Search { seed } => (*seed, None),
            Schedule::Explicit { deviations } => (0, Some(deviations.iter().copied().collect())),
        };
        let mut rng = Rng::new(seed);
        let strategy = strategy(&mut rng);
        let net_per_mille = *rng.pick(&[20u64, 100, 300, 600, 900]);
        Arc::new(Self {
            inner: Mutex::new(Inner {
                threads: Vec::new(),
                current: 0,
                events: BTreeMap::new(),
                ev_seq: 0,
                now: 0,
                decisions: 0,
                run_length: 0,
                yields: 0,
                max_yields: setup.max_yields,
                strategy,
                net_per_mille,
                rng,
                explicit,
                deviations: Vec::new(),
                hash: 0,
                switches: 0,
                tick: 0,
                socks: Vec::new(),
                copies: Vec::new(),
                recvs: Vec::new(),
                last_recv: HashMap::new(),
                rand: Rng::new(setup.rand_seed),
                rand_repeat: setup.rand_repeat,
                rand_fails: 0,
                rand_near: setup.rand_near,
                clock_scale: setup.clock_scale.max(1),
                wall_jumps: setup.wall_jumps,
                clock_readings: 0,
                outputs: 0,
                written: vec![],
                bind_plan: VecDeque::new(),
                bound: vec![],
                output_fails: setup.output_fails,
                rand_pool: setup.rand_pool,
                rand_mask: u64::MAX >> (64 - setup.rand_bits.clamp(1, 64)),
                rand_given: Vec::new(),
                handler: None,
                violations: Vec::new(),
                dead: false,
                finished: false,
                faults: BTreeMap::new(),
                max_peak: 0,
                accepted: 0,
                trace: setup.trace.then(Vec::new),
            }),
            main: Condvar::new(),
            writers_first: setup.writers_first,
        })
    }
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|x| x.into_inner())
    }
    pub fn set_handler(&self, h: CustomHandler) {
        self.lock().handler = Some(h);
    }
    /// current position in the history, every call gives another
    pub fn tick(&self) -> u64 {
        let mut g = self.lock();
        g.tick += 1;
        g.tick
    }
    pub fn now(&self) -> u64 {
        self.lock().now
    }
    pub fn trace(&self, f: impl FnOnce() -> String) {
        let mut g = self.lock();
        if g.trace.is_some() {
            let name = g.threads.get(g.current).map_or(String::new(), |x| x.name.clone());
            let s = f();
            g.trace.as_mut().unwrap().push(format!("{name}: {s}"));
        }
    }
    pub fn fail(&self, class: &str, detail: String) {
        let mut g = self.lock();
        if g.violations.len() < 50 {
            g.violations.push(Violation { class: class.into(), detail });
        }
    }
    fn die(&self, mut g: MutexGuard<'_, Inner>, class: &str, detail: String) -> ! {
        g.violations.push(Violation { class: class.into(), detail });
        g.dead = true;
        self.main.notify_all();
        self.park_forever(g)
    }
    /// ends the simulation leaving its threads behind
    pub fn abandon(&self) -> ! {
        let mut g = self.lock();
        g.dead = true;
        self.main.notify_all();
        self.park_forever(g)
    }
    fn park_forever(&self, g: MutexGuard<'_, Inner>) -> ! {
        let cv = Condvar::new();
        let mut g = g;
        loop {
            g = cv.wait(g).unwrap_or_else(|x| x.into_inner());
        }
    }
    /// passes control to whoever is next and returns when it is back
    fn reschedule(&self, mut g: MutexGuard<'_, Inner>, me: usize) {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        g.yields += 1;
        if g.yields > g.max_yields {
            let s = format!("no end after {} scheduling steps", g.max_yields);
            self.die(g, "livelock", s);
        }
        match g.pick(me) {
            None => {
                let stuck = g.threads.iter().map(|x| format!("{}: {:?}", x.name, x.status)).collect::<Vec<_>>();
                self.die(g, "deadlock", format!("nobody can run: {}", stuck.join(", ")));
            }
            Some(next) => {
                if g.threads[next].status == Status::Idle {
                    g.threads[next].status = Status::Runnable;
                }
                if next != me {
                    g.switches += 1;
                    g.current = next;
                    g.threads[next].cv.notify_all();
                }
            }
        }
        if g.threads[me].status == Status::Done {
            return;
        }
        let cv = g.threads[me].cv.clone();
        while g.current != me || g.dead {
            g = cv.wait(g).unwrap_or_else(|x| x.into_inner());
        }
    }
    fn me() -> usize {
        ME.with(|x| x.borrow().as_ref().unwrap().1)
    }
    pub fn yield_now(&self) {
        let me = Self::me();
        self.reschedule(self.lock(), me);
    }
    pub fn block_on(&self, key: usize, what: &'static str) {
        let me = Self::me();
        let mut g = self.lock();
        g.threads[me].status = Status::Blocked { key, what };
        self.reschedule(g, me);
    }
    pub fn wake(&self, key: usize) {
        self.lock().wake(key);
    }
    /// controller only: waits until nobody else can run and the network is empty
    pub fn wait_idle(&self) {
        let me = Self::me();
        let mut g = self.lock();
        g.threads[me].status = Status::Idle;
        self.reschedule(g, me);
    }
    /// threads that are neither done nor the caller, with what they wait for
    pub fn waiting(&self) -> Vec<(usize, String, &'static str)> {
        let me = Self::me();
        let g = self.lock();
        (0..g.threads.len())
            .filter(|i| *i != me && !g.threads[*i].product)
            .filter_map(|i| match g.threads[i].status {
                Status::Blocked { what, .. } => Some((i, g.threads[i].name.clone(), what)),
                Status::Runnable | Status::Idle => Some((i, g.threads[i].name.clone(), "runnable")),
                Status::Done => None,
            })
            .collect()
    }
    pub fn spawn(self: &Arc<Self>, name: String, f: impl FnOnce() + Send + 'static) -> (usize, std::thread::JoinHandle<()>) {
        self.start(name, false, f)
    }
    fn start(self: &Arc<Self>, name: String, product: bool, f: impl FnOnce() + Send + 'static) -> (usize, std::thread::JoinHandle<()>) {
        let mut g = self.lock();
        let id = g.threads.len();
        let cv = Arc::new(Condvar::new());
        g.threads.push(Th { status: Status::Runnable, name, cv, product });
        drop(g);
        let sim = self.clone();
        let h = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || sim.thread_main(id, f))
            .unwrap_or_else(|x| crate::harness_error(&format!("cannot start a thread: {x}")));
        (id, h)
    }
    fn thread_main(self: Arc<Self>, me: usize, f: impl FnOnce()) {
        ME.with(|x| *x.borrow_mut() = Some((self.clone(), me)));
        set_runtime(Some(Arc::new(Rt { sim: self.clone(), me })));
        {
            let mut g = self.lock();
            let cv = g.threads[me].cv.clone();
            while g.current != me || g.dead {
                g = cv.wait(g).unwrap_or_else(|x| x.into_inner());
            }
        }
        LAST_PANIC.with(|x| x.borrow_mut().take());
        if catch_unwind(AssertUnwindSafe(f)).is_err() {
            let (what, product) =
                LAST_PANIC.with(|x| x.borrow_mut().take()).unwrap_or(("unknown panic".into(), true));
            if !product {
                crate::harness_error(&what);
            }
            let g = self.lock();
            let name = g.threads[me].name.clone();
            self.die(g, "panic", format!("{name} panicked: {what}"));
        }
        set_runtime(None);
        ME.with(|x| x.borrow_mut().take());
        let mut g = self.lock();
        g.threads[me].status = Status::Done;
        if me == 0 {
            g.finished = true;
            self.main.notify_all();
        } else {
            self.reschedule(g, me);
        }
    }
    /// Runs `controller` as thread 0 and waits for the end of the simulation. Returns
    /// whether it came to its end, otherwise its threads are left behind.
    pub fn run(self: &Arc<Self>, controller: impl FnOnce() + Send + 'static) -> bool {
        let (_, h) = self.spawn("controller".into(), controller);
        let mut g = self.lock();
        while !g.finished && !g.dead {
            g = self.main.wait(g).unwrap_or_else(|x| x.into_inner());
        }
        let ok = !g.dead;
        drop(g);
        if ok {
            let _ = h.join();
        }
        ok
    }
    pub fn schedule(&self, delay: u64, ev: Ev) {
        self.lock().schedule(delay, ev);
    }
    pub fn count(&self, fault: &'static str) {
        self.lock().count(fault);
    }
    /// no more datagrams for the sockets that are open: receives on them fail once empty
    pub fn shut_sockets(&self) {
        let mut g = self.lock();
        for i in 0..g.socks.len() {
            if g.socks[i].open {
                g.socks[i].shutdown = true;
                g.wake(sock_key(i as u64));
            }
        }
    }
    /// datagrams and errors nobody has received
    pub fn unreceived(&self) -> usize {
        self.lock().socks.iter().filter(|x| x.open).map(|x| x.queue.len()).sum()
    }
    pub fn all_sockets_closed(&self) -> bool {
        self.lock().socks.iter().all(|x| !x.open)
    }
    /// the calling thread has left the call in which it was receiving
    pub fn end_of_receive(&self) {
        let me = Self::me();
        let mut g = self.lock();
        g.end_receive(me);
    }
    /// index of the last receive of the calling thread in its current call
    pub fn last_receive(&self) -> Option<RecvRec> {
        let me = Self::me();
        let g = self.lock();
        g.last_recv.get(&me).map(|i| g.recvs[*i].clone())
    }
    /// Nothing happens any more: what has been received and not been dealt with by now never
    /// will be. Returns those receives.
    pub fn settle_receives(&self) -> Vec<RecvRec> {
        let mut g = self.lock();
        g.tick += 1;
        let t = g.tick;
        let open: Vec<usize> = g.last_recv.values().copied().filter(|i| g.recvs[*i].end == u64::MAX).collect();
        let mut v = Vec::new();
        for i in open {
            g.recvs[i].end = t;
            v.push(g.recvs[i].clone());
        }
        v.sort_by_key(|r| r.seq);
        v
    }
    pub fn thread_id(&self) -> usize {
        Self::me()
    }
}

/// whether code under simulation has panicked
fn unwinding() -> bool {
    std::thread::panicking() && !USER_PANIC.with(|x| x.get())
}

/// runs code while the calling thread unwinds because of a panic of the application
pub fn while_unwinding(f: impl FnOnce()) {
    struct Late<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for Late<F> {
        fn drop(&mut self) {
            if let Some(f) = self.0.take() {
                f();
            }
        }
    }
    USER_PANIC.with(|x| x.set(true));
    let late = Late(Some(f));
    let _ = catch_unwind(AssertUnwindSafe(move || {
        let _late = late;
        std::panic::resume_unwind(Box::new(()));
    }));
    USER_PANIC.with(|x| x.set(false));
}

impl Inner {
    fn output_result(&mut self, stream: u8) -> io::Result<()> {
        self.outputs += 1;
        match self.output_fails {
            Some((streams, after, errno)) if streams & stream != 0 && self.outputs > after => {
                self.count("failing output");
                Err(io::Error::from_raw_os_error(errno))
            }
            _ => Ok(()),
        }
    }
}

impl Runtime for Rt {
    fn output(&self, stream: u8) -> io::Result<()> {
        if unwinding() {
            return Ok(());
        }
        self.yield_point("output");
        alloc::harness(|| {
            let mut g = self.sim.lock();
            g.tick += 1;
            if stream == 1 {
                let t = g.tick;
                g.written.push((self.me, t, 0));
            }
            g.output_result(stream)
        })
    }
    fn wrote(&self, stream: u8, text: u64) {
        alloc::harness(|| {
            let mut g = self.sim.lock();
            if let Some(x) = g.written.iter_mut().rev().find(|x| x.0 == self.me).filter(|_| stream == 1) {
                x.2 = text;
            }
        })
    }
    fn flush(&self, stream: u8) -> io::Result<()> {
        if unwinding() {
            return Ok(());
        }
        self.yield_point("flush");
        alloc::harness(|| self.sim.lock().output_result(stream))
    }
    fn monotonic_time(&self) -> Duration {
        alloc::harness(|| {
            let mut g = self.sim.lock();
            g.clock_readings += 1;
            g.clock()
        })
    }
    fn wall_time(&self) -> Duration {
        alloc::harness(|| {
            let mut g = self.sim.lock();
            g.clock_readings += 1;
            let off = if g.wall_jumps == 0 { 0 } else { crate::rng::derive(g.wall_jumps, &[g.now / 50]) % 200_000 };
            // jumps within two days, forwards and back
            g.clock() + Duration::from_secs(1_700_000_000 + off)
        })
    }
    fn yield_point(&self, _what: &'static str) {
        if unwinding() {
            return;
        }
        alloc::harness(|| self.sim.reschedule(self.sim.lock(), self.me))
    }
    fn block(&self, key: usize, what: &'static str) {
        alloc::harness(|| {
            if unwinding() {
                let why = LAST_PANIC.with(|x| x.borrow().clone()).map_or("unknown".into(), |x| x.0);
                let g = self.sim.lock();
                let name = g.threads[self.me].name.clone();
                self.sim.die(g, "panic", format!("{name} panicked: {why}"));
            }
            let mut g = self.sim.lock();
            g.threads[self.me].status = Status::Blocked { key, what };
            self.sim.reschedule(g, self.me);
        })
    }
    fn signal(&self, key: usize) {
        alloc::harness(|| {
            let mut g = self.sim.lock();
            g.wake(key);
            if !unwinding() {
                // preemption right after releasing a lock or sending
                self.sim.reschedule(g, self.me);
            }
        })
    }
    fn spawn(&self, f: Box<dyn FnOnce() + Send>) {
        alloc::harness(|| {
            let n = {
                let mut g = self.sim.lock();
                g.count("threads started by the code under simulation");
                g.threads.iter().filter(|x| x.product).count()
            };
            self.sim.start(format!("thread {n} of the library"), true, move || alloc::product(f));
        });
        self.yield_point("spawn");
    }
    fn prefers_writers(&self) -> bool {
        self.sim.writers_first
    }
    fn bind(&self, addr: SocketAddr) -> io::Result<u64> {
        alloc::harness(|| {
            let mut g = self.sim.lock();
            if let Some(Some(errno)) = g.bind_plan.pop_front() {
                g.count("failing bind");
                return Err(io::Error::from_raw_os_error(errno));
            }
            g.bound.push(addr);
            g.socks.push(Sock { open: true, shutdown: false, queue: VecDeque::new() });
            Ok(g.socks.len() as u64 - 1)
        })
    }
    fn close(&self, socket: u64) {
        alloc::harness(|| {
            let mut g = self.sim.lock();
            let s = &mut g.socks[socket as usize];
            s.open = false;
            s.queue.clear();
        })
    }
    fn recv_from(
        &self,
        socket: u64,
        buff: &mut [u8],
        peek: bool,
        nonblocking: bool,
    ) -> io::Result<(usize, SocketAddr)> {
        alloc::harness(|| {
            {
                let mut g = self.sim.lock();
                g.end_receive(self.me);
                self.sim.reschedule(g, self.me);
            }
            loop {
                let mut g = self.sim.lock();
                let s = &mut g.socks[socket as usize];
                let got = match s.queue.front() {
                    Some(Item::Datagram(c)) => Ok(*c),
                    Some(Item::Error(e)) => Err(*e),
                    None if s.shutdown => Err(SHUTDOWN_ERRNO),
                    None if nonblocking => return Err(io::Error::from(io::ErrorKind::WouldBlock)),
                    None => {
                        g.threads[self.me].status =
                            Status::Blocked { key: sock_key(socket), what: "receive" };
                        self.sim.reschedule(g, self.me);
                        continue;
                    }
                };
                if !peek {
                    s.queue.pop_front();
                    g.tick += 1;
                    let rec = RecvRec { thread: self.me, sock: socket, seq: g.tick, got, rand_failed: false, end: u64::MAX };
                    let at = g.recvs.len();
                    g.recvs.push(rec);
                    g.last_recv.insert(self.me, at);
                    g.fold(self.me as u64 ^ 0x7265_6376);
                    if let Err(e) = got {
                        if e != SHUTDOWN_ERRNO {
                            g.count("receive error");
                        }
                    }
                    g.note(|x| format!("{}: receives {got:?}", x.threads[x.current].name));
                    alloc::reset_peak();
                }
                return match got {
                    Ok(c) => {
                        let data = g.copies[c].data.clone();
                        let addr = g.copies[c].addr;
                        drop(g);
                        let n = data.len().min(buff.len());
                        buff[..n].copy_from_slice(&data[..n]);
                        Ok((n, addr))
                    }
                    Err(e) => Err(io::Error::from_raw_os_error(e)),
                };
            }
        })
    }
    fn send_to(&self, _socket: u64, data: &[u8], _addr: SocketAddr) -> io::Result<usize> {
        Ok(data.len())
    }
    fn rand_fails(&self) -> bool {
        alloc::harness(|| {
            let mut g = self.sim.lock();
            let g = &mut *g;
            if g.rand_fails == 0 || !g.rand.chance(g.rand_fails) {
                return false;
            }
            if let Some(i) = g.last_recv.get(&self.me) {
                g.recvs[*i].rand_failed = true;
            }
            g.count("failing random source");
            true
        })
    }
    fn rand_bytes(&self, buff: &mut [u8]) {
        alloc::harness(|| {
            let mut g = self.sim.lock();
            let g = &mut *g;
            for chunk in buff.chunks_mut(8) {
                let v = if !g.rand_given.is_empty() && g.rand.chance(g.rand_repeat) {
                    *g.faults.entry("repeated random value").or_insert(0) += 1;
                    *g.rand.pick(&g.rand_given)
                } else if !g.rand_given.is_empty() && g.rand.chance(g.rand_near) {
                    *g.faults.entry("random value close to an earlier one").or_insert(0) += 1;
                    let x = *g.rand.pick(&g.rand_given);
                    let y = g.rand.next();
                    match g.rand.below(6) {
                        0 => x & 0xffff_ffff | y << 32,
                        1 => x & !0xffff_ffff | y >> 32,
                        2 => x ^ 1 << (y % 64),
                        3 => x ^ (y >> 56 | 1) << (8 * (y % 8)),
                        4 => x.swap_bytes(),
                        _ => x.rotate_left(8 * (1 + y as u32 % 7)),
                    }
                } else if !g.rand_pool.is_empty() && g.rand.chance(g.rand_near) {
                    *g.faults.entry("random value equal to an id a client chose").or_insert(0) += 1;
                    *g.rand.pick(&g.rand_pool)
                } else {
                    (g.rand.next() & g.rand_mask) | 1
                };
                let v = v.max(1);
                g.rand_given.push(v);
                chunk.copy_from_slice(&v.to_be_bytes()[..chunk.len()]);
            }
            g.hash = hash_bytes(g.hash, buff);
        })
    }
}

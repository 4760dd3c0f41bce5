//! The simulated world: every seam the library can call back into goes through here.
//! One thread-local `World` per run: call-site counters, fault plan, preemption plan,
//! drop ledger for value tokens, allocator ledger, event-log hash.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

// ---------------------------------------------------------------- allocator
pub struct SimAlloc;
#[repr(C)]
struct Hdr {
    magic: u64,
    size: u64,
    flags: u64,
    next: *mut Hdr,
}
const HS: usize = 32;
const ALIVE: u64 = 0xA11C_A11C_A11C_A11C;
const FREED: u64 = 0xDEAD_F1EE_DEAD_F1EE;
const POISON: u8 = 0xDD;
thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    /// inside a library call, and what library calls allocated and did not free
    static INCALL: Cell<bool> = const { Cell::new(false) };
    static HOLD: Cell<i64> = const { Cell::new(0) };
    static EPOCH: Cell<u64> = const { Cell::new(1) };
    static QHEAD: Cell<*mut Hdr> = const { Cell::new(std::ptr::null_mut()) };
    static QBYTES: Cell<usize> = const { Cell::new(0) };
    static BADFREE: Cell<u64> = const { Cell::new(0) };
    static FAIL_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static ALLOCS: Cell<u64> = const { Cell::new(0) };
    /// lowest stack pointer seen by the allocator in library code since the last reset
    static SPMIN: Cell<usize> = const { Cell::new(usize::MAX) };
}
#[inline]
fn mark_sp() {
    let sp = approx_sp();
    SPMIN.with(|c| {
        if sp < c.get() {
            c.set(sp)
        }
    });
}
const QCAP: usize = 64 << 20;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 {
            return System.alloc(l);
        }
        let raw = System.alloc(Layout::from_size_align_unchecked(l.size() + HS, 16));
        if raw.is_null() {
            return raw;
        }
        let h = raw as *mut Hdr;
        let t = TRACK.with(|t| t.get());
        (*h).magic = ALIVE;
        (*h).size = l.size() as u64;
        (*h).next = std::ptr::null_mut();
        (*h).flags = 0;
        if t {
            mark_sp();
            let incall = INCALL.with(|c| c.get());
            (*h).flags = EPOCH.with(|e| e.get()) << 1 | incall as u64;
            if incall {
                HOLD.with(|c| c.set(c.get() + l.size() as i64));
            }
            LIVE.with(|c| c.set(c.get() + 1));
            LIVE_BYTES.with(|c| c.set(c.get() + l.size() as i64));
            ALLOCS.with(|c| c.set(c.get() + 1));
            // fresh memory is poisoned too, so reads of never-written memory are visible
            std::ptr::write_bytes(raw.add(HS), 0xCD, l.size());
        }
        raw.add(HS)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 16 {
            return System.dealloc(p, l);
        }
        let h = p.sub(HS) as *mut Hdr;
        if (*h).magic != ALIVE {
            BADFREE.with(|c| c.set(c.get() + 1));
            return;
        }
        if (*h).flags != 0 {
            (*h).magic = FREED;
            if TRACK.with(|t| t.get()) {
                mark_sp();
            }
            let same = EPOCH.with(|e| e.get()) == (*h).flags >> 1;
            if same {
                if (*h).flags & 1 == 1 {
                    HOLD.with(|c| c.set(c.get() - (*h).size as i64));
                }
                LIVE.with(|c| c.set(c.get() - 1));
                LIVE_BYTES.with(|c| c.set(c.get() - (*h).size as i64));
            }
            std::ptr::write_bytes(p, POISON, l.size());
            if same && QBYTES.with(|c| c.get()) < QCAP {
                QBYTES.with(|c| c.set(c.get() + l.size() + HS));
                (*h).next = QHEAD.with(|q| q.get());
                QHEAD.with(|q| q.set(h));
                return;
            }
        }
        (*h).magic = FREED;
        System.dealloc(h as *mut u8, Layout::from_size_align_unchecked((*h).size as usize + HS, 16));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // keep the tracking state of the block, whoever grows it
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let np = if l.align() <= 16 && (*(p.sub(HS) as *mut Hdr)).flags != 0 {
            let _g = Lib::enter();
            self.alloc(nl)
        } else {
            let _g = Har::enter();
            self.alloc(nl)
        };
        if !np.is_null() {
            std::ptr::copy_nonoverlapping(p, np, l.size().min(n));
            self.dealloc(p, l);
        }
        np
    }
}
fn flush_quarantine() {
    let mut h = QHEAD.with(|q| q.replace(std::ptr::null_mut()));
    QBYTES.with(|c| c.set(0));
    while !h.is_null() {
        unsafe {
            let n = (*h).next;
            System.dealloc(h as *mut u8, Layout::from_size_align_unchecked((*h).size as usize + HS, 16));
            h = n;
        }
    }
}
/// Allocations made while a `Lib` guard is innermost belong to the run (library or fixture).
pub struct Lib(bool);
impl Lib {
    #[inline]
    pub fn enter() -> Lib {
        Lib(TRACK.with(|t| t.replace(true)))
    }
}
impl Drop for Lib {
    fn drop(&mut self) {
        TRACK.with(|t| t.set(self.0))
    }
}
/// Allocations made while a `Har` guard is innermost belong to the simulator.
pub struct Har(bool);
impl Har {
    #[inline]
    pub fn enter() -> Har {
        Har(TRACK.with(|t| t.replace(false)))
    }
}
impl Drop for Har {
    fn drop(&mut self) {
        TRACK.with(|t| t.set(self.0))
    }
}

// ---------------------------------------------------------------- world
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Site {
    Expand = 0,
    IntoKids = 1,
    KidNext = 2,
    SrcInto = 3,
    SrcNext = 4,
    Closure = 5,
    ValDrop = 6,
    Hint = 7,
}
pub const NSITE: usize = 8;
pub const SITE_NAMES: [&str; NSITE] =
    ["expand", "into_kids", "kid_next", "src_into", "src_next", "closure", "val_drop", "size_hint"];

/// Payload of every injected panic.
pub struct Injected(#[allow(dead_code)] pub usize);
pub struct OverBudget;

#[derive(Clone, Debug)]
pub struct Issue {
    pub tags: Vec<String>,
    pub sig: String,
    pub msg: String,
}

#[derive(Clone, Copy, Debug)]
pub struct FaultAt {
    pub site: usize,
    pub nth: u64,
}

pub struct World {
    pub drops: Vec<u8>,
    /// values dropped (once)
    pub dropped: u64,
    pub tok_drops: Vec<u8>,
    pub hits: [u64; NSITE],
    pub total: u64,
    pub faults: Vec<FaultAt>,
    pub fired: [u64; NSITE],
    pub preempts: Vec<(u64, usize)>,
    pub budget: u64,
    pub issues: Vec<Issue>,
    pub hash: u64,
    pub cur_task: usize,
    pub cur_tag: &'static str,
    /// expansion log: (task, root id)
    pub expanded: Vec<(u32, u32)>,
    pub src_pulls: Vec<(u32, u32)>,
    pub stack_base: usize,
    pub stack_max: usize,
    pub fault_happened: bool,
    pub faults_armed: bool,
    pub refused: bool,
    /// an iterator's destructor was skipped: what it owned is leaked by request
    pub forgot: bool,
    pub reentered: u64,
    pub steps: u64,
}
impl World {
    const fn new() -> World {
        World {
            drops: Vec::new(),
            dropped: 0,
            tok_drops: Vec::new(),
            hits: [0; NSITE],
            total: 0,
            faults: Vec::new(),
            fired: [0; NSITE],
            preempts: Vec::new(),
            budget: u64::MAX,
            issues: Vec::new(),
            hash: 0xcbf29ce484222325,
            cur_task: usize::MAX,
            cur_tag: "",
            expanded: Vec::new(),
            src_pulls: Vec::new(),
            stack_base: 0,
            stack_max: 0,
            fault_happened: false,
            faults_armed: true,
            refused: false,
            forgot: false,
            reentered: 0,
            steps: 0,
        }
    }
}
thread_local! {
    static W: UnsafeCell<World> = const { UnsafeCell::new(World::new()) };
    static PREEMPT: Cell<Option<fn(usize)>> = const { Cell::new(None) };
}
/// `f` must not call back into the world, the library, or panic.
#[inline]
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(unsafe { &mut *w.get() }))
}
pub fn reset(faults: Vec<FaultAt>, preempts: Vec<(u64, usize)>, budget: u64, preempt: Option<fn(usize)>) {
    let _h = Har::enter();
    EPOCH.with(|e| e.set(e.get() + 1));
    LIVE.with(|c| c.set(0));
    LIVE_BYTES.with(|c| c.set(0));
    HOLD.with(|c| c.set(0));
    BADFREE.with(|c| c.set(0));
    FAIL_AT.with(|c| c.set(u64::MAX));
    with(|w| {
        *w = World::new();
        w.faults = faults;
        w.preempts = preempts;
        w.budget = budget;
    });
    PREEMPT.with(|p| p.set(preempt));
}
/// Called when everything of the run has been dropped: leak and bad-free accounting.
pub fn end_of_run() -> (i64, u64) {
    let r = (LIVE.with(|c| c.get()), BADFREE.with(|c| c.get()));
    EPOCH.with(|e| e.set(e.get() + 1));
    flush_quarantine();
    r
}
/// Bytes allocated by library calls of this run and not freed yet.
pub fn held_bytes() -> i64 {
    HOLD.with(|c| c.get())
}
/// Values alive.
pub fn live_vals() -> u64 {
    with(|w| w.drops.len() as u64 - w.dropped)
}
pub fn bad_frees() -> u64 {
    BADFREE.with(|c| c.get())
}
#[inline]
pub fn mix(h: &mut u64, x: u64) {
    *h = (*h ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
}
#[inline]
pub fn log(x: u64) {
    with(|w| mix(&mut w.hash, x));
}
pub fn issue(tags: &[&str], sig: impl Into<String>, msg: impl Into<String>) {
    let _h = Har::enter();
    // copies owned by the simulator; the originals may count as allocations of the run
    let (sig, msg): (String, String) = (sig.into(), msg.into());
    let (sig, msg) = (sig.as_str().to_string(), msg.as_str().to_string());
    with(|w| {
        if w.issues.len() < 40 {
            w.issues.push(Issue { tags: tags.iter().map(|s| s.to_string()).collect(), sig, msg });
        }
    });
}
#[inline(never)]
pub fn approx_sp() -> usize {
    let x = 0u8;
    std::hint::black_box(&x as *const u8 as usize)
}
/// The one entry point of every seam.
pub fn hook(site: Site, who: u32) {
    let _h = Har::enter();
    enum Act {
        None,
        Panic(usize),
        Budget,
        Preempt(usize),
    }
    let unwinding = std::thread::panicking();
    let sp = approx_sp();
    let act = with(|w| {
        let s = site as usize;
        w.hits[s] += 1;
        w.total += 1;
        if w.stack_base > sp {
            w.stack_max = w.stack_max.max(w.stack_base - sp);
        }
        let (t, tag) = (w.cur_task as u64, s as u64);
        mix(&mut w.hash, t << 40 | tag << 32 | who as u64);
        if site == Site::Expand {
            w.expanded.push((w.cur_task as u32, who));
        }
        if site == Site::SrcNext {
            w.src_pulls.push((w.cur_task as u32, who));
        }
        if unwinding {
            return Act::None;
        }
        if w.budget == 0 {
            return Act::Budget;
        }
        w.budget -= 1;
        let n = w.hits[s];
        if w.faults_armed && w.faults.iter().any(|f| f.site == s && f.nth == n) {
            w.fired[s] += 1;
            w.fault_happened = true;
            return Act::Panic(s);
        }
        if site != Site::ValDrop {
            let tot = w.total;
            if let Some(p) = w.preempts.iter().find(|p| p.0 == tot) {
                return Act::Preempt(p.1);
            }
        }
        Act::None
    });
    match act {
        Act::None => {}
        Act::Panic(s) => std::panic::panic_any(Injected(s)),
        Act::Budget => std::panic::panic_any(OverBudget),
        Act::Preempt(t) => {
            if let Some(f) = PREEMPT.with(|p| p.get()) {
                f(t)
            }
        }
    }
}

// ---------------------------------------------------------------- value tokens
const LIVE_MAGIC: u32 = 0x5EED_1E55;
const DEAD_MAGIC: u32 = 0xDEAD_DEAD;

/// A uniquely identified value. Every drop is entered in the ledger.
#[repr(C)]
pub struct Val {
    magic: u32,
    pub id: u32,
    /// id of the node value this one was derived from (itself when original)
    pub root: u32,
    pub mark: u32,
}
impl Val {
    pub fn new() -> Val {
        with(|w| {
            let _h = Har::enter();
            let id = w.drops.len() as u32;
            w.drops.push(0);
            Val { magic: LIVE_MAGIC, id, root: id, mark: 0 }
        })
    }
    pub fn derived(root: u32, mark: u32) -> Val {
        let mut v = Val::new();
        v.root = root;
        v.mark = mark;
        v
    }
    /// Reads the token; complains when it is not a live one.
    pub fn rd(&self) -> Seen {
        let p = self as *const Val;
        let (magic, id, root, mark) = unsafe {
            (
                std::ptr::read_volatile(std::ptr::addr_of!((*p).magic)),
                std::ptr::read_volatile(std::ptr::addr_of!((*p).id)),
                std::ptr::read_volatile(std::ptr::addr_of!((*p).root)),
                std::ptr::read_volatile(std::ptr::addr_of!((*p).mark)),
            )
        };
        let ok = magic == LIVE_MAGIC
            && with(|w| (id as usize) < w.drops.len() && w.drops[id as usize] == 0);
        if !ok {
            let tag = with(|w| w.cur_tag);
            issue(
                &["C10", "C11", tag],
                "exposed-dead-value",
                format!("a value exposed by the library is not live (magic {magic:#x}, id {id})"),
            );
            return Seen { ok: false, id: u32::MAX, root: u32::MAX, mark: u32::MAX };
        }
        Seen { ok: true, id, root, mark }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Seen {
    pub ok: bool,
    pub id: u32,
    pub root: u32,
    pub mark: u32,
}
impl Drop for Val {
    fn drop(&mut self) {
        let p = self as *mut Val;
        let magic = unsafe { std::ptr::read_volatile(std::ptr::addr_of!((*p).magic)) };
        let id = self.id;
        let sp = approx_sp();
        let st = with(|w| {
            if w.stack_base > sp {
                w.stack_max = w.stack_max.max(w.stack_base - sp);
            }
            let t = w.cur_task as u64;
            mix(&mut w.hash, t << 40 | 0x77 << 32 | id as u64);
            if magic == DEAD_MAGIC {
                return 1;
            }
            if magic != LIVE_MAGIC || id as usize >= w.drops.len() {
                return 2;
            }
            w.drops[id as usize] = w.drops[id as usize].saturating_add(1);
            if w.drops[id as usize] > 1 {
                1
            } else {
                w.dropped += 1;
                0
            }
        });
        if st != 0 {
            let what = if st == 1 { "double-drop" } else { "drop-of-garbage" };
            issue(&["C10", "C11"], what, format!("{what}: value id {id}, magic {magic:#x}"));
        }
        unsafe { std::ptr::write_volatile(std::ptr::addr_of_mut!((*p).magic), DEAD_MAGIC) };
        if st == 0 {
            hook(Site::ValDrop, id);
        }
    }
}

/// Token carried by containers and iterators of the simulated node types.
pub struct Tok {
    id: u32,
    kind: &'static str,
}
impl Tok {
    pub fn new(kind: &'static str) -> Tok {
        with(|w| {
            let _h = Har::enter();
            let id = w.tok_drops.len() as u32;
            w.tok_drops.push(0);
            Tok { id, kind }
        })
    }
    pub fn live(&self) -> bool {
        with(|w| w.tok_drops.get(self.id as usize).copied() == Some(0))
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let n = with(|w| match w.tok_drops.get_mut(self.id as usize) {
            Some(d) => {
                *d = d.saturating_add(1);
                *d
            }
            None => 255,
        });
        if n > 1 {
            let (id, k) = (self.id, self.kind);
            let ctx = with(|w| w.cur_tag);
            let _ = ctx;
            let cfg = crate::exec::current_cfg();
            issue(&["C10", "C11"], format!("container-double-drop/{k}/{cfg}"), format!("child container token {id} ({k}) dropped {n} times in {cfg}"));
        }
    }
}

// ---------------------------------------------------------------- panic capture
thread_local! {
    static LAST_PANIC: UnsafeCell<String> = const { UnsafeCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _h = Har::enter();
        let s = if info.payload().is::<Injected>() {
            "injected".to_string()
        } else {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<opaque>".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line()))
                .unwrap_or_default();
            if std::env::var_os("SIM_PANICS").is_some() {
                eprintln!("panic: {m} @ {loc}");
            }
            format!("{m} @ {loc}")
        };
        LAST_PANIC.with(|p| unsafe { *p.get() = s });
    }));
}
pub fn take_panic_msg() -> String {
    LAST_PANIC.with(|p| unsafe { std::mem::take(&mut *p.get()) })
}
pub enum Caught<R> {
    Ok(R),
    Injected,
    Budget,
    Library(String),
}
/// Runs `f` as library code, catching whatever unwinds out of it.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Caught<R> {
    let sp = approx_sp();
    let prev = with(|w| std::mem::replace(&mut w.stack_base, sp));
    let prev_min = SPMIN.with(|c| c.replace(usize::MAX));
    let outer = INCALL.with(|c| c.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _l = Lib::enter();
        f()
    }));
    INCALL.with(|c| c.set(outer));
    let low = SPMIN.with(|c| c.replace(prev_min));
    with(|w| {
        w.stack_base = prev;
        if sp > low {
            w.stack_max = w.stack_max.max(sp - low);
        }
    });
    match r {
        Ok(v) => Caught::Ok(v),
        Err(p) => {
            let _h = Har::enter();
            if p.is::<Injected>() {
                Caught::Injected
            } else if p.is::<OverBudget>() {
                // reported by the caller; cleaning up afterwards is not part of what is bounded
                with(|w| w.budget = 10_000_000);
                Caught::Budget
            } else {
                drop(p);
                Caught::Library(take_panic_msg())
            }
        }
    }
}

// ---------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
pub fn h64(a: u64, b: u64) -> u64 {
    Rng::new(a.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ b).next()
}

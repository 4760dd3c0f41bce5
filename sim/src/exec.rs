//! The simulator: executes one plan deterministically and judges every step against the model.
use crate::drv::*;
use crate::make;
use crate::model::*;
use crate::nodes::*;
use crate::pipe;
use crate::plan::*;
use crate::world::*;
use std::cell::Cell;
use std::collections::{BTreeSet, HashMap};
use tree_iterators_rs::prelude::*;

pub enum Trees {
    T(*mut Vec<Tree<Val>>),
    B(*mut Vec<BinaryTree<Val>>),
    X(*mut Vec<XNode>),
    XB(*mut Vec<XBin>),
}
pub struct Slot {
    pub repr: Repr,
    pub trees: Trees,
    pub model: Model,
    pub readers: u32,
    pub writer: bool,
    pub taken: bool,
    pub addr: HashMap<u32, usize>,
    pub addr_valid: bool,
}
/// What bounds the memory a traversal may hold.
pub struct Hold {
    /// nodes to be remembered, without and with their ancestors
    pub pending: [u64; 2],
    /// values alive when it began
    pub vals: u64,
    /// place of each value in the order the tree is explored
    pub rank: HashMap<u32, u64>,
    pub all: u64,
}
pub struct TaskSt {
    pub spec: Task,
    pub started: bool,
    pub done: bool,
    pub drv: Option<B>,
    pub model: Model,
    pub exp: Vec<u32>,
    pub pos: usize,
    pub yielded: usize,
    /// `pos` when the step began
    pub hint_at: usize,
    pub mode: Mode,
    pub ended: bool,
    /// its source gives further trees when asked again after its end: not to be asked again
    pub revives: bool,
    pub moves: u8,
    pub poisoned: bool,
    pub failed: bool,
    pub edited: bool,
    pub real_edit: bool,
    pub view_edit: bool,
    /// values put into the exposed stack, by model node
    pub shown: HashMap<u32, u32>,
    /// child references taken out of contexts, with their model nodes
    pub kept: Vec<(u32, Box<dyn Kept>)>,
    pub held: Vec<Held>,
    pub obs: Obs,
    pub expanded: HashMap<u32, u32>,
    /// the keys of `expanded` in order of first appearance
    pub exp_log: Vec<u32>,
    pub pulls: u32,
    pub pulls0: u32,
    pub given: BTreeSet<usize>,
    pub pipe: Option<pipe::PipeSt>,
    pub hold: Option<Hold>,
    pub history: Vec<u8>,
}
pub struct Exec {
    pub slots: Vec<Slot>,
    pub tasks: Vec<TaskSt>,
    pub marks: Vec<u32>,
    pub next_mark: u32,
    pub paths: Vec<(usize, bool, Vec<usize>)>,
    pub deep: bool,
    pub kinds: BTreeSet<u64>,
    pub probes: Probes,
    pub judge_hold: bool,
}
#[derive(Default, Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Probes {
    pub steps: u64,
    pub yields: u64,
    pub ends: u64,
    pub past_end_steps: u64,
    pub forgotten: u64,
    pub leaves_mid: u64,
    pub leaves_start: u64,
    pub leaves_end: u64,
    pub ancleaves_mid: u64,
    pub attach_ok: u64,
    pub attach_refused: u64,
    pub cancels_mid: u64,
    pub edits_real: u64,
    pub edits_view: u64,
    pub writes: u64,
    pub held_writes: u64,
    pub lookups: u64,
    pub bad_lookups: u64,
    pub reentrant_steps: u64,
    pub poisoned_steps: u64,
    pub task_switches: u64,
    pub sources_cut: u64,
    pub pipe_outs: u64,
    pub pipe_closure_calls: u64,
    pub pipe_hand_prunes: u64,
    pub phys_checks: u64,
    pub serde_ok: u64,
    pub serde_err: u64,
    pub lazy_steps: u64,
    pub kinds: u64,
    pub deep_runs: u64,
    pub preorder_edits_of_added: u64,
    pub edits_deep: u64,
    pub edits_behind: u64,
    pub kept_uses: u64,
    pub exchanges: u64,
    pub nth_skips: u64,
    pub bulk_ends: u64,
    pub hold_checks: u64,
    pub hold_ratio: u64,
}
impl Probes {
    pub fn add(&mut self, o: &Probes) {
        macro_rules! a { ($($f:ident),*) => { $( self.$f += o.$f; )* } }
        a!(steps, yields, ends, past_end_steps, forgotten, leaves_mid, leaves_start, leaves_end, ancleaves_mid, attach_ok, attach_refused,
           cancels_mid, edits_real, edits_view, writes, held_writes, lookups, bad_lookups, reentrant_steps, poisoned_steps,
           task_switches, sources_cut, pipe_outs, pipe_closure_calls, pipe_hand_prunes, phys_checks, serde_ok, serde_err,
           lazy_steps, kinds, deep_runs, preorder_edits_of_added, edits_deep, edits_behind, kept_uses, exchanges, nth_skips, bulk_ends, hold_checks);
        self.hold_ratio = self.hold_ratio.max(o.hold_ratio);
    }
}
thread_local! {
    static EX: Cell<*mut Exec> = const { Cell::new(std::ptr::null_mut()) };
}
pub fn ex() -> *mut Exec {
    EX.with(|e| e.get())
}
/// Configuration of the task whose library call is running (for finding signatures).
pub fn current_cfg() -> String {
    let e = ex();
    if e.is_null() {
        return "-".into();
    }
    let _h = Har::enter();
    let t = with(|w| w.cur_task);
    unsafe {
        match (&(*e).tasks).get(t) {
            Some(t) => cfg_of(t, (&(*e).slots)[t.spec.tree].repr),
            None => "-".into(),
        }
    }
}
pub fn cfg_of(t: &TaskSt, repr: Repr) -> String {
    let k = match &t.spec.kind {
        TKind::Trav { order } => format!("{:?}", order),
        TKind::Pipe { .. } => "Pipe".into(),
    };
    let bin = if repr.bin() { "binary" } else { "nary" };
    let coll = if t.spec.src == Src::One { "" } else { "/each" };
    format!("{:?}/{}/{:?}/{}{}", t.spec.own, k, t.mode, bin, coll).to_lowercase()
}
fn tags_of(t: &TaskSt) -> Vec<&'static str> {
    let coll = t.spec.src != Src::One;
    let mut v = match t.mode {
        Mode::Plain => vec!["C01"],
        Mode::Anc => vec!["C02"],
        Mode::Ctx => vec!["C03"],
        Mode::Leaves => vec!["C04"],
        Mode::AncLeaves => vec!["C05"],
        Mode::Pipe => vec!["C08", "C09"],
    };
    if coll {
        v.push("C07");
    }
    if t.edited {
        v.push("C13");
    }
    if t.spec.own == Own::Mut {
        v.push("C12");
    }
    // what other traversals do after a caught panic or a refused conversion is promised too
    let (fault, refused) = with(|w| (w.fault_happened, w.refused));
    if fault {
        v.push("C11");
    }
    if refused {
        v.push("C06");
    }
    v
}
fn main_tag(t: &TaskSt) -> &'static str {
    tags_of(t)[0]
}

fn addr_map<N: HNode>(v: &[N]) -> HashMap<u32, usize> {
    let mut m = HashMap::new();
    let mut st: Vec<&N> = v.iter().collect();
    while let Some(n) = st.pop() {
        m.insert(n.val().id, n.val() as *const Val as usize);
        st.extend(n.kid_refs().into_iter().flatten());
    }
    m
}
impl TaskSt {
    /// The value the traversal holds for that node.
    fn shown_id(&self, n: u32) -> u32 {
        self.shown.get(&n).copied().unwrap_or(self.model.nodes[n as usize].id)
    }
}
impl Slot {
    pub fn addr_map(&self) -> HashMap<u32, usize> {
        unsafe {
            match self.trees {
                Trees::T(p) => addr_map(&*p),
                Trees::B(p) => addr_map(&*p),
                Trees::X(p) => addr_map(&*p),
                Trees::XB(p) => addr_map(&*p),
            }
        }
    }
}
/// Compares the physical trees with the model: shape, identity, marks.
fn phys<N: HNode>(v: &[N], m: &Model, marks: &[u32]) -> Result<(), String> {
    if v.len() != m.roots.len() {
        return Err(format!("forest has {} trees, expected {}", v.len(), m.roots.len()));
    }
    let mut st: Vec<(&N, u32)> = v.iter().zip(m.roots.iter().copied()).collect();
    while let Some((n, i)) = st.pop() {
        let s = n.val().rd();
        let want = m.nodes[i as usize].id;
        if !s.ok || s.id != want {
            return Err(format!("node at {:?} holds value {} instead of {}", m.path(i), s.id, want));
        }
        if s.mark != marks[want as usize] {
            return Err(format!("value {} carries mark {} instead of {}", s.id, s.mark, marks[want as usize]));
        }
        let k = n.kid_refs();
        let mk = &m.nodes[i as usize].kids;
        if k.len() != mk.len() || k.iter().zip(mk).any(|(a, b)| a.is_some() != b.is_some()) {
            return Err(format!("children of value {} changed shape", s.id));
        }
        for (a, b) in k.into_iter().zip(mk) {
            if let (Some(a), Some(b)) = (a, b) {
                st.push((a, *b));
            }
        }
    }
    Ok(())
}
pub fn check_slot(e: &mut Exec, s: usize, tags: &[&str], when: &str) {
    let _h = Har::enter();
    e.fill_marks();
    let sl = &e.slots[s];
    if sl.taken {
        return;
    }
    e.probes.phys_checks += 1;
    let r = unsafe {
        match sl.trees {
            Trees::T(p) => phys(&*p, &sl.model, &e.marks),
            Trees::B(p) => phys(&*p, &sl.model, &e.marks),
            Trees::X(p) => phys(&*p, &sl.model, &e.marks),
            Trees::XB(p) => phys(&*p, &sl.model, &e.marks),
        }
    };
    if let Err(m) = r {
        issue(tags, "tree-state", format!("{when}: {m}"));
    }
}

fn build_forest<N: HNode>(m: &mut Model, f: &Forest) -> *mut Vec<N> {
    let mut v: Vec<N> = {
        let _l = Lib::enter();
        Vec::with_capacity(m.roots.len())
    };
    for r in m.roots.clone() {
        v.push(build::<N>(m, r, f.hint, f.repr == Repr::D));
    }
    Box::into_raw(Box::new(v))
}
unsafe fn free_forest<N: HNode>(p: *mut Vec<N>) {
    let b = Box::from_raw(p);
    dismantle(*b);
}

impl Exec {
    pub fn fill_marks(&mut self) {
        let n = with(|w| w.drops.len());
        if self.marks.len() < n {
            self.marks.resize(n, 0);
        }
    }
    pub fn new(plan: &Plan) -> Exec {
        let _h = Har::enter();
        let mut slots = Vec::new();
        for f in &plan.forests {
            let mut m = Model::from_forest(f);
            let trees = match f.repr {
                Repr::T => Trees::T(build_forest(&mut m, f)),
                Repr::B => Trees::B(build_forest(&mut m, f)),
                Repr::X | Repr::D => Trees::X(build_forest(&mut m, f)),
                Repr::XB => Trees::XB(build_forest(&mut m, f)),
            };
            let mut s = Slot { repr: f.repr, trees, model: m, readers: 0, writer: false, taken: false, addr: HashMap::new(), addr_valid: true };
            s.addr = s.addr_map();
            slots.push(s);
        }
        let tasks = plan
            .tasks
            .iter()
            .map(|t| {
                let mut spec = t.clone();
                spec.tree %= slots.len().max(1);
                let bin = slots[spec.tree].repr.bin();
                if let TKind::Trav { order } = &mut spec.kind {
                    if *order == Order::In && !bin {
                        *order = Order::Post;
                    }
                }
                let mode = if matches!(spec.kind, TKind::Pipe { .. }) { Mode::Pipe } else { Mode::Plain };
                TaskSt {
                    spec,
                    started: false,
                    done: false,
                    drv: None,
                    model: Model::default(),
                    exp: vec![],
                    pos: 0,
                    yielded: 0,
                    hint_at: 0,
                    mode,
                    ended: false,
                    revives: false,
                    moves: 0,
                    poisoned: false,
                    failed: false,
                    edited: false,
                    real_edit: false,
                    view_edit: false,
                    shown: HashMap::new(),
                    kept: Vec::new(),
                    held: vec![],
                    obs: Obs::default(),
                    expanded: HashMap::new(),
                    exp_log: vec![],
                    pulls: 0,
                    pulls0: 0,
                    given: BTreeSet::new(),
                    pipe: None,
                    hold: None,
                    history: vec![],
                }
            })
            .collect();
        let mut e = Exec {
            slots,
            tasks,
            marks: vec![],
            next_mark: 1,
            paths: vec![],
            deep: plan.forests.iter().any(|f| f.deep.is_some()),
            kinds: BTreeSet::new(),
            probes: Probes::default(),
            judge_hold: plan.prop == "C20",
        };
        e.fill_marks();
        e
    }
}

struct Cur(usize, &'static str);
fn set_cur(t: usize, tag: &'static str) -> Cur {
    with(|w| {
        let p = Cur(w.cur_task, w.cur_tag);
        w.cur_task = t;
        w.cur_tag = tag;
        p
    })
}
fn reset_cur(c: Cur) {
    with(|w| {
        w.cur_task = c.0;
        w.cur_tag = c.1;
    });
}

/// Starts the task if its tree is available. Returns whether it runs.
unsafe fn start(e: *mut Exec, t: usize) -> bool {
    let ts = &mut (&mut (*e).tasks)[t];
    if ts.started {
        return !ts.done;
    }
    let sl = &mut (&mut (*e).slots)[ts.spec.tree];
    if sl.taken || sl.writer || (ts.spec.own != Own::Ref && sl.readers > 0) {
        return false;
    }
    ts.started = true;
    if sl.model.roots.is_empty() && ts.spec.src == Src::One {
        ts.done = true;
        return false;
    }
    ts.model = sl.model.clone();
    match ts.spec.own {
        Own::Owned => sl.taken = true,
        Own::Mut => sl.writer = true,
        Own::Ref => sl.readers += 1,
    }
    if let Src::Hook(k) = ts.spec.src {
        if k < sl.model.roots.len() {
            (*e).probes.sources_cut += 1;
            ts.revives = k % 4 < 2;
        }
    }
    let spec = ts.spec.clone();
    if (*e).judge_hold {
        let bfs = matches!(spec.kind, TKind::Trav { order: Order::Bfs });
        let ord = match &spec.kind {
            TKind::Trav { order: Order::Bfs } => Order::Bfs,
            _ => Order::Pre,
        };
        let o = ts.model.order(ord, spec.src);
        ts.hold = Some(Hold {
            pending: [ts.model.pending(spec.src, bfs, false), ts.model.pending(spec.src, bfs, true)],
            vals: live_vals(),
            all: o.len() as u64,
            rank: o.iter().enumerate().map(|(i, n)| (ts.model.nodes[*n as usize].id, i as u64 + 1)).collect(),
        });
    }
    let bin = sl.repr.bin();
    let marks = (*e).marks.clone();
    let c = set_cur(t, main_tag(ts));
    let r = match &spec.kind {
        TKind::Trav { order } => {
            ts.exp = ts.model.order(*order, spec.src);
            let o = *order;
            macro_rules! mk {
                ($m:ident, $p:expr) => {
                    match spec.own {
                        Own::Owned => {
                            let v = std::mem::take(&mut *$p);
                            guarded(move || make::$m::owned(v, o, spec.src))
                        }
                        Own::Mut => guarded(|| make::$m::muts(&mut *$p, o, spec.src)),
                        Own::Ref => guarded(|| make::$m::refs(&*$p, o, spec.src)),
                    }
                };
            }
            match sl.trees {
                Trees::T(p) => mk!(tree, p),
                Trees::B(p) => mk!(bintree, p),
                Trees::X(p) => mk!(xnode, p),
                Trees::XB(p) => mk!(xbin, p),
            }
        }
        TKind::Pipe { stages, term, conv } => {
            ts.pipe = Some(pipe::PipeSt::new(&ts.model, bin, &spec, stages, *term, &marks));
            macro_rules! mk {
                ($m:ident, $p:expr) => {
                    match spec.own {
                        Own::Owned => {
                            let v = std::mem::take(&mut *$p);
                            guarded(move || pipe::$m::owned(v, t, spec.src, stages, *term, *conv))
                        }
                        Own::Mut => guarded(|| pipe::$m::muts(&mut *$p, t, spec.src, stages, *term, *conv)),
                        Own::Ref => guarded(|| pipe::$m::refs(&*$p, t, spec.src, stages, *term, *conv)),
                    }
                };
            }
            match sl.trees {
                Trees::T(p) => mk!(tree, p),
                Trees::B(p) => mk!(bintree, p),
                Trees::X(p) => mk!(xnode, p),
                Trees::XB(p) => mk!(xbin, p),
            }
        }
    };
    reset_cur(c);
    match r {
        Caught::Ok(b) => {
            let ts = &mut (&mut (*e).tasks)[t];
            ts.drv = Some(b);
            drain_log(e, t);
            true
        }
        other => {
            broke(e, t, other, "while the iterator was created");
            finish(e, t);
            false
        }
    }
}

/// A library call unwound.
unsafe fn broke<R>(e: *mut Exec, t: usize, c: Caught<R>, what: &str) {
    let ts = &mut (&mut (*e).tasks)[t];
    match c {
        Caught::Ok(_) => {}
        Caught::Injected => {
            ts.poisoned = true;
            log(0xF00D);
        }
        Caught::Budget => {
            let tags = tags_of(ts);
            issue(&tags, "no-termination", format!("{what}: seam-crossing budget exhausted ({})", cfg_of(ts, (&(*e).slots)[ts.spec.tree].repr)));
            ts.poisoned = true;
            with(|w| w.budget = 5_000);
        }
        Caught::Library(m) => {
            if !ts.poisoned {
                let mut tags = tags_of(ts);
                tags.push("C11");
                let cfg = cfg_of(ts, (&(*e).slots)[ts.spec.tree].repr);
                issue(&tags, format!("panic/{cfg}"), format!("{what}: unexpected panic: {m} ({cfg}, step {})", ts.pos));
            }
            ts.poisoned = true;
            ts.failed = true;
        }
    }
}

/// Moves the seam log into the task and checks demand-drivenness.
unsafe fn drain_log(e: *mut Exec, t: usize) {
    let _h = Har::enter();
    let (ex_log, pulls) = with(|w| (std::mem::take(&mut w.expanded), std::mem::take(&mut w.src_pulls)));
    for (tt, id) in ex_log {
        if let Some(o) = (&mut (*e).tasks).get_mut(tt as usize) {
            let log = &mut o.exp_log;
            let c = o.expanded.entry(id).or_insert_with(|| {
                log.push(id);
                0
            });
            *c += 1;
            if *c > 1 && !o.poisoned {
                issue(&["C14"], "asked-twice", format!("the node holding value {id} was asked {} times for its value and children", *c));
            }
        }
    }
    for (tt, _) in pulls {
        if let Some(o) = (&mut (*e).tasks).get_mut(tt as usize) {
            o.pulls += 1;
        }
    }
    let ts = &mut (&mut (*e).tasks)[t];
    if ts.poisoned || ts.failed {
        return;
    }
    let repr = (&(*e).slots)[ts.spec.tree].repr;
    if !matches!(repr, Repr::X | Repr::D | Repr::XB) {
        return;
    }
    let lazy_order = matches!(ts.spec.kind, TKind::Trav { order: Order::Pre | Order::Bfs });
    if lazy_order && matches!(ts.mode, Mode::Plain | Mode::Anc | Mode::Ctx) && !ts.ended {
        let allowed = ts.pos.max(1).min(ts.exp.len());
        if ts.expanded.len() > allowed {
            let ok: BTreeSet<u32> = ts.exp[..allowed].iter().map(|n| ts.model.nodes[*n as usize].id).collect();
            if let Some(x) = ts.expanded.keys().filter(|k| !ok.contains(k)).min() {
                let mut tags = vec!["C14"];
                if ts.edited {
                    tags.push("C13");
                }
                let cfg = cfg_of(ts, repr);
                issue(&tags, "eager-expansion", format!("after {} yields the node holding value {x} had already been asked for its children ({cfg})", ts.pos));
                ts.failed = true;
            }
        }
    }
    if matches!(ts.spec.src, Src::Hook(_)) && !ts.ended && ts.mode != Mode::Pipe {
        let cur = if ts.pos == 0 { 0 } else { ts.model.root_index(ts.exp[ts.pos - 1]) as u32 + 1 };
        let cur = cur.max(ts.pulls0);
        if ts.pulls > cur && !(ts.pos == 0 && ts.pulls <= 1 && ts.exp.is_empty()) {
            issue(&["C14", "C07"], "eager-pull", format!("{} trees pulled from the source while only {} were reached", ts.pulls, cur));
            ts.failed = true;
        }
    }
}

pub unsafe fn step(e: *mut Exec, t: usize) {
    step_by(e, t, None)
}
/// One call of next() (or the streaming equivalent), or of nth(k).
unsafe fn step_by(e: *mut Exec, t: usize, nth: Option<usize>) {
    if !start(e, t) {
        return;
    }
    let _h = Har::enter();
    let ts = &mut (&mut (*e).tasks)[t];
    let streaming = matches!(ts.mode, Mode::Anc | Mode::Ctx | Mode::AncLeaves);
    if ts.failed || (ts.ended && (streaming || ts.mode == Mode::Pipe || ts.revives)) {
        return;
    }
    let mut drv = match ts.drv.take() {
        Some(d) => d,
        None => return,
    };
    ts.moves = ts.moves.wrapping_add(1);
    if ts.moves % 5 == 2 {
        drv = drv.moved();
    }
    let mut obs = std::mem::take(&mut ts.obs);
    obs.clear();
    (*e).probes.steps += 1;
    if ts.poisoned {
        (*e).probes.poisoned_steps += 1;
    }
    if ts.ended {
        (*e).probes.past_end_steps += 1;
    }
    let c = set_cur(t, main_tag(ts));
    let mut skipped = 0;
    let r = guarded(|| match nth {
        Some(k) if drv.nth(k, &mut obs) => skipped = k,
        _ => drv.step(&mut obs),
    });
    reset_cur(c);
    let ts = &mut (&mut (*e).tasks)[t];
    ts.drv = Some(drv);
    match r {
        Caught::Ok(()) => {
            let was_ended = ts.ended;
            ts.obs = obs;
            if skipped > 0 {
                (*e).probes.nth_skips += 1;
            }
            skip(ts, skipped);
            judge(e, t, was_ended);
            hold(e, t);
            drain_log(e, t);
        }
        other => {
            obs.taken = None;
            ts.obs = obs;
            ts.obs.some = false;
            broke(e, t, other, "while stepping");
            drain_log(e, t);
        }
    }
}

/// The memory and the values held between two steps are those of what is pending.
unsafe fn hold(e: *mut Exec, t: usize) {
    let ts = &mut (&mut (*e).tasks)[t];
    let h = match &ts.hold {
        Some(h) if !ts.failed && !ts.poisoned => h,
        _ => return,
    };
    let cfg = cfg_of(ts, (&(*e).slots)[ts.spec.tree].repr);
    (*e).probes.hold_checks += 1;
    let pending = h.pending[matches!(ts.mode, Mode::Anc | Mode::Ctx | Mode::AncLeaves) as usize];
    let bytes = held_bytes();
    let cap = HOLD_BASE + HOLD_PER * pending as i64;
    if bytes > cap {
        issue(&["C20"], format!("memory-held/{cfg}"), format!("{bytes} bytes are held after {} of {} elements; {} nodes can be pending at most ({cfg})", ts.pos, h.all, pending));
        ts.failed = true;
        return;
    }
    let (live, slack) = (live_vals(), 8 + 3 * pending);
    // how much of the forest was explored
    let seen = match (&ts.pipe, ts.mode) {
        _ if ts.ended => h.all,
        (Some(p), _) if p.got > 0 && p.got <= p.x_yield.len() => h.rank.get(&p.x_yield[p.got - 1].0).copied().unwrap_or(0),
        (None, Mode::Leaves | Mode::AncLeaves) if ts.pos > 0 && ts.pos <= ts.exp.len() => h.rank.get(&ts.model.nodes[ts.exp[ts.pos - 1] as usize].id).copied().unwrap_or(0),
        (None, Mode::Plain | Mode::Anc | Mode::Ctx) => ts.pos as u64,
        _ => 0,
    };
    let gone = if ts.spec.own == Own::Owned { seen } else { 0 };
    (*e).probes.hold_ratio = (*e).probes.hold_ratio.max(h.all / (pending + 1));
    if live + gone > h.vals + slack {
        issue(&["C20"], format!("values-held/{cfg}"), format!("{live} of {} values are still alive after {seen} of {} nodes were passed; {} can be pending at most ({cfg})", h.vals, h.all, pending));
        ts.failed = true;
    }
}
const HOLD_BASE: i64 = 8 << 10;
const HOLD_PER: i64 = 2048;

/// nth(k) passed over k elements before the one it gave.
fn skip(ts: &mut TaskSt, k: usize) {
    ts.hint_at = ts.pos;
    if let Some(p) = ts.pipe.as_mut() {
        p.hint_at = p.got;
    }
    if k == 0 || ts.poisoned {
        return;
    }
    match ts.pipe.as_mut() {
        Some(p) => {
            let total = if matches!(p.term, Term::Step | Term::StepPrune(_)) { p.x_yield.len() } else { p.x_out.len() };
            // an early end is judged as such: nothing may be missing
            if ts.obs.some || p.got.saturating_add(k) >= total {
                p.got = p.got.saturating_add(k).min(total);
            }
        }
        None => {
            if ts.obs.some || ts.pos.saturating_add(k) >= ts.exp.len() {
                let to = ts.pos.saturating_add(k).min(ts.exp.len());
                ts.yielded += to - ts.pos;
                ts.pos = to;
            }
        }
    }
}
unsafe fn bulk(e: *mut Exec, t: usize, how: u32) {
    if !start(e, t) {
        return;
    }
    let _h = Har::enter();
    let ts = &mut (&mut (*e).tasks)[t];
    let streaming = matches!(ts.mode, Mode::Anc | Mode::Ctx | Mode::AncLeaves);
    if ts.failed || (ts.ended && (streaming || ts.mode == Mode::Pipe || ts.revives)) || !ts.drv.as_ref().is_some_and(|d| d.can_bulk()) {
        return;
    }
    let drv = ts.drv.take().unwrap();
    (*e).probes.bulk_ends += 1;
    let c = set_cur(t, main_tag(ts));
    let r = guarded(move || drv.bulk(how));
    reset_cur(c);
    let ts = &mut (&mut (*e).tasks)[t];
    let cfg = cfg_of(ts, (&(*e).slots)[ts.spec.tree].repr);
    let tags = tags_of(ts);
    let mut left = ts.exp.len().saturating_sub(ts.pos);
    let mut total = 0;
    if let Some(p) = ts.pipe.as_mut() {
        p.bulk = true;
        total = p.total();
        left = total.saturating_sub(p.got);
    }
    ts.obs.clear();
    match r {
        Caught::Ok(Bulk::No) => {}
        Caught::Ok(Bulk::Items(v)) => {
            for o in v {
                let ts = &mut (&mut (*e).tasks)[t];
                let was = ts.ended;
                ts.obs = o;
                skip(ts, 0);
                if ts.failed {
                    if let Some(h) = ts.obs.taken.take() {
                        drop_held(h);
                    }
                    continue;
                }
                judge(e, t, was);
            }
            let ts = &mut (&mut (*e).tasks)[t];
            ts.obs.clear();
            if !ts.failed {
                skip(ts, 0);
                let was = ts.ended;
                judge(e, t, was);
            }
        }
        Caught::Ok(Bulk::Count(n)) => {
            if !ts.poisoned && n != left {
                issue(&tags, format!("wrong-count/{cfg}"), format!("count() gave {n} with {left} elements left ({cfg})"));
                ts.failed = true;
            }
            ts.pos = ts.exp.len();
            if let Some(p) = ts.pipe.as_mut() {
                // the closures' history is judged with the end
                p.got = total;
                if !ts.failed {
                    skip(ts, 0);
                    judge(e, t, false);
                }
            } else {
                ts.ended = true;
            }
        }
        Caught::Ok(Bulk::Last(o)) => {
            if let Some(o) = o {
                ts.obs = *o;
                if let Some(p) = ts.pipe.as_mut() {
                    p.got = total - (left > 0) as usize;
                } else if left > 0 {
                    ts.pos = ts.exp.len() - 1;
                }
                skip(ts, 0);
                let was = ts.ended;
                judge(e, t, was);
                let ts = &mut (&mut (*e).tasks)[t];
                ts.obs.clear();
                if ts.pipe.is_some() && !ts.failed {
                    skip(ts, 0);
                    judge(e, t, false);
                }
            } else if left > 0 && !ts.poisoned {
                issue(&tags, format!("ended-early/{cfg}"), format!("last() gave nothing with {left} elements left ({cfg})"));
                ts.failed = true;
            }
            (&mut (*e).tasks)[t].ended = true;
        }
        other => broke(e, t, other, "while consuming the iterator"),
    }
    drain_log(e, t);
    finish(e, t);
}

unsafe fn judge(e: *mut Exec, t: usize, was_ended: bool) {
    (*e).fill_marks();
    let repr = (&(*e).slots)[(&(*e).tasks)[t].spec.tree].repr;
    let ts = &mut (&mut (*e).tasks)[t];
    let taken = ts.obs.taken.take();
    let cfg = cfg_of(ts, repr);
    let tags = tags_of(ts);
    // log what was seen
    log(ts.obs.some as u64 + 2 * t as u64);
    for s in &ts.obs.anc {
        log(s.id as u64);
    }
    if let Some(p) = &ts.obs.path {
        for s in p {
            log(*s as u64);
        }
    }
    if let Some(n) = ts.obs.note.take() {
        issue(&tags, format!("note/{cfg}"), format!("{n} ({cfg})"));
    }
    if ts.poisoned {
        // after a caught callback panic only liveness and no-duplicates are promised
        if let Some(h) = taken {
            let a = h.v().rd().id as usize;
            if ts.obs.some && !ts.given.insert(a) {
                issue(&["C11"], format!("duplicate-after-panic/{cfg}"), format!("value {a} was yielded twice after a callback panic ({cfg})"));
            }
            drop_held(h);
        }
        return;
    }
    if ts.mode == Mode::Pipe {
        if let Some(h) = taken {
            drop_held(h);
        }
        pipe::judge(e, t);
        return;
    }
    {
        let left = ts.exp.len().saturating_sub(ts.hint_at);
        let h = ts.obs.hint;
        if h.0 > left || h.1.is_some_and(|u| u < left) {
            issue(&tags, format!("size-hint/{cfg}"), format!("size_hint() said {h:?} with {left} elements left ({cfg})"));
            ts.failed = true;
        }
    }
    if !ts.obs.some {
        ts.ended = true;
        (*e).probes.ends += 1;
        if ts.pos < ts.exp.len() {
            let n = ts.exp[ts.pos];
            issue(&tags, format!("ended-early/{cfg}"), format!("exhausted after {} of {} elements; next should be value {} ({cfg})", ts.pos, ts.exp.len(), ts.model.nodes[n as usize].id));
            ts.failed = true;
        }
        return;
    }
    (*e).probes.yields += 1;
    ts.yielded += 1;
    let cur = *ts.obs.anc.last().unwrap();
    if was_ended || ts.pos >= ts.exp.len() {
        issue(&tags, format!("extra-element/{cfg}"), format!("value {} yielded after the last of {} elements ({cfg})", cur.id, ts.exp.len()));
        ts.failed = true;
    } else {
        let n = ts.exp[ts.pos];
        let want = ts.shown_id(n);
        if !cur.ok || cur.id != want {
            issue(&tags, format!("wrong-element/{cfg}"), format!("element {} is value {} instead of {} ({cfg})", ts.pos, cur.id, want));
            ts.failed = true;
        } else {
            let marks = &(*e).marks;
            if cur.mark != marks[want as usize] {
                let mut tg = tags.clone();
                if ts.spec.own == Own::Mut {
                    tg.push("C12");
                }
                issue(&tg, format!("stale-value/{cfg}"), format!("value {} shows mark {} instead of {} ({cfg})", want, cur.mark, marks[want as usize]));
                ts.failed = true;
            }
            if !matches!(ts.mode, Mode::Plain | Mode::Leaves) {
                let anc = ts.model.ancestors(n);
                let ids: Vec<u32> = anc.iter().map(|a| ts.shown_id(*a)).collect();
                let seen: Vec<u32> = ts.obs.anc.iter().map(|s| s.id).collect();
                if ids != seen {
                    issue(&tags, format!("wrong-ancestors/{cfg}"), format!("ancestors of value {want} are {seen:?} instead of {ids:?} ({cfg})"));
                    ts.failed = true;
                } else if let Some(s) = ts.obs.anc.iter().find(|s| s.ok && s.mark != marks[s.id as usize]) {
                    let mut tg = tags.clone();
                    if ts.spec.own == Own::Mut {
                        tg.push("C12");
                    }
                    issue(&tg, format!("stale-ancestor/{cfg}"), format!("ancestor value {} shows mark {} instead of {} ({cfg})", s.id, s.mark, marks[s.id as usize]));
                    ts.failed = true;
                }
            }
            let sl = &(&(*e).slots)[ts.spec.tree];
            if ts.spec.own != Own::Owned && sl.addr_valid && !ts.real_edit && !ts.failed {
                for (s, a) in ts.obs.anc.iter().zip(&ts.obs.addr) {
                    if s.ok && sl.addr.get(&s.id).copied() != Some(*a) {
                        let mut tg = tags.clone();
                        tg.push("C12");
                        issue(&tg, format!("wrong-address/{cfg}"), format!("the reference given for value {} does not point at its node ({cfg})", s.id));
                        ts.failed = true;
                        break;
                    }
                }
            }
            if let Some(p) = ts.obs.path.take() {
                let mut want_p = ts.model.path(n);
                let coll = ts.spec.src != Src::One;
                if coll {
                    want_p.insert(0, ts.model.root_index(n));
                }
                if p != want_p {
                    let mut tg = tags.clone();
                    tg.push("C16");
                    issue(&tg, format!("wrong-path/{cfg}"), format!("path of value {want} is {p:?} instead of {want_p:?} ({cfg})"));
                    ts.failed = true;
                } else if !ts.view_edit {
                    let k = &mut (*e).paths;
                    if k.len() < 64 {
                        k.push((ts.spec.tree, coll, p));
                    } else {
                        let h = h64(ts.pos as u64, want as u64);
                        if h % 8 == 0 {
                            k[(h >> 8) as usize % 64] = (ts.spec.tree, coll, p);
                        }
                    }
                }
                let d = ts.model.ancestors(n).len() - 1;
                if ts.obs.depth != d {
                    issue(&tags, format!("wrong-depth/{cfg}"), format!("depth of value {want} is {} instead of {d} ({cfg})", ts.obs.depth));
                    ts.failed = true;
                }
            }
            if ts.spec.own == Own::Mut && !ts.shown.is_empty() && ts.obs.kids.is_some() && !ts.failed {
                // both the stack and the children are exclusive references
                let kids: Vec<u32> = ts.model.kids(n).collect();
                let below: BTreeSet<u32> = kids.iter().flat_map(|k| ts.model.order_of(*k, Order::Pre)).map(|x| ts.model.nodes[x as usize].id).collect();
                if let Some(s) = ts.obs.anc.iter().find(|s| below.contains(&s.id)) {
                    issue(&["C12"], format!("aliased-context/{cfg}"), format!("the context of value {want} exposes the value {} in its stack and the node that holds it below its children, both by mutable reference ({cfg})", s.id));
                    ts.failed = true;
                }
            }
            if let Some(k) = &ts.obs.kids {
                let got: Vec<Option<u32>> = k.iter().map(|k| k.map(|s| s.id)).collect();
                let wk: Vec<Option<u32>> = ts.model.nodes[n as usize].kids.iter().map(|k| k.map(|k| ts.model.nodes[k as usize].id)).collect();
                if got != wk {
                    issue(&tags, format!("wrong-children/{cfg}"), format!("children of value {want} are {got:?} instead of {wk:?} ({cfg})"));
                    ts.failed = true;
                }
            }
        }
        ts.pos += 1;
    }
    if let Some(h) = taken {
        // identity of what was handed out, for the post-fault duplicate check
        ts.given.insert(cur.id as usize);
        if ts.spec.hold {
            ts.held.push(h);
        } else {
            drop_held(h);
        }
    }
}
fn drop_held(h: Held) {
    // the caller's own drop: not a library call
    let armed = with(|w| std::mem::replace(&mut w.faults_armed, false));
    drop(h);
    with(|w| w.faults_armed = armed);
}

unsafe fn convert(e: *mut Exec, t: usize, c: Conv) {
    if !start(e, t) {
        return;
    }
    let _h = Har::enter();
    let ts = &mut (&mut (*e).tasks)[t];
    if ts.failed || (ts.ended && ts.revives) || !ts.drv.as_ref().is_some_and(|d| d.can(c)) {
        return;
    }
    let drv = ts.drv.take().unwrap();
    let from = ts.mode;
    let to = match (c, from) {
        (Conv::Leaves, Mode::Anc) => Mode::AncLeaves,
        (Conv::Leaves, _) => Mode::Leaves,
        (Conv::Ctx, _) => Mode::Ctx,
        (Conv::Anc, _) => Mode::Anc,
    };
    let n0 = ts.pos;
    ts.pulls0 = ts.pulls;
    let end = ts.ended;
    let expect_panic = c != Conv::Leaves && ts.yielded > 0;
    let cfg0 = cfg_of(ts, (&(*e).slots)[ts.spec.tree].repr);
    ts.mode = to;
    let cur = set_cur(t, main_tag(ts));
    let r = guarded(|| drv.conv(c));
    reset_cur(cur);
    let ts = &mut (&mut (*e).tasks)[t];
    let pr = &mut (*e).probes;
    match r {
        Caught::Ok(d) => {
            ts.drv = Some(d);
            if expect_panic && !ts.poisoned {
                issue(&["C06"], format!("late-attach-accepted/{cfg0}"), format!("{c:?} accepted after {} elements had been yielded ({cfg0})", ts.yielded));
                ts.failed = true;
            }
            ts.ended = false;
            if c == Conv::Leaves {
                if n0 == 0 {
                    pr.leaves_start += 1
                } else if end || n0 >= ts.exp.len() {
                    pr.leaves_end += 1
                } else if from == Mode::Anc {
                    pr.ancleaves_mid += 1
                } else {
                    pr.leaves_mid += 1
                }
                let rest: Vec<u32> = ts.exp[ts.pos.min(ts.exp.len())..].iter().copied().filter(|n| ts.model.leaf(*n)).collect();
                ts.exp = rest;
                ts.pos = 0;
            } else {
                pr.attach_ok += 1;
            }
            ts.obs.clear();
            drain_log(e, t);
        }
        Caught::Library(m) => {
            if expect_panic {
                pr.attach_refused += 1;
                with(|w| w.refused = true);
                ts.failed = true;
            } else {
                if !ts.poisoned {
                    let mut tags = vec!["C06"];
                    if c == Conv::Leaves {
                        tags = vec![if to == Mode::Leaves { "C04" } else { "C05" }];
                    }
                    issue(&tags, format!("attach-panicked/{cfg0}"), format!("{c:?} panicked although nothing had been yielded or leaves() was called: {m} ({cfg0})"));
                }
                ts.failed = true;
            }
            finish(e, t);
        }
        other => {
            broke(e, t, other, "while converting");
            finish(e, t);
        }
    }
}

unsafe fn write(e: *mut Exec, t: usize, sel: u32) {
    let _h = Har::enter();
    let ts = &mut (&mut (*e).tasks)[t];
    if ts.failed || ts.poisoned || ts.done || ts.spec.own == Own::Ref || ts.drv.is_none() {
        return;
    }
    let mark = (*e).next_mark;
    (*e).next_mark += 1;
    if matches!(ts.mode, Mode::Plain | Mode::Leaves) {
        if ts.held.is_empty() {
            return;
        }
        let i = sel as usize % ts.held.len();
        let s = ts.held[i].v().rd();
        if s.ok {
            match &mut ts.held[i] {
                Held::Mut(v) => v.mark = mark,
                Held::Own(v) => v.mark = mark,
                Held::Ref(_) => return,
            }
            (&mut (*e).marks)[s.id as usize] = mark;
            (*e).probes.held_writes += 1;
        }
        return;
    }
    if !ts.obs.some || ts.obs.anc.is_empty() {
        return;
    }
    let i = sel as usize % ts.obs.anc.len();
    let id = ts.obs.anc[i].id;
    let mut drv = ts.drv.take().unwrap();
    let cur = set_cur(t, main_tag(ts));
    let r = guarded(|| drv.write(i, mark));
    reset_cur(cur);
    let ts = &mut (&mut (*e).tasks)[t];
    ts.drv = Some(drv);
    match r {
        Caught::Ok(true) => {
            (&mut (*e).marks)[id as usize] = mark;
            (*e).probes.writes += 1;
        }
        Caught::Ok(false) => {
            if ts.mode != Mode::Pipe {
                let tags = tags_of(ts);
                issue(&tags, "get-mut-missing", format!("get_mut() exposes nothing although get() does ({})", cfg_of(ts, (&(*e).slots)[ts.spec.tree].repr)));
            }
        }
        other => broke(e, t, other, "while writing through the stack"),
    }
}

/// Replaces a value in the exposed stack by a fresh one (by value), or exchanges two of the
/// exposed references. What is put there is what later stacks show for that node.
unsafe fn exchange(e: *mut Exec, t: usize, sel: u32) {
    let _h = Har::enter();
    let ts = &mut (&mut (*e).tasks)[t];
    if ts.failed || ts.poisoned || ts.done || ts.spec.own == Own::Ref || ts.drv.is_none() {
        return;
    }
    if !matches!(ts.mode, Mode::Anc | Mode::Ctx | Mode::AncLeaves) || !ts.obs.some || ts.pos == 0 {
        return;
    }
    let n = ts.obs.anc.len();
    let (i, j) = (sel as usize % n, sel as usize / n % n);
    let by_value = ts.spec.own == Own::Owned;
    if !by_value && i == j {
        return;
    }
    let line = ts.model.ancestors(ts.exp[ts.pos - 1]);
    let mut fresh = by_value.then(Val::new);
    let id = fresh.as_ref().map(|v| v.id);
    (*e).fill_marks();
    let mut drv = ts.drv.take().unwrap();
    let cur = set_cur(t, main_tag(ts));
    let r = guarded(|| drv.exchange(i, j, &mut fresh));
    reset_cur(cur);
    let ts = &mut (&mut (*e).tasks)[t];
    ts.drv = Some(drv);
    let cfg = cfg_of(ts, (&(*e).slots)[ts.spec.tree].repr);
    match r {
        Caught::Ok(true) => {
            (*e).probes.exchanges += 1;
            let mut tags = tags_of(ts);
            tags.push("C10");
            if let (Some(out), Some(id)) = (fresh, id) {
                let s = out.rd();
                if !s.ok || s.id != ts.obs.anc[i].id {
                    issue(&tags, format!("wrong-value-out/{cfg}"), format!("taking value {} out of the stack gave {} ({cfg})", ts.obs.anc[i].id, s.id));
                    ts.failed = true;
                }
                drop_held(Held::Own(out));
                ts.obs.anc[i].id = id;
                ts.shown.insert(line[i], id);
            } else {
                let (a, b) = (ts.obs.anc[i].id, ts.obs.anc[j].id);
                ts.shown.insert(line[i], b);
                ts.shown.insert(line[j], a);
                ts.obs.anc.swap(i, j);
                ts.obs.addr.swap(i, j);
            }
        }
        Caught::Ok(false) => {
            let tags = tags_of(ts);
            issue(&tags, "get-mut-missing", format!("get_mut() exposes nothing although get() does ({cfg})"));
        }
        other => broke(e, t, other, "while exchanging values of the stack"),
    }
}

/// The caller uses a child reference it took out of a context earlier.
unsafe fn use_kept(e: *mut Exec, t: usize, rng: &mut Rng) {
    let ts = &mut (&mut (*e).tasks)[t];
    let i = rng.below(ts.kept.len() as u64) as usize;
    let ruin = rng.chance(60);
    let (node, k) = &mut ts.kept[i];
    let sl = &mut (&mut (*e).slots)[ts.spec.tree];
    let id = sl.model.nodes[*node as usize].id;
    let mark = (*e).next_mark;
    (*e).next_mark += 1;
    let c = set_cur(t, "C13");
    if k.wr(mark) {
        (&mut (*e).marks)[id as usize] = mark;
        if ruin {
            k.ruin();
            for x in sl.model.nodes[*node as usize].kids.iter_mut() {
                *x = None;
            }
            if !sl.model.bin {
                sl.model.nodes[*node as usize].kids.clear();
            }
        }
        (*e).probes.kept_uses += 1;
    }
    reset_cur(c);
}

/// Changes the children exposed by the current context, or those of a node below them.
unsafe fn edit(e: *mut Exec, t: usize, seed: u32) {
    let _h = Har::enter();
    let ts = &mut (&mut (*e).tasks)[t];
    if ts.failed || ts.poisoned || ts.done || ts.drv.is_none() {
        return;
    }
    let order = match ts.spec.kind {
        TKind::Trav { order } => order,
        _ => return,
    };
    let mut rng = Rng::new(seed as u64);
    if !ts.kept.is_empty() && rng.chance(40) {
        return use_kept(e, t, &mut rng);
    }
    let ok = ts.mode == Mode::Ctx
        && (ts.spec.own == Own::Mut || ts.spec.own == Own::Owned && matches!(order, Order::Pre | Order::Bfs))
        && ts.obs.some
        && ts.pos > 0
        && ts.model.nodes.len() < 2500;
    if !ok {
        return;
    }
    let n = ts.exp[ts.pos - 1];
    let bin = ts.model.bin;
    // children held by reference can be changed in the view only, or in the tree only
    let refs = bin && ts.spec.own == Own::Mut;
    let (real_ok, view_ok) = (!ts.view_edit, refs && !ts.real_edit);
    let mut d = n;
    let mut path: Vec<usize> = Vec::new();
    if real_ok && rng.chance(40) {
        loop {
            let k = &ts.model.nodes[d as usize].kids;
            let have: Vec<usize> = (0..k.len()).filter(|i| k[*i].is_some()).collect();
            if have.is_empty() {
                break;
            }
            let i = *rng.pick(&have);
            path.push(i);
            d = k[i].unwrap();
            if rng.chance(50) {
                break;
            }
        }
    }
    let fresh = |m: &mut Model, rng: &mut Rng| -> u32 {
        let r = m.push(d);
        let mut all = vec![r];
        for _ in 0..rng.below(4) {
            let p = *rng.pick(&all);
            let c = m.push(p);
            if m.bin {
                let s = rng.below(2) as usize;
                let k = &mut m.nodes[p as usize].kids;
                if k[s].is_none() {
                    k[s] = Some(c)
                } else if k[1 - s].is_none() {
                    k[1 - s] = Some(c)
                } else {
                    m.nodes.pop();
                    continue;
                }
            } else {
                m.nodes[p as usize].kids.push(Some(c));
            }
            all.push(c);
        }
        r
    };
    let nk = ts.model.nodes[d as usize].kids.len();
    let action = if bin {
        let pos = rng.below(2) as usize;
        let has = ts.model.nodes[d as usize].kids[pos].is_some();
        match rng.below(6) {
            0 | 1 if !has => Action::Insert { pos, sub: fresh(&mut ts.model, &mut rng) },
            0 => Action::Replace { pos, sub: fresh(&mut ts.model, &mut rng) },
            1 | 2 => Action::Remove { pos },
            3 | 4 => Action::Swap { a: 0, b: 1 },
            _ => Action::Clear,
        }
    } else {
        match rng.below(7) {
            0 | 1 | 2 => {
                let pos = rng.below(nk as u64 + 1) as usize;
                Action::Insert { pos, sub: fresh(&mut ts.model, &mut rng) }
            }
            3 if nk > 0 => Action::Remove { pos: rng.below(nk as u64) as usize },
            4 if nk > 1 => Action::Swap { a: rng.below(nk as u64) as usize, b: rng.below(nk as u64) as usize },
            5 if nk > 0 => {
                let pos = rng.below(nk as u64) as usize;
                Action::Replace { pos, sub: fresh(&mut ts.model, &mut rng) }
            }
            6 if nk > 0 => Action::Clear,
            _ => Action::Insert { pos: nk, sub: fresh(&mut ts.model, &mut rng) },
        }
    };
    if refs && path.is_empty() {
        let in_tree = matches!(action, Action::Replace { .. });
        if if in_tree { !real_ok } else { !view_ok } {
            return;
        }
        // an in-order traversal is past the left child: what is put there again would be seen twice
        if order == Order::In && matches!(action, Action::Swap { .. }) && ts.model.nodes[n as usize].kids[0].is_some() {
            return;
        }
    }
    let right = |m: &Model| m.nodes[n as usize].kids.get(1).copied().flatten().map_or(Vec::new(), |r| m.order_of(r, Order::In));
    let ahead = if order == Order::In { right(&ts.model).len() } else { 0 };
    let mut drv = ts.drv.take().unwrap();
    let mut model = std::mem::take(&mut ts.model);
    KEPT.with(|k| k.borrow_mut().clear());
    let cur = set_cur(t, "C13");
    let r = guarded(|| drv.edit(&path, &action, &mut model));
    reset_cur(cur);
    (*e).fill_marks();
    let ts = &mut (&mut (*e).tasks)[t];
    ts.drv = Some(drv);
    ts.model = model;
    match r {
        Caught::Ok(EditRes::No) => {}
        Caught::Ok(res) => {
            for (id, k) in KEPT.with(|k| std::mem::take(&mut *k.borrow_mut())) {
                let m = &(&(*e).slots)[ts.spec.tree].model;
                if let Some(i) = m.nodes.iter().position(|n| n.id == id) {
                    let i = i as u32;
                    let line = m.ancestors(i);
                    if let Some((o, _)) = ts.kept.iter().find(|(o, _)| line.contains(o) || m.ancestors(*o).contains(&i)) {
                        let other = m.nodes[*o as usize].id;
                        let cfg = cfg_of(ts, (&(*e).slots)[ts.spec.tree].repr);
                        issue(&["C12"], format!("aliased-children/{cfg}"), format!("contexts gave out mutable references to the nodes of values {other} and {id}, one of which is below the other ({cfg})"));
                        ts.failed = true;
                    }
                    ts.kept.push((i, k));
                }
            }
            let k = &mut ts.model.nodes[d as usize].kids;
            match action {
                Action::Insert { pos, sub } if bin => k[pos] = Some(sub),
                Action::Insert { pos, sub } => k.insert(pos, Some(sub)),
                Action::Replace { pos, sub } => k[pos] = Some(sub),
                Action::Remove { pos } if bin => k[pos] = None,
                Action::Remove { pos } => {
                    k.remove(pos);
                }
                Action::Swap { a, b } => k.swap(a, b),
                Action::Clear if bin => {
                    k[0] = None;
                    k[1] = None
                }
                Action::Clear => k.clear(),
            }
            if ts.edited && ts.model.nodes[n as usize].id as usize >= (&(*e).slots)[ts.spec.tree].model.nodes.len() {
                (*e).probes.preorder_edits_of_added += 1;
            }
            (*e).probes.edits_deep += !path.is_empty() as u64;
            (*e).probes.edits_behind += matches!(order, Order::In | Order::Post) as u64;
            ts.edited = true;
            if res == EditRes::Real {
                ts.real_edit = true;
                (*e).probes.edits_real += 1;
            } else {
                ts.view_edit = true;
                (*e).probes.edits_view += 1;
            }
            match order {
                Order::Pre | Order::Bfs => {
                    let old = std::mem::take(&mut ts.exp);
                    ts.exp = ts.model.order(order, ts.spec.src);
                    debug_assert_eq!(old[..ts.pos], ts.exp[..ts.pos]);
                }
                // everything below the current node has been passed
                Order::Post => {}
                // only the right child is still ahead
                Order::In => {
                    let mut now = right(&ts.model);
                    now.extend_from_slice(&ts.exp[ts.pos + ahead..]);
                    ts.exp.truncate(ts.pos);
                    ts.exp.append(&mut now);
                }
            }
        }
        other => broke(e, t, other, "while editing children"),
    }
}

/// Drops the task's iterator (if any), then its held values, and releases the tree.
pub unsafe fn finish(e: *mut Exec, t: usize) {
    cancel(e, t, false)
}
unsafe fn cancel(e: *mut Exec, t: usize, forget: bool) {
    let _h = Har::enter();
    let ts = &mut (&mut (*e).tasks)[t];
    if !ts.started || ts.done {
        return;
    }
    ts.done = true;
    if let Some(d) = ts.drv.take() {
        if ts.pos < ts.exp.len() && ts.yielded > 0 {
            (*e).probes.cancels_mid += 1;
        }
        let c = set_cur(t, main_tag(ts));
        let r = if forget {
            with(|w| w.forgot = true);
            std::mem::forget(d);
            (*e).probes.forgotten += 1;
            Caught::Ok(())
        } else {
            guarded(move || drop(d))
        };
        reset_cur(c);
        if !matches!(r, Caught::Ok(())) {
            broke(e, t, r, "while dropping the iterator");
        }
    }
    let ts = &mut (&mut (*e).tasks)[t];
    let held = std::mem::take(&mut ts.held);
    let (own, tree) = (ts.spec.own, ts.spec.tree);
    if own == Own::Mut {
        let mut seen = BTreeSet::new();
        for h in held {
            if let Held::Mut(v) = h {
                let s = v.rd();
                if !s.ok {
                    continue;
                }
                if !seen.insert(v as *const Val as usize) {
                    issue(&["C12"], "aliased-references", format!("two references to value {} were handed out", s.id));
                }
                if s.mark != (&(*e).marks)[s.id as usize] {
                    issue(&["C12"], "lost-write", format!("value {} shows mark {} instead of {}", s.id, s.mark, (&(*e).marks)[s.id as usize]));
                }
                let m = (*e).next_mark;
                (*e).next_mark += 1;
                v.mark = m;
                (&mut (*e).marks)[s.id as usize] = m;
            }
        }
    } else {
        for h in held {
            drop_held(h);
        }
    }
    let ts = &mut (&mut (*e).tasks)[t];
    ts.pipe = ts.pipe.take().map(|p| p.closed());
    let sl = &mut (&mut (*e).slots)[tree];
    match own {
        Own::Owned => {}
        Own::Mut => {
            sl.writer = false;
            if ts.real_edit {
                sl.model = ts.model.clone();
                sl.addr_valid = false;
            }
        }
        Own::Ref => sl.readers -= 1,
    }
    if own != Own::Owned && !(*e).deep {
        let fault = ts.poisoned || with(|w| w.fault_happened);
        let edited = ts.edited;
        let failed = ts.failed;
        if !(edited && failed) {
            let mut tags = vec!["C12", "C10"];
            if fault {
                tags = vec!["C11"];
            }
            if with(|w| w.refused) {
                tags.push("C06");
            }
            if edited {
                tags.push("C13");
            }
            if ts.mode == Mode::Pipe {
                tags.push("C08");
            }
            check_slot(&mut *e, tree, &tags, "tree after a traversal");
        }
    }
}

macro_rules! lookup_in {
    ($p:expr, $coll:expr, $path:expr, $how:expr, $Own:ident, $Mut:ident, $Ref:ident, $One:ident, $OneM:ident, $OneR:ident, $mark:expr) => {{
        let p = $p;
        let path: &[usize] = $path;
        match ($how, $coll) {
            (Own::Ref, false) => guarded(|| $OneR::at_path_ref(&(&*p)[0], path).map(|n| n.val().rd())),
            (Own::Ref, true) => guarded(|| {
                match $mark % 3 {
                    0 => $Ref::at_path_ref(&*p, path),
                    1 => $Ref::at_path_ref((&*p).iter(), path),
                    _ => $Ref::at_path_ref(HookSrc { it: (&*p).iter(), left: usize::MAX }, path),
                }
                .map(|n| n.val().rd())
            }),
            (Own::Mut, false) => guarded(|| {
                $OneM::at_path_mut(&mut (&mut *p)[0], path).map(|n| {
                    let s = n.val().rd();
                    set_mark(n, $mark);
                    s
                })
            }),
            (Own::Mut, true) => guarded(|| {
                match $mark % 4 {
                    0 => $Mut::at_path_mut(&mut *p, path),
                    1 => $Mut::at_path_mut((&mut *p).iter_mut(), path),
                    2 if (&*p).len() == 2 => $Mut::at_path_mut(<&mut [_; 2]>::try_from(&mut (&mut *p)[..]).unwrap(), path),
                    2 => $Mut::at_path_mut(&mut *p, path),
                    _ => $Mut::at_path_mut(HookSrc { it: (&mut *p).iter_mut(), left: usize::MAX }, path),
                }
                .map(|n| {
                    let s = n.val().rd();
                    set_mark(n, $mark);
                    s
                })
            }),
            (Own::Owned, false) => {
                let mut v = std::mem::take(&mut *p);
                guarded(move || {
                    let n = v.swap_remove(0);
                    let r = $One::at_path(n, path).map(|n| {
                        let s = n.val().rd();
                        dismantle(vec![n]);
                        s
                    });
                    drop(v);
                    r
                })
            }
            (Own::Owned, true) => {
                let v = std::mem::take(&mut *p);
                guarded(move || {
                    let r = match $mark % 3 {
                        0 => $Own::at_path(v, path),
                        1 if v.len() == 2 => match <[_; 2]>::try_from(v) {
                            Ok(a) => $Own::at_path(a, path),
                            Err(_) => unreachable!(),
                        },
                        _ => $Own::at_path(HookSrc { it: v.into_iter(), left: usize::MAX }, path),
                    };
                    r.map(|n| {
                        let s = n.val().rd();
                        dismantle(vec![n]);
                        s
                    })
                })
            }
        }
    }};
}
fn set_mark<N: HNode>(n: &mut N, mark: u32) {
    n.val_mut().mark = mark;
}

unsafe fn lookup(e: *mut Exec, t: usize, sel: u32, bad: bool) {
    let _h = Har::enter();
    let si = (&(*e).tasks)[t].spec.tree;
    let sl = &mut (&mut (*e).slots)[si];
    if sl.taken || sl.writer {
        return;
    }
    let mut rng = Rng::new(sel as u64);
    let how = if sl.readers > 0 {
        Own::Ref
    } else {
        match rng.below(12) {
            0 => Own::Owned,
            1..=5 => Own::Mut,
            _ => Own::Ref,
        }
    };
    // a path recorded by some traversal of this tree, or one from the model
    let recorded: Vec<usize> = (0..(&(*e).paths).len()).filter(|i| (&(*e).paths)[*i].0 == si).collect();
    let (coll, mut path) = if !recorded.is_empty() && rng.chance(70) {
        let r = &(&(*e).paths)[*rng.pick(&recorded)];
        (r.1, r.2.clone())
    } else {
        let all = sl.model.order(Order::Bfs, Src::Vec);
        if all.is_empty() && !bad {
            return;
        }
        let n = if all.is_empty() { 0 } else { *rng.pick(&all) };
        let mut p = if all.is_empty() { vec![0] } else { sl.model.path(n) };
        if all.is_empty() {
            (true, p)
        } else if rng.chance(50) {
            p.insert(0, sl.model.root_index(n));
            (true, p)
        } else {
            (false, p)
        }
    };
    if bad {
        match rng.below(6) {
            // the same child if the index were cut to fewer bits, or counted from the end
            4 => {
                let n = path.len().max(1);
                let i = rng.below(n as u64) as usize;
                if let Some(x) = path.get_mut(i) {
                    *x = match rng.below(6) {
                        0 => x.wrapping_add(1 << 32),
                        1 => x.wrapping_add(1 << 63),
                        2 => x.wrapping_add(1 << 16),
                        3 => x.wrapping_add(1 << 8),
                        4 => !*x,
                        _ => 0usize.wrapping_sub(*x),
                    }
                }
            }
            5 if rng.chance(5) => {
                let k = [64, 255, 256, 300, 1000][rng.below(5) as usize];
                let v = rng.below(2) as usize;
                path.resize(path.len() + k, v);
            }
            0 | 5 => path.push(rng.below(3) as usize),
            1 => {
                if let Some(l) = path.last_mut() {
                    *l += 1 + rng.below(3) as usize
                }
            }
            2 if rng.chance(30) => path.clear(),
            2 => {
                let n = path.len().max(1);
                let i = rng.below(n as u64) as usize;
                if let Some(x) = path.get_mut(i) {
                    *x = [usize::MAX, 2, 7, usize::MAX - 1][rng.below(4) as usize]
                }
            }
            _ => {
                for _ in 0..rng.below(5) {
                    path.push(rng.below(2) as usize)
                }
            }
        }
        (*e).probes.bad_lookups += 1;
    } else {
        (*e).probes.lookups += 1;
    }
    // expected by the model
    let want = if coll {
        // an empty path names no tree of a collection
        path.first().and_then(|i| sl.model.roots.get(*i)).and_then(|r| sl.model.at(*r, &path[1..]))
    } else {
        sl.model.at(sl.model.roots[0], &path)
    };
    let want = want.map(|n| sl.model.nodes[n as usize].id);
    let mark = (*e).next_mark;
    (*e).next_mark += 1;
    // nobody else may take the tree while the lookup runs (callbacks may start other tasks)
    match how {
        Own::Owned => sl.taken = true,
        Own::Mut => sl.writer = true,
        Own::Ref => sl.readers += 1,
    }
    let cur = set_cur(usize::MAX, "C16");
    let r = match sl.trees {
        Trees::T(p) => lookup_in!(p, coll, &path, how, OwnedIntoIteratorOfTrees, MutBorrowedIntoIteratorOfTrees, BorrowedIntoIteratorOfTrees, OwnedTreeNode, MutBorrowedTreeNode, BorrowedTreeNode, mark),
        Trees::X(p) => lookup_in!(p, coll, &path, how, OwnedIntoIteratorOfTrees, MutBorrowedIntoIteratorOfTrees, BorrowedIntoIteratorOfTrees, OwnedTreeNode, MutBorrowedTreeNode, BorrowedTreeNode, mark),
        Trees::B(p) => lookup_in!(p, coll, &path, how, OwnedIntoIteratorOfBinaryTrees, MutBorrowedIntoIteratorOfBinaryTrees, BorrowedIntoIteratorOfBinaryTrees, OwnedBinaryTreeNode, MutBorrowedBinaryTreeNode, BorrowedBinaryTreeNode, mark),
        Trees::XB(p) => lookup_in!(p, coll, &path, how, OwnedIntoIteratorOfBinaryTrees, MutBorrowedIntoIteratorOfBinaryTrees, BorrowedIntoIteratorOfBinaryTrees, OwnedBinaryTreeNode, MutBorrowedBinaryTreeNode, BorrowedBinaryTreeNode, mark),
    };
    reset_cur(cur);
    match how {
        Own::Owned => {}
        Own::Mut => sl.writer = false,
        Own::Ref => sl.readers -= 1,
    }
    let bin = if sl.repr.bin() { "binary" } else { "nary" };
    let what = format!("{how:?}/{bin}{}", if coll { "/each" } else { "" }).to_lowercase();
    match r {
        Caught::Ok(s) => {
            let got = s.map(|s| s.id);
            log(got.unwrap_or(77) as u64);
            if got != want {
                issue(&["C16"], format!("wrong-lookup/{what}"), format!("path {path:?} fetched {got:?} instead of {want:?} ({what})"));
            } else if let (Own::Mut, Some(id)) = (how, want) {
                (&mut (*e).marks)[id as usize] = mark;
            } else if let (Own::Ref, Some(s)) = (how, s) {
                if s.mark != (&(*e).marks)[s.id as usize] {
                    issue(&["C16", "C12"], "stale-lookup", format!("value {} shows mark {} instead of {}", s.id, s.mark, (&(*e).marks)[s.id as usize]));
                }
            }
        }
        Caught::Injected => {}
        Caught::Budget => issue(&["C16"], "no-termination", "path lookup did not terminate"),
        Caught::Library(m) => issue(&["C16"], format!("lookup-panicked/{what}"), format!("path {path:?}: {m} ({what})")),
    }
    if how == Own::Mut {
        check_slot(&mut *e, si, &["C16", "C12"], "tree after a mutable path lookup");
    }
    with(|w| {
        w.expanded.clear();
        w.src_pulls.clear();
    });
}

unsafe fn drain(e: *mut Exec, t: usize) {
    let mut guard = 0usize;
    loop {
        let ts = &(&(*e).tasks)[t];
        let limit = ts.exp.len() + ts.model.nodes.len() + 40;
        if (ts.started && (ts.done || ts.failed || ts.ended || ts.drv.is_none())) || guard > limit {
            break;
        }
        if guard > 0 && ts.poisoned && guard > 6 {
            break;
        }
        step(e, t);
        if !(&(*e).tasks)[t].started {
            return;
        }
        guard += 1;
    }
    let ts = &(&(*e).tasks)[t];
    if ts.ended && !ts.failed && matches!(ts.mode, Mode::Plain | Mode::Leaves) {
        step(e, t);
        step(e, t);
    }
    // an iterator that never ends is caught by extra-element or by the budget
}

fn preempt(t: usize) {
    let e = ex();
    if e.is_null() {
        return;
    }
    unsafe {
        let n = (&(*e).tasks).len();
        if n == 0 {
            return;
        }
        let t = t % n;
        let ts = &(&(*e).tasks)[t];
        if ts.started && ts.drv.is_none() {
            return;
        }
        // creating a traversal inside a callback is fine too, provided its tree is free
        with(|w| w.reentered += 1);
        (*e).probes.reentrant_steps += 1;
        step(e, t);
    }
}

pub struct RunOut {
    pub issues: Vec<Issue>,
    pub hash: u64,
    pub steps: u64,
    pub fired: [u64; NSITE],
    pub hits: [u64; NSITE],
    pub probes: Probes,
    pub nontrivial: bool,
    pub stack_max: usize,
}

pub fn run(plan: &Plan) -> RunOut {
    if plan.stack_kb > 0 {
        let p = plan.clone();
        let kb = plan.stack_kb as usize;
        // The library runs on the small stack; a stack overflow kills the worker and is reported
        // by the supervisor as a crash of this seed.
        return std::thread::Builder::new()
            .stack_size(kb << 10)
            .spawn(move || run_here(&p))
            .expect("thread")
            .join()
            .unwrap_or_else(|_| panic!("simulation thread failed"));
    }
    run_here(plan)
}

fn run_here(plan: &Plan) -> RunOut {
    let faults = plan.faults.iter().map(|f| FaultAt { site: f.0, nth: f.1 }).collect();
    let deep = plan.forests.iter().any(|f| f.deep.is_some());
    let nodes: usize = plan.forests.iter().map(|f| f.nodes.len()).sum();
    let budget = if deep { 30_000_000 } else { 60_000 + nodes as u64 * 600 };
    reset(faults, plan.preempts.clone(), budget, Some(preempt));
    if let Some(sp) = &plan.special {
        return crate::special::run(plan, sp);
    }
    let mut exec = Box::new(Exec::new(plan));
    let e: *mut Exec = &mut *exec;
    EX.with(|x| x.set(e));
    unsafe {
        let n = (&(*e).tasks).len();
        let mut last = usize::MAX;
        for op in &plan.ops {
            if n == 0 {
                break;
            }
            let t = op.t % n;
            if t != last {
                (*e).probes.task_switches += 1;
                last = t;
            }
            {
                let h = match op.k {
                    OpK::Step(_) => 1u8,
                    OpK::Leaves => 2,
                    OpK::Ctx => 3,
                    OpK::Anc => 4,
                    OpK::Edit(_) => 5,
                    OpK::Write(_) => 6,
                    OpK::Cancel => 7,
                    OpK::Drain => 8,
                    OpK::Lookup(_) => 9,
                    OpK::BadLookup(_) => 10,
                    OpK::Nth(_) => 11,
                    OpK::Bulk(_) => 12,
                    OpK::Forget => 13,
                    OpK::Exchange(_) => 14,
                };
                log(h as u64 * 31 + t as u64);
            }
            match op.k {
                OpK::Step(k) => {
                    for _ in 0..k {
                        step(e, t);
                    }
                }
                OpK::Nth(u32::MAX) => step_by(e, t, Some(usize::MAX)),
                OpK::Nth(k) => step_by(e, t, Some(k as usize)),
                OpK::Bulk(how) => bulk(e, t, how),
                OpK::Leaves => convert(e, t, Conv::Leaves),
                OpK::Ctx => convert(e, t, Conv::Ctx),
                OpK::Anc => convert(e, t, Conv::Anc),
                OpK::Edit(s) => edit(e, t, s),
                OpK::Write(s) => write(e, t, s),
                OpK::Exchange(s) => exchange(e, t, s),
                OpK::Cancel => finish(e, t),
                OpK::Forget => cancel(e, t, true),
                OpK::Drain => drain(e, t),
                OpK::Lookup(s) => lookup(e, t, s, false),
                OpK::BadLookup(s) => lookup(e, t, s, true),
            }
        }
        // crash everything that is still alive, in task order
        for t in 0..n {
            finish(e, t);
        }
        with(|w| w.faults_armed = false);
        let fault = with(|w| w.fault_happened);
        let clean = with(|w| w.issues.is_empty());
        if clean || !(*e).deep {
            for s in 0..(&(*e).slots).len() {
                let edited = (&(*e).tasks).iter().any(|t| t.spec.tree == s && t.real_edit && t.failed);
                if !edited {
                    check_slot(&mut *e, s, if fault { &["C11"] } else { &["C12", "C10"] }, "tree at the end of the run");
                }
            }
        }
        // user-side destruction of what is left
        for s in &(&(*e).slots)[..] {
            match s.trees {
                Trees::T(p) => free_forest(p),
                Trees::B(p) => free_forest(p),
                Trees::X(p) => free_forest(p),
                Trees::XB(p) => free_forest(p),
            }
        }
        let cfgs: BTreeSet<String> = (&(*e).tasks).iter().filter(|t| t.started).map(|t| cfg_of(t, (&(*e).slots)[t.spec.tree].repr)).collect();
        let cfgs = cfgs.into_iter().collect::<Vec<_>>().join("+");
        (&mut (*e).tasks).clear();
        ledger(fault, &cfgs, plan);
    }
    EX.with(|x| x.set(std::ptr::null_mut()));
    let mut probes = exec.probes.clone();
    drop(exec);
    probes.deep_runs += deep as u64;
    collect(probes)
}

/// Final conservation check over the drop and allocation ledgers.
pub fn ledger(fault: bool, cfgs: &str, plan: &Plan) {
    let _h = Har::enter();
    let tag: &[&str] = if fault { &["C11"] } else { &["C10"] };
    let already = with(|w| w.issues.iter().any(|i| i.sig.starts_with("double-drop") || i.sig.starts_with("drop-of-garbage")));
    let forgot = with(|w| w.forgot);
    let leaked: Vec<u32> = with(|w| w.drops.iter().enumerate().filter(|(_, d)| **d == 0 && !forgot).map(|(i, _)| i as u32).collect());
    let mut extra = tag.to_vec();
    // an attachment refusal that loses values also breaks the refusal property
    if with(|w| w.refused) {
        extra.push("C06");
    }
    if plan.prop == "C17" {
        extra.push("C17");
    }
    if !leaked.is_empty() {
        issue(&extra, format!("leak/{cfgs}"), format!("values {:?} were never dropped ({cfgs})", &leaked[..leaked.len().min(8)]));
    }
    let toks = with(|w| w.tok_drops.iter().filter(|d| **d == 0 && !forgot).count());
    if toks > 0 {
        issue(&extra, format!("container-leak/{cfgs}"), format!("{toks} child containers or iterators were never dropped ({cfgs})"));
    }
    let (live, bad) = end_of_run();
    if bad > 0 {
        issue(&["C10", "C11"], format!("bad-free/{cfgs}"), format!("{bad} invalid or double frees ({cfgs})"));
    }
    if live != 0 && !forgot && leaked.is_empty() && toks == 0 && !already && bad == 0 {
        issue(&extra, format!("memory-leak/{cfgs}"), format!("{live} allocations of the run were never freed ({cfgs})"));
    }
}

pub fn collect(probes: Probes) -> RunOut {
    with(|w| {
        let h = w.hash;
        RunOut {
            issues: std::mem::take(&mut w.issues),
            hash: h,
            steps: w.total,
            fired: w.fired,
            hits: w.hits,
            nontrivial: probes.yields + probes.pipe_outs + probes.lazy_steps + probes.lookups >= 3 || probes.kinds >= 1 || probes.serde_ok + probes.serde_err >= 1,
            probes,
            stack_max: w.stack_max,
        }
    })
}

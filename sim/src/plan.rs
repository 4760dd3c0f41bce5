//! The plan of one run: pure data derived from one seed; also the replay-file format.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Repr {
    /// library `Tree`
    T,
    /// library `BinaryTree`
    B,
    /// simulated n-ary node, every accessor a seam
    X,
    /// simulated n-ary node whose child containers (all modes) own resources
    D,
    /// simulated binary node
    XB,
}
impl Repr {
    pub fn bin(self) -> bool {
        matches!(self, Repr::B | Repr::XB)
    }
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Own {
    Owned,
    Mut,
    Ref,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Order {
    Pre,
    In,
    Post,
    Bfs,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Src {
    /// not a collection: the first tree of the forest
    One,
    /// the standard container (Vec, &mut Vec, &Vec)
    Vec,
    /// arrays / slices / slice iterators
    Arr,
    /// simulated source; every pull is a seam, ends after the given number of trees
    Hook(usize),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Forest {
    pub repr: Repr,
    /// preorder-compatible flat description: (parent index or u32::MAX for a root, slot)
    pub nodes: Vec<(u32, u32)>,
    /// size_hint behaviour of simulated child iterators
    pub hint: u8,
    /// when set, `nodes` is ignored and a deep shape is generated
    pub deep: Option<(u32, u32)>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Stage {
    Map(u32),
    MapPath(u32),
    Prune(u32, u32),
    PrunePath(u32, u32),
    Depth(u32),
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Term {
    Collect,
    Fold,
    FoldPath,
    /// step manually with next(), checking the current path
    Step,
    /// step manually and prune current subtrees by hand with this probability seed
    StepPrune(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum TKind {
    Trav { order: Order },
    /// `conv`: use the one-call convenience method (prune/map/fold... on the node) when the
    /// chain is a single stage
    Pipe { stages: Vec<Stage>, term: Term, conv: bool },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Task {
    pub tree: usize,
    pub own: Own,
    pub src: Src,
    pub kind: TKind,
    /// keep yielded values until the task ends (else drop each at once)
    pub hold: bool,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum OpK {
    Step(u32),
    Leaves,
    Ctx,
    Anc,
    /// edit children through the context, decided by the number
    Edit(u32),
    /// write through the exposed stack: ancestor index selector
    Write(u32),
    /// put other values into the exposed stack: a fresh one (by value), or two exchanged
    Exchange(u32),
    /// cancel: drop the iterator now
    Cancel,
    /// cancel without running the iterator's destructor (mem::forget)
    Forget,
    /// run to exhaustion (and a few steps beyond)
    Drain,
    /// skip that many elements with the iterator's own nth()
    Nth(u32),
    /// consume what is left through a consuming method (for_each, fold, collect, count, last)
    Bulk(u32),
    /// look up a recorded path (selector) with at_path / _mut / _ref
    Lookup(u32),
    /// look up a recorded path extended/edited so that it leaves the tree
    BadLookup(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Op {
    pub t: usize,
    pub k: OpK,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub forests: Vec<Forest>,
    pub tasks: Vec<Task>,
    pub ops: Vec<Op>,
    /// panic at the nth hit of site
    pub faults: Vec<(usize, u64)>,
    /// at the nth seam crossing overall, step that task from inside the callback
    pub preempts: Vec<(u64, usize)>,
    /// run on a thread with this much stack (KiB); 0 = worker's own stack
    pub stack_kb: u32,
    /// different engine: serde stream scenario, unbounded generators
    pub special: Option<Special>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Special {
    /// fmt 0: JSON text stream, 1: JSON stream then from_value, 2: bincode stream.
    /// faults: (call number, kind) kind 0..=2 reader (interrupt, error, early end), 4..=6 writer
    Serde { tree: Forest, fmt: u8, chunks: Vec<u32>, faults: Vec<(u32, u8)>, cut: Option<u32>, drop_field: Option<(u32, u8)> },
    /// mode 0 plain, 1 ancestors, 2 context, 3 stepped pipeline, 4 collected pipeline (depth-limited / per tree)
    Lazy { bin: bool, coll: bool, own: Own, mode: u8, order: Order, fan: u32, steps: u32, shape: u64, pct: u32, depth: u32 },
    /// library node types holding other value types (0 zero-sized, 1 byte, 2 large over-aligned, 3 niche);
    /// mode 0 plain then leaves at `at`, 1 contexts, 2 ancestors then leaves, 3 collect, 4 fold, 5 collection, 6 collection contexts
    Kinds { tree: Forest, val: u8, own: Own, order: Order, mode: u8, at: u32, seed: u64 },
    /// deep copies and comparisons with user-supplied clone/eq as seams
    /// snap: (order, by value / by reference, of a collection, every so many steps): contexts cloned mid-traversal
    Clone {
        tree: Forest,
        edit: (u32, u8),
        #[serde(default)]
        snap: Option<(Order, bool, bool, u32)>,
    },
}

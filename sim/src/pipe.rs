//! Pipelines: random chains of the library's map / prune / depth stages over the real base
//! pipelines, with an upfront reference evaluation of every closure call, path and result.
use crate::drv::*;
use crate::exec::*;
use crate::model::*;
use crate::nodes::*;
use crate::plan::*;
use crate::world::*;
use std::collections::HashMap;
use std::marker::PhantomData;
use tree_iterators_rs::prelude::*;

// ---------------------------------------------------------------- reference evaluation
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call {
    pub id: u32,
    pub path: Option<Vec<usize>>,
}
/// One node of a flattened result tree (preorder). `shape`: child count, or occupied-slot bits.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Flat {
    pub id: u32,
    pub mark: u32,
    pub shape: u32,
    pub path: Option<Vec<usize>>,
}
pub struct PipeSt {
    pub bin: bool,
    pub coll: bool,
    pub light: bool,
    pub stages: Vec<Stage>,
    pub term: Term,
    pub calls: Vec<Vec<Call>>,
    pub fold_calls: usize,
    pub outs: Vec<Vec<Flat>>,
    pub x_calls: Vec<Vec<Call>>,
    pub x_out: Vec<Vec<Flat>>,
    /// survivors in preorder: value, mark, final path, depth, 1 + index in the base order
    pub x_yield: Vec<(u32, u32, Vec<usize>, usize, usize)>,
    pub base: Vec<u32>,
    pub base_ix: HashMap<u32, usize>,
    /// position in the base order of every surviving root
    pub roots_at: Vec<usize>,
    pub exp_seen: usize,
    pub checked: Vec<usize>,
    pub got: usize,
    /// `got` when the step began
    pub hint_at: usize,
    pub closed: bool,
    /// what is left was consumed in one call
    pub bulk: bool,
    pub wr: Vec<(u32, u32)>,
}
/// The depth limit a plan means: the last two stand for the largest a caller can give.
fn limit(d: u32) -> usize {
    if d >= u32::MAX - 1 {
        usize::MAX - (u32::MAX - d) as usize
    } else {
        d as usize
    }
}

fn derive_mark(mark: u32, seed: u32) -> u32 {
    mark.wrapping_mul(31).wrapping_add(seed | 1)
}
fn written(seed: u32, id: u32) -> u32 {
    (h64(0xA5A5 ^ seed as u64, id as u64) as u32) | 0x8000_0001
}
fn pruned(seed: u32, pct: u32, id: u32) -> bool {
    h64(seed as u64, id as u64) % 100 < pct as u64
}
fn hand(seed: u32, id: u32) -> bool {
    h64(0x4A4D ^ seed as u64, id as u64) % 4 == 0
}
impl PipeSt {
    pub fn total(&self) -> usize {
        if matches!(self.term, Term::Step | Term::StepPrune(_)) {
            self.x_yield.len()
        } else {
            self.x_out.len()
        }
    }
    pub fn new(m: &Model, bin: bool, spec: &Task, stages: &[Stage], term: Term, marks: &[u32]) -> PipeSt {
        let coll = spec.src != Src::One;
        let n = stages.len();
        let mut p = PipeSt {
            bin,
            coll,
            light: m.nodes.len() > 1500,
            stages: stages.to_vec(),
            term,
            calls: vec![vec![]; n],
            fold_calls: 0,
            outs: vec![],
            x_calls: vec![vec![]; n],
            x_out: vec![],
            x_yield: vec![],
            base: vec![],
            base_ix: HashMap::new(),
            roots_at: vec![],
            exp_seen: 0,
            checked: vec![0; n],
            got: 0,
            hint_at: 0,
            closed: false,
            bulk: false,
            wr: vec![],
        };
        struct Fr {
            node: u32,
            kid: usize,
            /// children that reached each level so far
            counts: Vec<usize>,
            paths: Vec<Vec<usize>>,
            tree: usize,
            flat: usize,
            depth: usize,
            cut: bool,
        }
        let mut root_counts = vec![0usize; n + 1];
        for (ri, r) in m.src_roots(spec.src).into_iter().enumerate() {
            let tree = p.x_out.len();
            let mut st: Vec<Fr> = Vec::new();
            // visit returns a frame when the node survives
            let mut visit = |p: &mut PipeSt, node: u32, slot: usize, depth: usize, parent: Option<(&mut Vec<usize>, &Vec<Vec<usize>>)>| -> Option<Fr> {
                let id = m.nodes[node as usize].id;
                p.base_ix.insert(id, p.base.len());
                p.base.push(id);
                let mut paths: Vec<Vec<usize>> = Vec::new();
                let mut cut = false;
                let mut mark = marks[id as usize];
                let is_root = parent.is_none();
                let (counts, pp) = match parent {
                    Some((c, pp)) => (c, Some(pp)),
                    None => (&mut root_counts, None),
                };
                for s in 0..=n {
                    let idx = if bin { if is_root { ri } else { slot } } else { counts[s] };
                    let mut path = match pp {
                        Some(pp) => pp[s].clone(),
                        None => vec![],
                    };
                    if p.light {
                        path = vec![depth + coll as usize];
                    } else if !is_root || coll {
                        path.push(idx);
                    }
                    counts[s] += 1;
                    paths.push(path);
                    if s == n {
                        break;
                    }
                    match &stages[s] {
                        Stage::Map(seed) => {
                            p.x_calls[s].push(Call { id, path: None });
                            mark = derive_mark(mark, *seed);
                        }
                        Stage::MapPath(seed) => {
                            p.x_calls[s].push(Call { id, path: Some(paths[s].clone()) });
                            mark = derive_mark(mark, *seed);
                        }
                        Stage::Prune(seed, pct) => {
                            p.x_calls[s].push(Call { id, path: None });
                            if pruned(*seed, *pct, id) {
                                return None;
                            }
                        }
                        Stage::PrunePath(seed, pct) => {
                            p.x_calls[s].push(Call { id, path: Some(paths[s].clone()) });
                            if pruned(*seed, *pct, id) {
                                return None;
                            }
                        }
                        Stage::Depth(d) => cut |= depth == limit(*d),
                    }
                }
                if let Term::StepPrune(seed) = term {
                    cut |= hand(seed, id);
                }
                let fin = paths[n].clone();
                p.x_yield.push((id, mark, fin.clone(), depth, p.base.len()));
                if is_root {
                    p.roots_at.push(p.base.len());
                    p.x_out.push(vec![]);
                }
                let out = &mut p.x_out[tree];
                out.push(Flat { id, mark, shape: 0, path: matches!(term, Term::FoldPath).then_some(fin) });
                Some(Fr { node, kid: 0, counts: vec![0; n + 1], paths, tree, flat: out.len() - 1, depth, cut })
            };
            if let Some(f) = visit(&mut p, r, 0, 0, None) {
                st.push(f);
            }
            while let Some(f) = st.last_mut() {
                let kids = &m.nodes[f.node as usize].kids;
                if f.cut || f.kid >= kids.len() {
                    st.pop();
                    continue;
                }
                let slot = f.kid;
                f.kid += 1;
                if let Some(k) = kids[slot] {
                    let d = f.depth + 1;
                    let (tree, flat) = (f.tree, f.flat);
                    let paths = std::mem::take(&mut f.paths);
                    let nf = visit(&mut p, k, slot, d, Some((&mut f.counts, &paths)));
                    f.paths = paths;
                    if let Some(nf) = nf {
                        let sh = &mut p.x_out[tree][flat].shape;
                        if bin {
                            *sh |= 1 << slot
                        } else {
                            *sh += 1
                        }
                        st.push(nf);
                    }
                }
            }
        }
        p
    }
    pub fn closed(mut self) -> PipeSt {
        self.closed = true;
        self
    }
}

// ---------------------------------------------------------------- closures
unsafe fn st(t: usize) -> Option<&'static mut PipeSt> {
    let e = ex();
    if e.is_null() {
        return None;
    }
    (&mut (*e).tasks).get_mut(t).and_then(|t| t.pipe.as_mut())
}
fn call(t: usize, ix: usize, v: &Val, path: Option<&[usize]>) -> Seen {
    let _h = Har::enter();
    let s = v.rd();
    unsafe {
        (*ex()).probes.pipe_closure_calls += 1;
        if let Some(p) = st(t) {
            let path = path.map(|x| if p.light { vec![x.len()] } else { x.to_vec() });
            p.calls[ix].push(Call { id: s.root, path });
        }
    }
    hook(Site::Closure, (ix as u32) << 24 | (s.root & 0xFF_FFFF));
    s
}
/// Writes through a mutable reference that a closure or step was given.
fn put<V: ValLike>(t: usize, v: &mut V, seed: u32) {
    if std::any::TypeId::of::<V>() != std::any::TypeId::of::<&'static mut Val>() {
        return;
    }
    let _h = Har::enter();
    let s = v.v().rd();
    if !s.ok {
        return;
    }
    let w = written(seed, s.id);
    v.wr(w);
    unsafe {
        let e = ex();
        (*e).fill_marks();
        (&mut (*e).marks)[s.id as usize] = w;
        let _ = t;
    }
}
fn map_cl<V: ValLike>(t: usize, ix: usize, seed: u32, mut v: V, path: Option<&[usize]>) -> Val {
    let s = call(t, ix, v.v(), path);
    put(t, &mut v, seed);
    let _h = Har::enter();
    let d = Val::derived(s.root, derive_mark(s.mark, seed));
    drop(_h);
    drop(v);
    d
}
fn prune_cl<V: ValLike>(t: usize, ix: usize, seed: u32, pct: u32, v: &V, path: Option<&[usize]>) -> bool {
    let s = call(t, ix, v.v(), path);
    pruned(seed, pct, s.root)
}

/// What fold closures build.
pub struct R {
    id: u32,
    mark: u32,
    path: Option<Vec<usize>>,
    kids: Vec<Option<R>>,
    #[allow(dead_code)]
    tok: Tok,
}
impl Drop for R {
    fn drop(&mut self) {
        let mut st: Vec<R> = self.kids.drain(..).flatten().collect();
        while let Some(mut r) = st.pop() {
            st.extend(r.kids.drain(..).flatten());
        }
    }
}
fn fold_cl<V: ValLike>(t: usize, kids: Vec<Option<R>>, path: Option<&[usize]>, mut v: V) -> R {
    let s = {
        let _h = Har::enter();
        let s = v.v().rd();
        unsafe {
            (*ex()).probes.pipe_closure_calls += 1;
            if let Some(p) = st(t) {
                p.fold_calls += 1;
            }
        }
        hook(Site::Closure, 0xF0_00_00_00 | (s.root & 0xFF_FFFF));
        s
    };
    put(t, &mut v, 77);
    drop(v);
    let _h = Har::enter();
    let light = unsafe { st(t).map(|p| p.light).unwrap_or(false) };
    let path = path.map(|x| if light { vec![x.len()] } else { x.to_vec() });
    for k in kids.iter().flatten() {
        if !k.tok.live() {
            issue(&["C10", "C11"], "dead-fold-output", "a fold output was handed over after it had been dropped");
        }
    }
    R { id: s.root, mark: s.mark, path, kids, tok: Tok::new("fold-output") }
}
fn flat_r(r: R, bin: bool) -> Vec<Flat> {
    let mut out = vec![];
    let mut st = vec![r];
    while let Some(mut r) = st.pop() {
        let shape = if bin { r.kids.iter().enumerate().map(|(i, k)| (k.is_some() as u32) << i).sum() } else { r.kids.len() as u32 };
        out.push(Flat { id: r.id, mark: r.mark, shape, path: r.path.take() });
        let k: Vec<_> = r.kids.drain(..).flatten().collect();
        st.extend(k.into_iter().rev());
    }
    out
}
fn flat_t<V: ValLike>(t: usize, x: Tree<V>) -> Vec<Flat> {
    let mut out = vec![];
    let mut st = vec![x];
    while let Some(mut n) = st.pop() {
        let s = n.value.v().rd();
        out.push(Flat { id: s.root, mark: s.mark, shape: n.children.len() as u32, path: None });
        put(t, &mut n.value, 78);
        let Tree { value, mut children } = n;
        quiet(value);
        while let Some(c) = children.pop() {
            st.push(c);
        }
    }
    out
}
fn flat_b<V: ValLike>(t: usize, x: BinaryTree<V>) -> Vec<Flat> {
    let mut out = vec![];
    let mut st = vec![x];
    while let Some(n) = st.pop() {
        let BinaryTree { mut value, left, right } = n;
        let s = value.v().rd();
        out.push(Flat { id: s.root, mark: s.mark, shape: left.is_some() as u32 | (right.is_some() as u32) << 1, path: None });
        put(t, &mut value, 78);
        quiet(value);
        st.extend(right.map(|b| *b));
        st.extend(left.map(|b| *b));
    }
    out
}
/// A drop performed by the caller, not by the library.
fn quiet<V>(v: V) {
    let armed = with(|w| std::mem::replace(&mut w.faults_armed, false));
    drop(v);
    with(|w| w.faults_armed = armed);
}

// ---------------------------------------------------------------- type-erased chains
enum Left<V> {
    Items(Vec<V>),
    Count(usize),
    Last(Option<V>),
}
fn consume<V, I: Iterator<Item = V>>(mut it: I, how: u32) -> Left<V> {
    let mut out = vec![];
    match how % 11 {
        6 => {
            it.any(|v| {
                out.push(v);
                false
            });
        }
        7 => {
            it.all(|v| {
                out.push(v);
                true
            });
        }
        8 => {
            it.position(|v| {
                out.push(v);
                false
            });
        }
        9 => {
            let (all, none): (Vec<V>, Vec<V>) = it.partition(|_| true);
            out = all;
            out.extend(none);
        }
        10 => {
            let last = it.reduce(|a, b| {
                out.push(a);
                b
            });
            out.extend(last);
        }
        0 => it.for_each(|v| out.push(v)),
        1 => {
            out = it.fold(out, |mut out, v| {
                out.push(v);
                out
            })
        }
        2 => out = it.collect(),
        3 => return Left::Count(it.count()),
        4 => return Left::Last(it.last()),
        _ => {
            let skip = (how / 11) as usize % 4;
            out.extend(it.by_ref().take(skip));
            // not polled again once it has ended
            if out.len() == skip {
                out.extend(it);
            }
        }
    }
    Left::Items(out)
}
/// A stage or base pipeline behind a pointer. Stages and terminals are applied to the concrete
/// type inside, as a caller's method chain does.
trait DynP<V> {
    fn next(&mut self) -> Option<V>;
    fn nth(&mut self, k: usize) -> Option<V>;
    fn hint(&self) -> (usize, Option<usize>);
    fn path(&self) -> &[usize];
    fn depth(&self) -> usize;
    fn prune(&mut self);
    fn consume(self: Box<Self>, how: u32) -> Left<V>;
    /// the same pipeline at another address
    fn moved(self: Box<Self>) -> Box<dyn DynP<V>>;
    fn map(self: Box<Self>, t: usize, ix: usize, seed: u32, path: bool) -> Box<dyn DynP<Val>>;
    fn filt(self: Box<Self>, t: usize, ix: usize, s: Stage) -> Box<dyn DynP<V>>;
    fn term(self: Box<Self>, t: usize, term: Term) -> B;
    /// itself behind a pointer, as the next stage's inner pipeline
    fn hidden(self: Box<Self>) -> Box<dyn DynP<V>>;
}
macro_rules! dyn_core {
    () => {
        fn moved(self: Box<Self>) -> Box<dyn DynP<V>> {
            Box::new(*self)
        }
        fn next(&mut self) -> Option<V> {
            self.0.next()
        }
        fn nth(&mut self, k: usize) -> Option<V> {
            self.0.nth(k)
        }
        fn hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
        fn path(&self) -> &[usize] {
            self.0.current_path()
        }
        fn depth(&self) -> usize {
            self.0.current_depth()
        }
        fn prune(&mut self) {
            self.0.prune_current_subtree()
        }
    };
}
// a closure's type depends on every type parameter around it: only the element's here
fn map_of<V: ValLike>(t: usize, ix: usize, seed: u32) -> impl FnMut(V) -> Val {
    move |v| map_cl(t, ix, seed, v, None)
}
fn map_path_of<V: ValLike>(t: usize, ix: usize, seed: u32) -> impl FnMut(&[usize], V) -> Val {
    move |q, v| map_cl(t, ix, seed, v, Some(q))
}
fn prune_of<V: ValLike>(t: usize, ix: usize, seed: u32, pct: u32) -> impl FnMut(&V) -> bool {
    move |v| prune_cl(t, ix, seed, pct, v, None)
}
fn prune_path_of<V: ValLike>(t: usize, ix: usize, seed: u32, pct: u32) -> impl FnMut(&[usize], &V) -> bool {
    move |q, v| prune_cl(t, ix, seed, pct, v, Some(q))
}
macro_rules! adapters {
    ($Full:ident, $Lean:ident, $P:ident, $Base:ident, $Tr:ident, $map:ident, $terms:ident, $hm:ident, $hf:ident) => {
        /// what comes next is applied to the concrete type
        struct $Full<I, C>(I, PhantomData<C>);
        impl<V: ValLike, C: 'static, I: $Tr<V, C> + 'static> DynP<V> for $Full<I, C> {
            dyn_core!();
            fn map(self: Box<Self>, t: usize, ix: usize, seed: u32, path: bool) -> Box<dyn DynP<Val>> {
                if path {
                    Box::new($Lean($Base::map_path(self.0, map_path_of(t, ix, seed)), PhantomData))
                } else {
                    Box::new($Lean($Base::$map(self.0, map_of(t, ix, seed)), PhantomData))
                }
            }
            fn filt(self: Box<Self>, t: usize, ix: usize, s: Stage) -> Box<dyn DynP<V>> {
                match s {
                    Stage::Prune(seed, pct) => Box::new($Lean($Tr::prune(self.0, prune_of(t, ix, seed, pct)), PhantomData)),
                    Stage::PrunePath(seed, pct) => Box::new($Lean($Tr::prune_path(self.0, prune_path_of(t, ix, seed, pct)), PhantomData)),
                    Stage::Depth(d) => Box::new($Lean($Base::prune_depth(self.0, limit(d)), PhantomData)),
                    _ => unreachable!(),
                }
            }
            fn consume(self: Box<Self>, how: u32) -> Left<V> {
                consume(self.0, how)
            }
            fn term(self: Box<Self>, t: usize, term: Term) -> B {
                $terms(self.0, t, term)
            }
            fn hidden(self: Box<Self>) -> Box<dyn DynP<V>> {
                Box::new($Lean($P(Some(self as Box<dyn DynP<V>>), 0), PhantomData))
            }
        }
        fn $hm<V: ValLike>(i: $P<V>, t: usize, ix: usize, seed: u32, path: bool) -> Box<dyn DynP<Val>> {
            if path {
                Box::new($Full($Base::map_path(i, map_path_of(t, ix, seed)), PhantomData))
            } else {
                Box::new($Full($Base::$map(i, map_of(t, ix, seed)), PhantomData))
            }
        }
        fn $hf<V: ValLike>(i: $P<V>, t: usize, ix: usize, s: Stage) -> Box<dyn DynP<V>> {
            match s {
                Stage::Prune(seed, pct) => Box::new($Full($Tr::prune(i, prune_of(t, ix, seed, pct)), PhantomData)),
                Stage::PrunePath(seed, pct) => Box::new($Full($Tr::prune_path(i, prune_path_of(t, ix, seed, pct)), PhantomData)),
                Stage::Depth(d) => Box::new($Full($Base::prune_depth(i, limit(d)), PhantomData)),
                _ => unreachable!(),
            }
        }
        /// what comes next is applied through the pointer (this ends the expansion of types)
        struct $Lean<I, C>(I, PhantomData<C>);
        impl<V: ValLike, C: 'static, I: $Tr<V, C> + 'static> DynP<V> for $Lean<I, C> {
            dyn_core!();
            fn map(self: Box<Self>, t: usize, ix: usize, seed: u32, path: bool) -> Box<dyn DynP<Val>> {
                $hm($P(Some(self as Box<dyn DynP<V>>), 0), t, ix, seed, path)
            }
            fn filt(self: Box<Self>, t: usize, ix: usize, s: Stage) -> Box<dyn DynP<V>> {
                $hf($P(Some(self as Box<dyn DynP<V>>), 0), t, ix, s)
            }
            fn consume(self: Box<Self>, how: u32) -> Left<V> {
                consume($P(Some(self as Box<dyn DynP<V>>), 0), how)
            }
            fn term(self: Box<Self>, t: usize, term: Term) -> B {
                $terms($P(Some(self as Box<dyn DynP<V>>), 0), t, term)
            }
            fn hidden(self: Box<Self>) -> Box<dyn DynP<V>> {
                Box::new($Lean($P(Some(self as Box<dyn DynP<V>>), 0), PhantomData))
            }
        }
    };
}
adapters!(FullN, LeanN, P, TreeIteratorBase, TreeIterator, map_tree, terms_n, hide_map_n, hide_filt_n);
adapters!(FullB, LeanB, P, TreeIteratorBase, BinaryTreeIterator, map_tree, terms_b, hide_map_b, hide_filt_b);
adapters!(FullNC, LeanNC, Q, TreeCollectionIteratorBase, TreeCollectionIterator, map_trees, terms_nc, hide_map_nc, hide_filt_nc);
adapters!(FullBC, LeanBC, Q, TreeCollectionIteratorBase, BinaryTreeCollectionIterator, map_trees, terms_bc, hide_map_bc, hide_filt_bc);
macro_rules! terms_single {
    ($name:ident, $Tr:ident, $some:ident, $flat:ident, $bin:expr) => {
        fn $name<V: ValLike, C: 'static>(i: impl $Tr<V, C> + 'static, t: usize, term: Term) -> B {
            let _h = Har::enter();
            match term {
                Term::Collect => one(t, move || $Tr::collect_tree(i).map(|x| har(|| $flat(t, x)))),
                Term::Fold => one(t, move || $Tr::fold_tree(i, |k, v: V| fold_cl(t, $some(k), None, v)).map(|r| har(|| flat_r(r, $bin)))),
                _ => one(t, move || $Tr::fold_path(i, |k, q, v: V| fold_cl(t, $some(k), Some(q), v)).map(|r| har(|| flat_r(r, $bin)))),
            }
        }
    };
}
macro_rules! terms_coll {
    ($name:ident, $Tr:ident, $some:ident, $flat:ident, $bin:expr) => {
        fn $name<V: ValLike, C: 'static>(i: impl $Tr<V, C> + 'static, t: usize, term: Term) -> B {
            let _h = Har::enter();
            match term {
                Term::Collect => many(t, $Tr::trees(i), move |x| $flat(t, x)),
                Term::Fold => many(t, $Tr::fold_trees(i, move |k, v: V| fold_cl(t, $some(k), None, v)), |r| flat_r(r, $bin)),
                _ => many(t, $Tr::fold_path(i, move |k, q: &[usize], v: V| fold_cl(t, $some(k), Some(q), v)), |r| flat_r(r, $bin)),
            }
        }
    };
}
terms_single!(terms_n, TreeIterator, some_v, flat_t, false);
terms_single!(terms_b, BinaryTreeIterator, some_a, flat_b, true);
terms_coll!(terms_nc, TreeCollectionIterator, some_v, flat_t, false);
terms_coll!(terms_bc, BinaryTreeCollectionIterator, some_a, flat_b, true);

/// single-tree chain
struct P<V>(Option<Box<dyn DynP<V>>>, u8);
/// collection chain
struct Q<V>(Option<Box<dyn DynP<V>>>, u8);
impl<V> P<V> {
    /// a stage may be moved between any two elements
    fn here(&mut self) -> &mut dyn DynP<V> {
        let _h = Har::enter();
        self.1 = self.1.wrapping_add(1);
        if self.1 % 4 == 2 {
            self.0 = self.0.take().map(|p| p.moved());
        }
        &mut **self.0.as_mut().unwrap()
    }
}
impl<V> Iterator for P<V> {
    type Item = V;
    fn next(&mut self) -> Option<V> {
        self.here().next()
    }
    fn nth(&mut self, k: usize) -> Option<V> {
        self.here().nth(k)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.as_ref().unwrap().hint()
    }
}
impl<V> Q<V> {
    /// a stage may be moved between any two elements
    fn here(&mut self) -> &mut dyn DynP<V> {
        let _h = Har::enter();
        self.1 = self.1.wrapping_add(1);
        if self.1 % 4 == 2 {
            self.0 = self.0.take().map(|p| p.moved());
        }
        &mut **self.0.as_mut().unwrap()
    }
}
impl<V> Iterator for Q<V> {
    type Item = V;
    fn next(&mut self) -> Option<V> {
        self.here().next()
    }
    fn nth(&mut self, k: usize) -> Option<V> {
        self.here().nth(k)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.as_ref().unwrap().hint()
    }
}
impl<V> TreeIteratorBase<V, ()> for P<V> {
    fn current_path(&self) -> &[usize] {
        self.0.as_ref().unwrap().path()
    }
    fn current_depth(&self) -> usize {
        self.0.as_ref().unwrap().depth()
    }
    fn prune_current_subtree(&mut self) {
        self.0.as_mut().unwrap().prune()
    }
}
impl<V> TreeIterator<V, ()> for P<V> {}
impl<V> BinaryTreeIterator<V, ()> for P<V> {}
impl<V> TreeCollectionIteratorBase<V, ()> for Q<V> {
    fn current_path(&self) -> &[usize] {
        self.0.as_ref().unwrap().path()
    }
    fn current_depth(&self) -> usize {
        self.0.as_ref().unwrap().depth()
    }
    fn prune_current_subtree(&mut self) {
        self.0.as_mut().unwrap().prune()
    }
}
impl<V> TreeCollectionIterator<V, ()> for Q<V> {}
impl<V> BinaryTreeCollectionIterator<V, ()> for Q<V> {}

fn give(t: usize, f: Vec<Flat>, o: &mut Obs) {
    o.some = true;
    for x in f.iter().take(4) {
        o.anc.push(Seen { ok: true, id: x.id, root: x.id, mark: x.mark });
    }
    unsafe {
        if let Some(p) = st(t) {
            p.outs.push(f);
        }
    }
}
/// one call, one result
struct OneD(usize, Option<Box<dyn FnOnce() -> Option<Vec<Flat>>>>);
impl Drv for OneD {
    fn moved(self: Box<Self>) -> B {
        self
    }
    fn mode(&self) -> Mode {
        Mode::Pipe
    }
    fn step(&mut self, o: &mut Obs) {
        if let Some(f) = self.1.take() {
            if let Some(f) = f() {
                let _h = Har::enter();
                give(self.0, f, o);
            }
        }
    }
    fn can(&self, _: Conv) -> bool {
        false
    }
    fn conv(self: Box<Self>, _: Conv) -> B {
        unreachable!()
    }
}
/// an iterator of results, one per tree
struct ManyD<I, F>(usize, I, F);
impl<X, I: Iterator<Item = X> + 'static, F: FnMut(X) -> Vec<Flat> + 'static> Drv for ManyD<I, F> {
    fn can_bulk(&self) -> bool {
        true
    }
    fn bulk(self: Box<Self>, how: u32) -> Bulk {
        let ManyD(t, it, mut f) = *self;
        let mut shown = |x: X| {
            let _h = Har::enter();
            let mut o = Obs::default();
            give(t, f(x), &mut o);
            o
        };
        match consume(it, how) {
            Left::Count(n) => Bulk::Count(n),
            Left::Last(x) => Bulk::Last(x.map(|x| Box::new(shown(x)))),
            Left::Items(v) => {
                let out = v.into_iter().map(shown).collect();
                unsafe {
                    if let Some(p) = st(t) {
                        p.outs.reverse();
                    }
                }
                Bulk::Items(out)
            }
        }
    }
    fn moved(self: Box<Self>) -> B {
        Box::new(*self)
    }
    fn mode(&self) -> Mode {
        Mode::Pipe
    }
    fn step(&mut self, o: &mut Obs) {
        o.hint = self.1.size_hint();
        if let Some(x) = self.1.next() {
            let _h = Har::enter();
            give(self.0, (self.2)(x), o);
        }
    }
    fn nth(&mut self, k: usize, o: &mut Obs) -> bool {
        o.hint = self.1.size_hint();
        if let Some(x) = self.1.nth(k) {
            let _h = Har::enter();
            give(self.0, (self.2)(x), o);
        }
        true
    }
    fn can(&self, _: Conv) -> bool {
        false
    }
    fn conv(self: Box<Self>, _: Conv) -> B {
        unreachable!()
    }
}
struct StepD<V>(usize, Box<dyn DynP<V>>, Option<u32>);
impl<V: ValLike> StepD<V> {
    fn see(&mut self, mut v: V, o: &mut Obs) {
        let _h = Har::enter();
        o.some = true;
        let s = v.v().rd();
        o.anc.push(s);
        put(self.0, &mut v, 79);
        o.path = Some(self.1.path().to_vec());
        o.depth = self.1.depth();
        o.taken = Some(v.held());
        if let Some(h) = self.2 {
            if hand(h, s.root) {
                let _l = Lib::enter();
                self.1.prune();
                unsafe { (*ex()).probes.pipe_hand_prunes += 1 };
            }
        }
    }
}
impl<V: ValLike> Drv for StepD<V> {
    fn can_bulk(&self) -> bool {
        self.2.is_none()
    }
    fn bulk(self: Box<Self>, how: u32) -> Bulk {
        let StepD(t, p, _) = *self;
        let shown = |mut v: V| {
            let _h = Har::enter();
            let mut o = Obs::default();
            o.some = true;
            o.anc.push(v.v().rd());
            put(t, &mut v, 79);
            o.taken = Some(v.held());
            o
        };
        match p.consume(how) {
            Left::Count(n) => Bulk::Count(n),
            Left::Last(v) => Bulk::Last(v.map(|v| Box::new(shown(v)))),
            Left::Items(v) => {
                let _h = Har::enter();
                Bulk::Items(v.into_iter().map(shown).collect())
            }
        }
    }
    fn moved(mut self: Box<Self>) -> B {
        self.1 = self.1.moved();
        self
    }
    fn mode(&self) -> Mode {
        Mode::Pipe
    }
    fn step(&mut self, o: &mut Obs) {
        if self.2.is_none() {
            o.hint = self.1.hint();
        }
        if let Some(v) = self.1.next() {
            self.see(v, o);
        }
    }
    fn nth(&mut self, k: usize, o: &mut Obs) -> bool {
        if self.2.is_some() {
            return false;
        }
        o.hint = self.1.hint();
        if let Some(v) = self.1.nth(k) {
            self.see(v, o);
        }
        true
    }
    fn can(&self, _: Conv) -> bool {
        false
    }
    fn conv(self: Box<Self>, _: Conv) -> B {
        unreachable!()
    }
}
fn har<R>(f: impl FnOnce() -> R) -> R {
    let _h = Har::enter();
    f()
}

/// The stages applied one after the other, then the terminal.
fn chain<V: ValLike>(p: Box<dyn DynP<V>>, t: usize, stages: &[Stage], ix: usize, term: Term) -> B {
    match stages.get(ix) {
        None => {
            let _h = Har::enter();
            match term {
                Term::Step => Box::new(StepD(t, p, None)),
                Term::StepPrune(s) => Box::new(StepD(t, p, Some(s))),
                _ => p.term(t, term),
            }
        }
        Some(Stage::Map(seed)) => chain(p.map(t, ix, *seed, false), t, stages, ix + 1, term),
        Some(Stage::MapPath(seed)) => chain(p.map(t, ix, *seed, true), t, stages, ix + 1, term),
        Some(s) => chain(p.filt(t, ix, s.clone()), t, stages, ix + 1, term),
    }
}
/// Where the concrete types end: whether the base pipeline is behind a pointer already.
fn begin<V: ValLike>(p: Box<dyn DynP<V>>, t: usize, stages: &[Stage], term: Term) -> B {
    let hide = stages.iter().fold(t as u64, |h, s| {
        h64(
            h,
            match *s {
                Stage::Map(x) | Stage::MapPath(x) | Stage::Prune(x, _) | Stage::PrunePath(x, _) | Stage::Depth(x) => x as u64,
            },
        )
    }) & 1
        == 1;
    chain(if hide { p.hidden() } else { p }, t, stages, 0, term)
}
fn some_v(k: Vec<R>) -> Vec<Option<R>> {
    let _h = Har::enter();
    k.into_iter().map(Some).collect()
}
fn some_a(k: [Option<R>; 2]) -> Vec<Option<R>> {
    let _h = Har::enter();
    k.into_iter().collect()
}
fn one(t: usize, f: impl FnOnce() -> Option<Vec<Flat>> + 'static) -> B {
    let _h = Har::enter();
    Box::new(OneD(t, Some(Box::new(f))))
}
fn many<X: 'static>(t: usize, it: impl Iterator<Item = X> + 'static, fl: impl FnMut(X) -> Vec<Flat> + 'static) -> B {
    let _h = Har::enter();
    Box::new(ManyD(t, it, fl))
}
// ---------------------------------------------------------------- construction
/// One-call conveniences when the plan asks for them and the chain has the right form.
macro_rules! conv_single {
    ($v:expr, $t:expr, $stages:expr, $term:expr, $V:ty, $flat:ident, $some:ident, $bin:expr, $Tr:ident,
     $prune:ident, $prune_path:ident, $depth:ident, $map:ident, $map_path:ident, $fold:ident, $fold_path:ident) => {{
        let (v, t) = ($v, $t);
        match (&$stages[..], $term) {
            ([Stage::Prune(s, c)], Term::Collect) => {
                let (s, c) = (*s, *c);
                return one(t, move || $Tr::$prune(v, |x: &$V| prune_cl(t, 0, s, c, x, None)).map(|x| har(|| $flat(t, x))));
            }
            ([Stage::PrunePath(s, c)], Term::Collect) => {
                let (s, c) = (*s, *c);
                return one(t, move || $Tr::$prune_path(v, |q, x: &$V| prune_cl(t, 0, s, c, x, Some(q))).map(|x| har(|| $flat(t, x))));
            }
            ([Stage::Depth(d)], Term::Collect) => {
                let d = limit(*d);
                return one(t, move || {
                    let x = $Tr::$depth(v, d);
                    Some(har(|| $flat(t, x)))
                });
            }
            ([Stage::Map(s)], Term::Collect) => {
                let s = *s;
                return one(t, move || {
                    let x = $Tr::$map(v, |x: $V| map_cl(t, 0, s, x, None));
                    Some(har(|| $flat(t, x)))
                });
            }
            ([Stage::MapPath(s)], Term::Collect) => {
                let s = *s;
                return one(t, move || {
                    let x = $Tr::$map_path(v, |q, x: $V| map_cl(t, 0, s, x, Some(q)));
                    Some(har(|| $flat(t, x)))
                });
            }
            ([], Term::Fold) => {
                return one(t, move || {
                    let r = $Tr::$fold(v, |k, x: $V| fold_cl(t, $some(k), None, x));
                    Some(har(|| flat_r(r, $bin)))
                })
            }
            ([], Term::FoldPath) => {
                return one(t, move || {
                    let r = $Tr::$fold_path(v, |k, q, x: $V| fold_cl(t, $some(k), Some(q), x));
                    Some(har(|| flat_r(r, $bin)))
                })
            }
            _ => v,
        }
    }};
}
macro_rules! conv_each {
    ($v:expr, $t:expr, $stages:expr, $term:expr, $V:ty, $flat:ident, $some:ident, $bin:expr, $Tr:ident,
     $prune:ident, $prune_path:ident, [$($depth:tt)*], $map:ident, [$($map_path:ident)?], $fold:ident, $fold_path:ident) => {{
        let (v, t) = ($v, $t);
        match (&$stages[..], $term) {
            ([Stage::Prune(s, c)], Term::Collect) => {
                let (s, c) = (*s, *c);
                return many(t, $Tr::$prune(v, move |x: &$V| prune_cl(t, 0, s, c, x, None)), move |x| $flat(t, x));
            }
            ([Stage::PrunePath(s, c)], Term::Collect) => {
                let (s, c) = (*s, *c);
                return many(t, $Tr::$prune_path(v, move |q: &[usize], x: &$V| prune_cl(t, 0, s, c, x, Some(q))), move |x| $flat(t, x));
            }
            ([Stage::Depth(d)], Term::Collect) => {
                let d = limit(*d);
                return many(t, $Tr::$($depth)*(v, d), move |x| $flat(t, x));
            }
            ([Stage::Map(s)], Term::Collect) => {
                let s = *s;
                return many(t, $Tr::$map(v, move |x: $V| map_cl(t, 0, s, x, None)), move |x| $flat(t, x));
            }
            $(([Stage::MapPath(s)], Term::Collect) => {
                let s = *s;
                return many(t, $Tr::$map_path(v, move |q: &[usize], x: $V| map_cl(t, 0, s, x, Some(q))), move |x| $flat(t, x));
            })?
            ([], Term::Fold) => return many(t, $Tr::$fold(v, move |k, x: $V| fold_cl(t, $some(k), None, x)), |r| flat_r(r, $bin)),
            ([], Term::FoldPath) => {
                return many(t, $Tr::$fold_path(v, move |k, q: &[usize], x: $V| fold_cl(t, $some(k), Some(q), x)), |r| flat_r(r, $bin))
            }
            _ => v,
        }
    }};
}
/// `match` arms that try the convenience and otherwise give the value back.
macro_rules! family {
    ($m:ident, $n:ty, $bin:expr, $flat:ident, $some:ident, $one:ident, $oneM:ident, $oneR:ident, $each:ident, $eachM:ident, $eachR:ident, $full:ident, $fullc:ident, $leanc:ident,
     [$($odepth:tt)*], [$($omap_path:ident)?]) => {
        pub mod $m {
            use super::*;
            type N = $n;
            pub fn owned(mut v: Vec<N>, t: usize, src: Src, stages: &[Stage], term: Term, conv: bool) -> B {
                fn each<S: $each<N> + 'static>(v: S, t: usize, stages: &[Stage], term: Term, conv: bool, go: impl FnOnce(S) -> B) -> B {
                    let v = if conv {
                        conv_each!(v, t, stages, term, Val, $flat, $some, $bin, $each, prune_each, prune_path_each, [$($odepth)*], map_each, [$($omap_path)?], fold_each, fold_path_each)
                    } else {
                        v
                    };
                    go(v)
                }
                match src {
                    Src::One => {
                        let n = har(|| v.swap_remove(0));
                        drop(v);
                        let n = if conv {
                            conv_single!(n, t, stages, term, Val, $flat, $some, $bin, $one, prune, prune_path, prune_depth, map, map_path, fold, fold_path)
                        } else {
                            n
                        };
                        begin(Box::new($full($one::into_pipeline(n), PhantomData)), t, stages, term)
                    }
                    Src::Vec => each(v, t, stages, term, conv, |v| begin(Box::new($leanc($each::into_pipeline(v), PhantomData)), t, stages, term)),
                    Src::Arr => match <[N; 2]>::try_from(v) {
                        Ok(a) => each(a, t, stages, term, conv, |v| begin(Box::new($leanc($each::into_pipeline(v), PhantomData)), t, stages, term)),
                        Err(v) => each(v, t, stages, term, conv, |v| begin(Box::new($leanc($each::into_pipeline(v), PhantomData)), t, stages, term)),
                    },
                    Src::Hook(k) => each(HookSrc { it: v.into_iter(), left: k }, t, stages, term, conv, |v| begin(Box::new($fullc($each::into_pipeline(v), PhantomData)), t, stages, term)),
                }
            }
            pub fn muts(v: &'static mut Vec<N>, t: usize, src: Src, stages: &[Stage], term: Term, conv: bool) -> B {
                fn each<S: $eachM<'static, N> + 'static>(v: S, t: usize, stages: &[Stage], term: Term, conv: bool, go: impl FnOnce(S) -> B) -> B {
                    let v = if conv {
                        conv_each!(v, t, stages, term, &'static mut Val, $flat, $some, $bin, $eachM, prune_each_mut, prune_path_each_mut, [prune_depth_each_mut], map_each_mut, [map_path_each_mut], fold_each_mut, fold_path_each_mut)
                    } else {
                        v
                    };
                    go(v)
                }
                match src {
                    Src::One => {
                        let n = &mut v[0];
                        let n = if conv {
                            conv_single!(n, t, stages, term, &'static mut Val, $flat, $some, $bin, $oneM, prune_mut, prune_path_mut, prune_depth_mut, map_mut, map_path_mut, fold_mut, fold_path_mut)
                        } else {
                            n
                        };
                        begin(Box::new($full($oneM::into_pipeline_mut(n), PhantomData)), t, stages, term)
                    }
                    Src::Vec => each(v, t, stages, term, conv, |v| begin(Box::new($leanc($eachM::into_pipeline_mut(v), PhantomData)), t, stages, term)),
                    Src::Arr => each(v.iter_mut(), t, stages, term, conv, |v| begin(Box::new($leanc($eachM::into_pipeline_mut(v), PhantomData)), t, stages, term)),
                    Src::Hook(k) => each(HookSrc { it: v.iter_mut(), left: k }, t, stages, term, conv, |v| begin(Box::new($fullc($eachM::into_pipeline_mut(v), PhantomData)), t, stages, term)),
                }
            }
            pub fn refs(v: &'static Vec<N>, t: usize, src: Src, stages: &[Stage], term: Term, conv: bool) -> B {
                fn each<S: $eachR<'static, N> + 'static>(v: S, t: usize, stages: &[Stage], term: Term, conv: bool, go: impl FnOnce(S) -> B) -> B {
                    let v = if conv {
                        conv_each!(v, t, stages, term, &'static Val, $flat, $some, $bin, $eachR, prune_each_ref, prune_path_each_ref, [prune_depth_each_ref], map_each_ref, [map_path_each_ref], fold_each_ref, fold_path_each_ref)
                    } else {
                        v
                    };
                    go(v)
                }
                match src {
                    Src::One => {
                        let n = &v[0];
                        let n = if conv {
                            conv_single!(n, t, stages, term, &'static Val, $flat, $some, $bin, $oneR, prune_ref, prune_path_ref, prune_depth_ref, map_ref, map_path_ref, fold_ref, fold_path_ref)
                        } else {
                            n
                        };
                        begin(Box::new($full($oneR::into_pipeline_ref(n), PhantomData)), t, stages, term)
                    }
                    Src::Vec => each(v, t, stages, term, conv, |v| begin(Box::new($leanc($eachR::into_pipeline_ref(v), PhantomData)), t, stages, term)),
                    Src::Arr => each(v.iter(), t, stages, term, conv, |v| begin(Box::new($leanc($eachR::into_pipeline_ref(v), PhantomData)), t, stages, term)),
                    Src::Hook(k) => each(HookSrc { it: v.iter(), left: k }, t, stages, term, conv, |v| begin(Box::new($fullc($eachR::into_pipeline_ref(v), PhantomData)), t, stages, term)),
                }
            }
        }
    };
}
family!(tree, Tree<Val>, false, flat_t, some_v, OwnedTreeNode, MutBorrowedTreeNode, BorrowedTreeNode, OwnedIntoIteratorOfTrees, MutBorrowedIntoIteratorOfTrees, BorrowedIntoIteratorOfTrees, FullN, FullNC, LeanNC,
    [prune_depth_each::<()>], [map_path_each]);
family!(xnode, XNode, false, flat_t, some_v, OwnedTreeNode, MutBorrowedTreeNode, BorrowedTreeNode, OwnedIntoIteratorOfTrees, MutBorrowedIntoIteratorOfTrees, BorrowedIntoIteratorOfTrees, FullN, FullNC, LeanNC,
    [prune_depth_each::<()>], [map_path_each]);
family!(bintree, BinaryTree<Val>, true, flat_b, some_a, OwnedBinaryTreeNode, MutBorrowedBinaryTreeNode, BorrowedBinaryTreeNode, OwnedIntoIteratorOfBinaryTrees, MutBorrowedIntoIteratorOfBinaryTrees, BorrowedIntoIteratorOfBinaryTrees, FullB, FullBC, LeanBC,
    [prune_depth_each], []);
family!(xbin, XBin, true, flat_b, some_a, OwnedBinaryTreeNode, MutBorrowedBinaryTreeNode, BorrowedBinaryTreeNode, OwnedIntoIteratorOfBinaryTrees, MutBorrowedIntoIteratorOfBinaryTrees, BorrowedIntoIteratorOfBinaryTrees, FullB, FullBC, LeanBC,
    [prune_depth_each], []);

// ---------------------------------------------------------------- judging
fn first_diff<T: PartialEq>(a: &[T], b: &[T]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}
pub unsafe fn judge(e: *mut Exec, t: usize) {
    let _h = Har::enter();
    let repr = (&(*e).slots)[(&(*e).tasks)[t].spec.tree].repr;
    let ts = &mut (&mut (*e).tasks)[t];
    let cfg = cfg_of(ts, repr);
    let mutable = ts.spec.own == Own::Mut;
    let fault = with(|w| w.fault_happened);
    let p = match ts.pipe.as_mut() {
        Some(p) => p,
        None => return,
    };
    let add = |mut v: Vec<&'static str>| {
        if p.coll {
            v.push("C07");
        }
        if mutable {
            v.push("C12");
        }
        if fault {
            v.push("C11");
        }
        v
    };
    let c8 = add(vec!["C08"]);
    let c9 = add(vec!["C09"]);
    let desc = format!("{:?} then {:?} ({cfg})", p.stages, p.term);
    let mut bad = false;
    let stepping = matches!(p.term, Term::Step | Term::StepPrune(_));
    let total = p.total();
    let left = total.saturating_sub(p.hint_at);
    if ts.obs.hint.0 > left || ts.obs.hint.1.is_some_and(|u| u < left) {
        issue(&c8, format!("pipe-size-hint/{cfg}"), format!("size_hint() said {:?} with {left} results left; {desc}", ts.obs.hint));
        bad = true;
    }
    if ts.obs.some {
        (*e).probes.pipe_outs += 1;
        if p.got >= total {
            issue(&c8, format!("pipe-extra/{cfg}"), format!("a result after the last of {total}: {:?}; {desc}", ts.obs.anc.first().map(|s| s.root)));
            bad = true;
        } else if stepping {
            let (id, mark, path, depth, _) = &p.x_yield[p.got];
            let s = ts.obs.anc[0];
            if s.root != *id {
                issue(&c8, format!("pipe-wrong-element/{cfg}"), format!("element {} is value {} instead of {id}; {desc}", p.got, s.root));
                bad = true;
            } else if s.mark != *mark {
                issue(&c8, format!("pipe-wrong-value/{cfg}"), format!("value {id} arrives as {} instead of {mark}; {desc}", s.mark));
                bad = true;
            }
            let got = ts.obs.path.take().unwrap_or_default();
            let gp = if p.light { vec![got.len()] } else { got };
            if !bad && !p.bulk && gp != *path {
                issue(&c9, format!("pipe-wrong-path/{cfg}"), format!("current path of value {id} is {gp:?} instead of {path:?}; {desc}"));
                bad = true;
            }
            if !bad && !p.bulk && ts.obs.depth != *depth {
                issue(&c9, format!("pipe-wrong-depth/{cfg}"), format!("current depth of value {id} is {} instead of {depth}; {desc}", ts.obs.depth));
                bad = true;
            }
        } else {
            let want = &p.x_out[p.got];
            let got = p.outs.pop().unwrap_or_default();
            let strip = |f: &[Flat]| f.iter().map(|f| (f.id, f.shape)).collect::<Vec<_>>();
            if strip(want) != strip(&got) {
                let i = first_diff(&strip(want), &strip(&got));
                issue(&c8, format!("pipe-wrong-result/{cfg}"), format!("result {} has {} nodes instead of {}; first difference at preorder {i}: (value, children) {:?} instead of {:?}; {desc}", p.got, got.len(), want.len(), got.get(i).map(|f| (f.id, f.shape)), want.get(i).map(|f| (f.id, f.shape))));
                bad = true;
            } else if let Some((w, g)) = want.iter().zip(&got).find(|(w, g)| w.mark != g.mark) {
                issue(&c8, format!("pipe-wrong-value/{cfg}"), format!("value {} arrives as {} instead of {}; {desc}", w.id, g.mark, w.mark));
                bad = true;
            } else if let Some((w, g)) = want.iter().zip(&got).find(|(w, g)| w.path != g.path) {
                issue(&c9, format!("pipe-wrong-path/{cfg}"), format!("fold closure got path {:?} for value {} instead of {:?}; {desc}", g.path, w.id, w.path));
                bad = true;
            }
        }
        p.got += 1;
    } else {
        ts.ended = true;
        (*e).probes.ends += 1;
        if p.got < total {
            issue(&c8, format!("pipe-ended-early/{cfg}"), format!("{} results instead of {total}; {desc}", p.got));
            bad = true;
        }
    }
    // closure calls: a prefix of the reference's, complete at the end
    if !bad {
        for (i, (got, want)) in p.calls.iter().zip(&p.x_calls).enumerate() {
            let c = p.checked[i].min(got.len()).min(want.len());
            let k = c + first_diff(&got[c..], &want[c..]);
            p.checked[i] = k;
            let complete = ts.ended || (!p.coll && !stepping);
            if k < got.len() {
                let (g, w) = (&got[k], want.get(k));
                let tag = if w.is_some_and(|w| w.id == g.id) { &c9 } else { &c8 };
                let sig = if w.is_some_and(|w| w.id == g.id) { "closure-path" } else { "closure-call" };
                issue(tag, format!("{sig}/{cfg}"), format!("call {k} of stage {i} got {g:?} instead of {w:?}; {desc}"));
                bad = true;
                break;
            } else if complete && k < want.len() {
                issue(&c8, format!("closure-missed/{cfg}"), format!("stage {i} was called {} times instead of {}; {desc}", got.len(), want.len()));
                bad = true;
                break;
            }
        }
        if !bad && ts.ended && matches!(p.term, Term::Fold | Term::FoldPath) && p.fold_calls != p.x_yield.len() {
            issue(&c8, format!("fold-calls/{cfg}"), format!("fold closure was called {} times for {} nodes; {desc}", p.fold_calls, p.x_yield.len()));
            bad = true;
        }
    }
    // demand-drivenness
    if !bad && (!p.bulk || ts.ended) && matches!(repr, Repr::X | Repr::D | Repr::XB) {
        // seam log of this very step first
        for (tt, id) in with(|w| w.expanded.clone()) {
            if tt as usize == t {
                let log = &mut ts.exp_log;
                ts.expanded.entry(id).or_insert_with(|| {
                    log.push(id);
                    0
                });
            }
        }
        let allowed = if p.bulk || ts.ended || (!p.coll && !stepping) {
            p.base.len()
        } else if stepping {
            p.x_yield[p.got - 1].4
        } else {
            // results of a collection may look at the next surviving root
            p.roots_at.get(p.got).copied().unwrap_or(p.base.len())
        };
        let fresh = &ts.exp_log[p.exp_seen..];
        p.exp_seen = ts.exp_log.len();
        if let Some(x) = fresh.iter().filter(|k| !p.base_ix.get(k).is_some_and(|i| *i < allowed)).min() {
            issue(&["C14"], format!("pipe-eager/{cfg}"), format!("the node holding value {x} was asked for its children although the pipeline had not reached it or it lies below a pruned node; {desc}"));
            bad = true;
        }
    }
    if bad {
        ts.failed = true;
    }
}

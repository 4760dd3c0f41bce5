//! The library's own node types holding other value types (zero-sized, one byte, large and
//! over-aligned, with a niche): the same guarantees, judged by the same reference model.
use crate::exec::*;
use crate::model::*;
use crate::plan::*;
use crate::world::*;
use std::borrow::Borrow;
use streaming_iterator::StreamingIterator;
use tree_iterators_rs::prelude::*;

trait KVal: Clone + PartialEq + 'static {
    fn mk(id: u32) -> Self;
    fn id(&self) -> u32;
    /// what `mk(id).id()` keeps of an id
    fn keep(id: u32) -> u32 {
        Self::mk(id).id()
    }
    const NAME: &'static str;
}
impl KVal for () {
    fn mk(_: u32) {}
    fn id(&self) -> u32 {
        0
    }
    const NAME: &'static str = "unit";
}
impl KVal for u8 {
    fn mk(id: u32) -> u8 {
        id as u8
    }
    fn id(&self) -> u32 {
        *self as u32
    }
    const NAME: &'static str = "byte";
}
#[repr(align(128))]
#[derive(Clone, PartialEq)]
pub struct Big([u32; 50]);
impl KVal for Big {
    fn mk(id: u32) -> Big {
        let mut b = [!id; 50];
        b[0] = id;
        b[49] = id;
        Big(b)
    }
    fn id(&self) -> u32 {
        // an over-aligned value must be where such values live, whole
        let ok = (self as *const Big as usize) % 128 == 0 && self.0[49] == self.0[0] && self.0[1..49].iter().all(|x| *x == !self.0[0]);
        if ok { self.0[0] } else { u32::MAX }
    }
    const NAME: &'static str = "big";
}
type Niche = Option<Box<u32>>;
impl KVal for Niche {
    fn mk(id: u32) -> Niche {
        if id % 3 == 0 { None } else { Some(Box::new(id)) }
    }
    fn id(&self) -> u32 {
        self.as_deref().copied().unwrap_or(0)
    }
    const NAME: &'static str = "niche";
}
fn vid<T: KVal>(v: &impl Borrow<T>) -> u32 {
    v.borrow().id()
}
fn vids<T: KVal, V: Borrow<T>>(v: &[V]) -> Vec<u32> {
    v.iter().map(vid::<T>).collect()
}
#[derive(PartialEq, Debug, Clone)]
struct Rec {
    ids: Vec<u32>,
    path: Option<Vec<usize>>,
    depth: Option<usize>,
    extra: u32,
}
fn rec(ids: Vec<u32>) -> Rec {
    Rec { ids, path: None, depth: None, extra: 0 }
}
fn ctx_rec<T: KVal, V: Borrow<T>, C>(c: &TreeContext<V, C>) -> Rec {
    Rec { ids: vids::<T, V>(c.ancestors()), path: Some(c.path().to_vec()), depth: Some(c.depth()), extra: 0 }
}
fn build_n<T: KVal>(m: &Model, n: u32) -> Tree<T> {
    let mut children = vec![];
    for k in m.kids(n) {
        children.push(build_n(m, k));
    }
    Tree { value: T::mk(n), children }
}
fn build_b<T: KVal>(m: &Model, n: u32) -> BinaryTree<T> {
    let k = &m.nodes[n as usize].kids;
    let side = |i: usize| k[i].map(|c| Box::new(build_b(m, c)));
    BinaryTree { value: T::mk(n), left: side(0), right: side(1) }
}
fn cut(seed: u64, path: &[usize]) -> bool {
    path.iter().fold(seed, |h, p| h64(h, *p as u64)) % 4 == 0
}
/// Preorder of a result tree: value, path the mapping closure saw, shape.
fn read_n(t: &Tree<(Vec<usize>, u32)>, out: &mut Vec<Rec>) {
    out.push(Rec { ids: vec![t.value.1], path: Some(t.value.0.clone()), depth: None, extra: t.children.len() as u32 });
    for c in &t.children {
        read_n(c, out);
    }
}
fn read_b(t: &BinaryTree<(Vec<usize>, u32)>, out: &mut Vec<Rec>) {
    out.push(Rec { ids: vec![t.value.1], path: Some(t.value.0.clone()), depth: None, extra: t.left.is_some() as u32 | (t.right.is_some() as u32) << 1 });
    for c in [&t.left, &t.right].into_iter().flatten() {
        read_b(c, out);
    }
}
fn all_ids_n<T: KVal>(t: &Tree<T>, out: &mut Vec<u32>) {
    out.push(t.value.id());
    t.children.iter().for_each(|c| all_ids_n(c, out));
}
fn all_ids_b<T: KVal>(t: &BinaryTree<T>, out: &mut Vec<u32>) {
    out.push(t.value.id());
    [&t.left, &t.right].into_iter().flatten().for_each(|c| all_ids_b(c, out));
}

#[derive(Clone, Copy)]
struct K {
    order: Order,
    mode: u8,
    at: usize,
    seed: u64,
}
macro_rules! plain_then_leaves {
    ($out:ident, $k:ident, $it:expr, $T:ident, $V:ty, $put:ident) => {{
        let mut it = $it;
        let mut held: Vec<$V> = vec![];
        while held.len() < $k.at {
            match it.next() {
                Some(v) => held.push(v),
                None => break,
            }
        }
        held.extend(it.leaves());
        $out.extend(held.iter().map(|v| rec(vec![vid::<$T>(v)])));
        $put!(held, $T);
    }};
}
macro_rules! all_of {
    ($out:ident, $it:expr, $T:ident, $V:ty, $put:ident) => {{
        let held: Vec<$V> = $it.collect();
        $out.extend(held.iter().map(|v| rec(vec![vid::<$T>(v)])));
        $put!(held, $T);
    }};
}
macro_rules! ctx_all {
    ($out:ident, $it:expr, $T:ident) => {{
        let mut it = $it;
        while let Some(c) = it.next() {
            $out.push(ctx_rec::<$T, _, _>(c));
        }
    }};
}
macro_rules! anc_then_leaves {
    ($out:ident, $k:ident, $it:expr, $T:ident) => {{
        let mut it = $it;
        let mut n = 0;
        let mut over = false;
        while n < $k.at {
            match it.next() {
                Some(a) => $out.push(rec(vids::<$T, _>(a))),
                None => {
                    over = true;
                    break;
                }
            }
            n += 1;
        }
        if !over {
            let mut it = it.leaves();
            while let Some(a) = it.next() {
                $out.push(rec(vids::<$T, _>(a)));
            }
        }
    }};
}
macro_rules! put_no {
    ($h:ident, $T:ident) => {
        drop($h)
    };
}
/// all mutable references are used again, in yield order, after the traversal ended
macro_rules! put_all {
    ($h:ident, $T:ident) => {
        for v in $h {
            let id = v.id();
            *v = <$T>::mk(id ^ 0x40);
        }
    };
}
macro_rules! kfam {
    ($m:ident, $N:ident, $V:ty, $src:ident, $all:ty, $put:ident, $rd:ident,
     $pre:ident, $post:ident, $bfs:ident, $pipe:ident, $pre_e:ident, $post_e:ident, $bfs_e:ident, [$($in_:ident, $in_e:ident)?]) => {
        fn $m<'a, T: KVal>($src: $all, k: K) -> Vec<Rec> {
            let mut out: Vec<Rec> = vec![];
            match (k.mode, k.order) {
                (0, Order::Pre) => plain_then_leaves!(out, k, $src.into_iter().next().unwrap().$pre(), T, $V, $put),
                (0, Order::Post) => plain_then_leaves!(out, k, $src.into_iter().next().unwrap().$post(), T, $V, $put),
                (0, Order::Bfs) => plain_then_leaves!(out, k, $src.into_iter().next().unwrap().$bfs(), T, $V, $put),
                $((0, Order::In) => plain_then_leaves!(out, k, $src.into_iter().next().unwrap().$in_(), T, $V, $put),)?
                (1, Order::Pre) => ctx_all!(out, $src.into_iter().next().unwrap().$pre().attach_context(), T),
                (1, Order::Post) => ctx_all!(out, $src.into_iter().next().unwrap().$post().attach_context(), T),
                (1, Order::Bfs) => ctx_all!(out, $src.into_iter().next().unwrap().$bfs().attach_context(), T),
                $((1, Order::In) => ctx_all!(out, $src.into_iter().next().unwrap().$in_().attach_context(), T),)?
                (2, Order::Pre) => anc_then_leaves!(out, k, $src.into_iter().next().unwrap().$pre().attach_ancestors(), T),
                (2, Order::Post) => anc_then_leaves!(out, k, $src.into_iter().next().unwrap().$post().attach_ancestors(), T),
                (2, Order::Bfs) => anc_then_leaves!(out, k, $src.into_iter().next().unwrap().$bfs().attach_ancestors(), T),
                $((2, Order::In) => anc_then_leaves!(out, k, $src.into_iter().next().unwrap().$in_().attach_ancestors(), T),)?
                (3, _) => {
                    let p = $src.into_iter().next().unwrap().$pipe().prune_path(|p: &[usize], _: &$V| cut(k.seed, p)).map_path(|p: &[usize], v: $V| (p.to_vec(), vid::<T>(&v)));
                    if let Some(t) = p.collect_tree() {
                        $rd(&t, &mut out);
                    }
                }
                (4, _) => {
                    let p = $src.into_iter().next().unwrap().$pipe().prune_path(|p: &[usize], _: &$V| cut(k.seed, p));
                    let r = p.fold_path(|kids: kfam!(@acc $rd), p: &[usize], v: $V| {
                        // postorder list of what was folded
                        let mut l: Vec<Rec> = vec![];
                        let mut n = 0;
                        for (i, kid) in kids.into_iter().enumerate() {
                            n += kfam!(@take $rd l kid i);
                        }
                        l.push(Rec { ids: vec![vid::<T>(&v)], path: Some(p.to_vec()), depth: None, extra: n });
                        l
                    });
                    out = r.unwrap_or_default();
                }
                (5, Order::Pre) => all_of!(out, $src.$pre_e(), T, $V, $put),
                (5, Order::Post) => all_of!(out, $src.$post_e(), T, $V, $put),
                (5, Order::Bfs) => all_of!(out, $src.$bfs_e(), T, $V, $put),
                $((5, Order::In) => all_of!(out, $src.$in_e(), T, $V, $put),)?
                (6, Order::Pre) => ctx_all!(out, $src.$pre_e().attach_context(), T),
                (6, Order::Post) => ctx_all!(out, $src.$post_e().attach_context(), T),
                (6, Order::Bfs) => ctx_all!(out, $src.$bfs_e().attach_context(), T),
                $((6, Order::In) => ctx_all!(out, $src.$in_e().attach_context(), T),)?
                _ => {}
            }
            out
        }
    };
    (@acc read_n) => { Vec<Vec<Rec>> };
    (@acc read_b) => { [Option<Vec<Rec>>; 2] };
    (@take read_n $l:ident $kid:ident $i:ident) => {{ $l.extend($kid); let _ = $i; 1u32 }};
    (@take read_b $l:ident $kid:ident $i:ident) => {{ let s = $kid.is_some() as u32; $l.extend($kid.into_iter().flatten()); s << $i }};
}
kfam!(no, Tree, T, v, Vec<Tree<T>>, put_no, read_n, dfs_preorder, dfs_postorder, bfs, into_pipeline, dfs_preorder_each, dfs_postorder_each, bfs_each, []);
kfam!(nm, Tree, &'a mut T, v, &'a mut Vec<Tree<T>>, put_all, read_n, dfs_preorder_iter_mut, dfs_postorder_iter_mut, bfs_iter_mut, into_pipeline_mut, dfs_preorder_each_iter_mut, dfs_postorder_each_iter_mut, bfs_each_iter_mut, []);
kfam!(nr, Tree, &'a T, v, &'a Vec<Tree<T>>, put_no, read_n, dfs_preorder_iter, dfs_postorder_iter, bfs_iter, into_pipeline_ref, dfs_preorder_each_iter, dfs_postorder_each_iter, bfs_each_iter, []);
kfam!(bo, BinaryTree, T, v, Vec<BinaryTree<T>>, put_no, read_b, dfs_preorder, dfs_postorder, bfs, into_pipeline, dfs_preorder_each, dfs_postorder_each, bfs_each, [dfs_inorder, dfs_inorder_each]);
kfam!(bm, BinaryTree, &'a mut T, v, &'a mut Vec<BinaryTree<T>>, put_all, read_b, dfs_preorder_iter_mut, dfs_postorder_iter_mut, bfs_iter_mut, into_pipeline_mut, dfs_preorder_each_iter_mut, dfs_postorder_each_iter_mut, bfs_each_iter_mut, [dfs_inorder_iter_mut, dfs_inorder_each_iter_mut]);
kfam!(br, BinaryTree, &'a T, v, &'a Vec<BinaryTree<T>>, put_no, read_b, dfs_preorder_iter, dfs_postorder_iter, bfs_iter, into_pipeline_ref, dfs_preorder_each_iter, dfs_postorder_each_iter, bfs_each_iter, [dfs_inorder_iter, dfs_inorder_each_iter]);

/// What the reference model says each mode records.
fn expect<T: KVal>(m: &Model, bin: bool, k: K) -> Vec<Rec> {
    let id = |n: u32| T::keep(n);
    let coll = k.mode >= 5;
    let ord = m.order(if k.mode == 3 { Order::Pre } else if k.mode == 4 { Order::Post } else { k.order }, if coll { Src::Vec } else { Src::One });
    let anc = |n: u32| rec(m.ancestors(n).into_iter().map(id).collect());
    let tail = |n: u32, i: usize| i < k.at || m.leaf(n);
    match k.mode {
        0 => ord.iter().enumerate().filter(|(i, n)| tail(**n, *i)).map(|(_, n)| rec(vec![id(*n)])).collect(),
        2 => ord.iter().enumerate().filter(|(i, n)| tail(**n, *i)).map(|(_, n)| anc(*n)).collect(),
        5 => ord.iter().map(|n| rec(vec![id(*n)])).collect(),
        1 | 6 => ord
            .iter()
            .map(|n| {
                let mut r = anc(*n);
                let mut p = m.path(*n);
                r.depth = Some(p.len());
                if coll {
                    p.insert(0, m.root_index(*n));
                }
                r.path = Some(p);
                r
            })
            .collect(),
        _ => {
            let keep = |n: u32| (0..=m.path(n).len()).all(|l| !cut(k.seed, &m.path(n)[..l]));
            let mut out = vec![];
            for n in ord.iter().copied().filter(|n| keep(*n)) {
                let mut extra = 0;
                for (i, c) in m.nodes[n as usize].kids.iter().enumerate() {
                    if c.is_some_and(keep) {
                        extra += if bin { 1 << i } else { 1 };
                    }
                }
                // reported positions are those among the siblings that are left
                let mut path = m.path(n);
                if !bin {
                    let full = path.clone();
                    for l in 0..full.len() {
                        let up = m.at(m.roots[0], &full[..l]).unwrap();
                        path[l] = m.kids(up).take(full[l]).filter(|c| keep(*c)).count();
                    }
                }
                out.push(Rec { ids: vec![id(n)], path: Some(path), depth: None, extra });
            }
            out
        }
    }
}
fn go<T: KVal>(f: &Forest, own: Own, k: K, pr: &mut Probes) {
    let m = Model::from_forest(f);
    let bin = f.repr.bin();
    let want = expect::<T>(&m, bin, k);
    let cfg = format!("{}/{own:?}/{:?}/{}/{}", T::NAME, k.order, ["plain", "ctx", "anc", "collect", "fold", "each", "each-ctx"][k.mode as usize], if bin { "binary" } else { "nary" }).to_lowercase();
    let all = k.at >= m.nodes.len();
    let mut tags: Vec<&str> = match k.mode {
        0 if all => vec!["C01"],
        0 => vec!["C04"],
        1 => vec!["C03"],
        2 if all => vec!["C02"],
        2 => vec!["C05"],
        5 => vec!["C01", "C07"],
        6 => vec!["C03", "C07"],
        _ => vec!["C08", "C09"],
    };
    if own == Own::Mut {
        tags.push("C12");
    }
    let mut after: Option<Vec<u32>> = None;
    let order: Vec<u32> = m.order(Order::Pre, Src::Vec);
    let r = guarded(|| {
        if bin {
            let mut v: Vec<BinaryTree<T>> = m.roots.iter().map(|r| build_b(&m, *r)).collect();
            match own {
                Own::Owned => bo::<T>(v, k),
                Own::Mut => {
                    let r = bm::<T>(&mut v, k);
                    let mut a = vec![];
                    v.iter().for_each(|t| all_ids_b(t, &mut a));
                    after = Some(a);
                    r
                }
                Own::Ref => br::<T>(&v, k),
            }
        } else {
            let mut v: Vec<Tree<T>> = m.roots.iter().map(|r| build_n(&m, *r)).collect();
            match own {
                Own::Owned => no::<T>(v, k),
                Own::Mut => {
                    let r = nm::<T>(&mut v, k);
                    let mut a = vec![];
                    v.iter().for_each(|t| all_ids_n(t, &mut a));
                    after = Some(a);
                    r
                }
                Own::Ref => nr::<T>(&v, k),
            }
        }
    });
    match r {
        Caught::Ok(got) => {
            pr.kinds += 1;
            log(got.len() as u64);
            if got != want {
                let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                issue(&tags, format!("kinds-wrong/{cfg}"), format!("{} results instead of {}; number {i} is {:?} instead of {:?} ({cfg})", got.len(), want.len(), got.get(i), want.get(i)));
            } else if let Some(a) = after {
                // every value reached in a plain mutable traversal was overwritten once
                let hit: std::collections::BTreeSet<u32> = match k.mode {
                    0 => m.order(k.order, Src::One).into_iter().enumerate().filter(|(i, n)| *i < k.at || m.leaf(*n)).map(|x| x.1).collect(),
                    5 => order.iter().copied().collect(),
                    _ => Default::default(),
                };
                let w: Vec<u32> = order
                    .iter()
                    .map(|n| {
                        let id = T::keep(*n);
                        if hit.contains(n) { T::keep(id ^ 0x40) } else { id }
                    })
                    .collect();
                if a != w {
                    issue(&["C12"], format!("kinds-write/{cfg}"), format!("writes through the yielded references left {a:?} instead of {w:?} ({cfg})"));
                }
            }
        }
        Caught::Library(e) => issue(&tags, format!("kinds-panic/{cfg}"), format!("{e} ({cfg})")),
        Caught::Budget => issue(&tags, format!("kinds-unbounded/{cfg}"), format!("does not terminate ({cfg})")),
        Caught::Injected => {}
    }
}
pub fn run(sp: &Special, pr: &mut Probes) {
    let Special::Kinds { tree, val, own, order, mode, at, seed } = sp else { unreachable!() };
    let order = if !tree.repr.bin() && *order == Order::In { Order::Pre } else { *order };
    let k = K { order, mode: *mode % 7, at: *at as usize, seed: *seed };
    match val % 4 {
        0 => go::<()>(tree, *own, k, pr),
        1 => go::<u8>(tree, *own, k, pr),
        2 => go::<Big>(tree, *own, k, pr),
        _ => go::<Niche>(tree, *own, k, pr),
    }
}

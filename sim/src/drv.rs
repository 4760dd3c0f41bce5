//! Uniform drivers over the library's iterator objects. Each driver holds the real iterator and
//! performs exactly one library call per operation.
use crate::model::Model;
use crate::nodes::*;
use crate::world::*;
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::*;

pub type B = Box<dyn Drv>;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    Plain,
    Ctx,
    Anc,
    Leaves,
    AncLeaves,
    Pipe,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Conv {
    Leaves,
    Ctx,
    Anc,
}
/// What one step exposed.
#[derive(Default)]
pub struct Obs {
    pub some: bool,
    /// root..current when the mode has ancestors, else just the current value
    pub anc: Vec<Seen>,
    pub addr: Vec<usize>,
    pub path: Option<Vec<usize>>,
    pub depth: usize,
    /// None: children not exposed by this type
    pub kids: Option<Vec<Option<Seen>>>,
    pub taken: Option<Held>,
    pub note: Option<String>,
    pub hint: (usize, Option<usize>),
}
impl Obs {
    pub fn clear(&mut self) {
        self.some = false;
        self.anc.clear();
        self.addr.clear();
        self.path = None;
        self.depth = 0;
        self.kids = None;
        self.taken = None;
        self.note = None;
        self.hint = (0, None);
    }
}
pub enum Held {
    Own(Val),
    Mut(&'static mut Val),
    Ref(&'static Val),
}
pub trait ValLike: Sized + 'static {
    fn v(&self) -> &Val;
    fn wr(&mut self, mark: u32) -> bool;
    fn held(self) -> Held;
    fn exchange(_s: &mut [Self], _i: usize, _j: usize, _fresh: &mut Option<Val>) -> bool {
        false
    }
}
impl ValLike for Val {
    fn exchange(s: &mut [Val], i: usize, _j: usize, fresh: &mut Option<Val>) -> bool {
        std::mem::swap(&mut s[i], fresh.as_mut().unwrap());
        true
    }
    fn v(&self) -> &Val {
        self
    }
    fn wr(&mut self, mark: u32) -> bool {
        self.mark = mark;
        true
    }
    fn held(self) -> Held {
        Held::Own(self)
    }
}
impl ValLike for &'static mut Val {
    fn exchange(s: &mut [Self], i: usize, j: usize, _fresh: &mut Option<Val>) -> bool {
        s.swap(i, j);
        true
    }
    fn v(&self) -> &Val {
        self
    }
    fn wr(&mut self, mark: u32) -> bool {
        if self.rd().ok {
            self.mark = mark;
        }
        true
    }
    fn held(self) -> Held {
        Held::Mut(self)
    }
}
impl ValLike for &'static Val {
    fn v(&self) -> &Val {
        self
    }
    fn wr(&mut self, _: u32) -> bool {
        false
    }
    fn held(self) -> Held {
        Held::Ref(self)
    }
}
impl Held {
    pub fn v(&self) -> &Val {
        match self {
            Held::Own(v) => v,
            Held::Mut(v) => v,
            Held::Ref(v) => v,
        }
    }
}

/// An edit of the current node's children. `sub` is a model node to build and insert.
#[derive(Clone, Debug)]
pub enum Action {
    Insert { pos: usize, sub: u32 },
    Remove { pos: usize },
    Swap { a: usize, b: usize },
    /// put a fresh subtree in place of an existing child
    Replace { pos: usize, sub: u32 },
    Clear,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EditRes {
    /// not possible through this type
    No,
    /// done, the underlying tree changed too
    Real,
    /// done, but only the traversal's view changed
    View,
}
pub trait Kids: 'static {
    const HAS: bool;
    fn see(&self) -> Vec<Option<Seen>>;
    /// changes the children themselves (empty path) or those of a node below them
    fn edit(&mut self, _path: &[usize], _a: &Action, _m: &mut Model) -> EditRes {
        EditRes::No
    }
}
fn vec_edit<N: HNode>(v: &mut Vec<N>, path: &[usize], a: &Action, m: &mut Model) -> EditRes {
    if path.is_empty() {
        change_vec(v, a, m);
    } else if !v.get_mut(path[0]).is_some_and(|k| change_at(k, &path[1..], a, m)) {
        return EditRes::No;
    }
    EditRes::Real
}
/// A child reference taken out of a context and kept by the caller.
pub trait Kept {
    /// drops everything below the node
    fn ruin(&mut self);
    fn wr(&mut self, mark: u32) -> bool;
}
impl<N: HNode> Kept for &'static mut N {
    fn ruin(&mut self) {
        let mut st = Vec::new();
        self.take_kids(&mut st);
        dismantle(st);
    }
    fn wr(&mut self, mark: u32) -> bool {
        let v = self.val_mut();
        let ok = v.rd().ok;
        if ok {
            v.mark = mark;
        }
        ok
    }
}
thread_local! {
    pub static KEPT: std::cell::RefCell<Vec<(u32, Box<dyn Kept>)>> = const { std::cell::RefCell::new(Vec::new()) };
}
fn keep<N: HNode>(n: Option<&'static mut N>) {
    if let Some(n) = n {
        let id = n.val().id;
        KEPT.with(|k| k.borrow_mut().push((id, Box::new(n))));
    }
}
impl Kids for () {
    const HAS: bool = false;
    fn see(&self) -> Vec<Option<Seen>> {
        Vec::new()
    }
}
impl Kids for Vec<Tree<Val>> {
    const HAS: bool = true;
    fn see(&self) -> Vec<Option<Seen>> {
        self.iter().map(|t| Some(t.value.rd())).collect()
    }
    fn edit(&mut self, path: &[usize], a: &Action, m: &mut Model) -> EditRes {
        vec_edit(self, path, a, m)
    }
}
impl Kids for &'static mut Vec<Tree<Val>> {
    const HAS: bool = true;
    fn see(&self) -> Vec<Option<Seen>> {
        self.iter().map(|t| Some(t.value.rd())).collect()
    }
    fn edit(&mut self, path: &[usize], a: &Action, m: &mut Model) -> EditRes {
        vec_edit(self, path, a, m)
    }
}
impl Kids for &'static Vec<Tree<Val>> {
    const HAS: bool = true;
    fn see(&self) -> Vec<Option<Seen>> {
        self.iter().map(|t| Some(t.value.rd())).collect()
    }
}
impl Kids for XKids {
    const HAS: bool = true;
    fn see(&self) -> Vec<Option<Seen>> {
        self.v.iter().map(|t| Some(t.val.rd())).collect()
    }
    fn edit(&mut self, path: &[usize], a: &Action, m: &mut Model) -> EditRes {
        vec_edit(&mut self.v, path, a, m)
    }
}
impl Kids for XMut<'static> {
    const HAS: bool = true;
    fn see(&self) -> Vec<Option<Seen>> {
        self.v.iter().map(|t| Some(t.val.rd())).collect()
    }
    fn edit(&mut self, path: &[usize], a: &Action, m: &mut Model) -> EditRes {
        vec_edit(self.v, path, a, m)
    }
}
impl Kids for XRef<'static> {
    const HAS: bool = true;
    fn see(&self) -> Vec<Option<Seen>> {
        if let Some(t) = &self.tok {
            if !t.live() {
                issue(&["C10", "C11"], format!("container-exposed-after-drop/{}", crate::exec::current_cfg()), "a dropped child container is exposed");
            }
        }
        self.v.iter().map(|t| Some(t.val.rd())).collect()
    }
}
macro_rules! bin_owned_kids {
    ($n:ty) => {
        impl Kids for [Option<$n>; 2] {
            const HAS: bool = true;
            fn see(&self) -> Vec<Option<Seen>> {
                self.iter().map(|k| k.as_ref().map(|k| HNode::val(k).rd())).collect()
            }
            fn edit(&mut self, path: &[usize], a: &Action, m: &mut Model) -> EditRes {
                if !path.is_empty() {
                    let done = self[path[0]].as_mut().is_some_and(|k| change_at(k, &path[1..], a, m));
                    return if done { EditRes::Real } else { EditRes::No };
                }
                let old = match a {
                    Action::Insert { pos, sub } | Action::Replace { pos, sub } => {
                        let n = build::<$n>(m, *sub, 0, false);
                        vec![self[*pos].replace(n)]
                    }
                    Action::Remove { pos } => vec![self[*pos].take()],
                    Action::Swap { .. } => {
                        self.swap(0, 1);
                        vec![]
                    }
                    Action::Clear => vec![self[0].take(), self[1].take()],
                };
                dismantle(old.into_iter().flatten().collect::<Vec<_>>());
                EditRes::Real
            }
        }
        impl Kids for [Option<&'static mut $n>; 2] {
            const HAS: bool = true;
            fn see(&self) -> Vec<Option<Seen>> {
                self.iter().map(|k| k.as_ref().map(|k| HNode::val(&**k).rd())).collect()
            }
            fn edit(&mut self, path: &[usize], a: &Action, m: &mut Model) -> EditRes {
                if !path.is_empty() {
                    let done = self[path[0]].as_mut().is_some_and(|k| change_at(&mut **k, &path[1..], a, m));
                    return if done { EditRes::Real } else { EditRes::No };
                }
                match a {
                    Action::Insert { .. } => return EditRes::No,
                    Action::Replace { pos, sub } => match self[*pos].as_mut() {
                        Some(k) => {
                            let n = build::<$n>(m, *sub, 0, false);
                            let old = std::mem::replace(&mut **k, n);
                            dismantle(vec![old]);
                            return EditRes::Real;
                        }
                        None => return EditRes::No,
                    },
                    Action::Remove { pos } => keep(self[*pos].take()),
                    Action::Swap { .. } => self.swap(0, 1),
                    Action::Clear => {
                        keep(self[0].take());
                        keep(self[1].take());
                    }
                }
                EditRes::View
            }
        }
        impl Kids for [Option<&'static $n>; 2] {
            const HAS: bool = true;
            fn see(&self) -> Vec<Option<Seen>> {
                self.iter().map(|k| k.map(|k| HNode::val(k).rd())).collect()
            }
        }
    };
}
bin_owned_kids!(BinaryTree<Val>);
bin_owned_kids!(XBin);

pub enum Bulk {
    No,
    Items(Vec<Obs>),
    Count(usize),
    Last(Option<Box<Obs>>),
}
fn obs_val<V: ValLike>(v: V, o: &mut Obs) {
    let _h = Har::enter();
    o.some = true;
    o.anc.push(v.v().rd());
    o.addr.push(v.v() as *const Val as usize);
    o.taken = Some(v.held());
}
fn push_val<V: ValLike>(out: &mut Vec<Obs>, v: V) {
    let _h = Har::enter();
    let mut o = Obs::default();
    obs_val(v, &mut o);
    out.push(o);
}
pub trait Drv {
    fn mode(&self) -> Mode;
    fn step(&mut self, o: &mut Obs);
    fn can(&self, c: Conv) -> bool;
    fn conv(self: Box<Self>, c: Conv) -> B;
    /// the same traversal at another address
    fn moved(self: Box<Self>) -> B;
    /// writes `mark` to the value at index `i` of the exposed stack
    fn write(&mut self, _i: usize, _mark: u32) -> bool {
        false
    }
    fn edit(&mut self, _path: &[usize], _a: &Action, _m: &mut Model) -> EditRes {
        EditRes::No
    }
    /// puts other values into the exposed stack; gives the one taken out (by value) or swaps two
    fn exchange(&mut self, _i: usize, _j: usize, _fresh: &mut Option<Val>) -> bool {
        false
    }
    /// skips `k` elements; returns false when the driver has no such method
    fn nth(&mut self, _k: usize, _o: &mut Obs) -> bool {
        false
    }
    /// consumes what is left through the iterator's own consuming methods
    fn bulk(self: Box<Self>, _how: u32) -> Bulk {
        Bulk::No
    }
    fn can_bulk(&self) -> bool {
        false
    }
    /// pipelines only: prune below the current node by hand
    fn prune_here(&mut self) -> bool {
        false
    }
}

// ---------------------------------------------------------------- plain and leaves
pub struct PlainD<I> {
    it: I,
    mode: Mode,
    l: Option<fn(I) -> B>,
    c: Option<fn(I) -> B>,
    a: Option<fn(I) -> B>,
}
impl<V: ValLike, I: Iterator<Item = V> + 'static> Drv for PlainD<I> {
            fn moved(self: Box<Self>) -> B {
                Box::new(*self)
            }
    fn mode(&self) -> Mode {
        self.mode
    }
    fn step(&mut self, o: &mut Obs) {
        o.hint = self.it.size_hint();
        if let Some(v) = self.it.next() {
            obs_val(v, o);
        }
    }
    fn nth(&mut self, k: usize, o: &mut Obs) -> bool {
        o.hint = self.it.size_hint();
        if let Some(v) = self.it.nth(k) {
            obs_val(v, o);
        }
        true
    }
    fn can_bulk(&self) -> bool {
        true
    }
    fn bulk(self: Box<Self>, how: u32) -> Bulk {
        let it = self.it;
        let mut out = Vec::new();
        match how % 11 {
            6 => {
                let mut it = it;
                it.any(|v| {
                    push_val(&mut out, v);
                    false
                });
            }
            7 => {
                let mut it = it;
                it.all(|v| {
                    push_val(&mut out, v);
                    true
                });
            }
            8 => {
                let mut it = it;
                it.position(|v| {
                    push_val(&mut out, v);
                    false
                });
            }
            9 => {
                let (all, none): (Vec<V>, Vec<V>) = it.partition(|_| true);
                for v in all.into_iter().chain(none) {
                    push_val(&mut out, v);
                }
            }
            10 => {
                let last = it.reduce(|a, b| {
                    push_val(&mut out, a);
                    b
                });
                if let Some(v) = last {
                    push_val(&mut out, v);
                }
            }
            0 => it.for_each(|v| push_val(&mut out, v)),
            1 => {
                out = it.fold(out, |mut out, v| {
                    push_val(&mut out, v);
                    out
                })
            }
            2 => {
                let all: Vec<V> = it.collect();
                for v in all {
                    push_val(&mut out, v);
                }
            }
            3 => return Bulk::Count(it.count()),
            4 => {
                return Bulk::Last(it.last().map(|v| {
                    let _h = Har::enter();
                    let mut o = Box::new(Obs::default());
                    obs_val(v, &mut o);
                    o
                }))
            }
            _ => {
                let mut it = it;
                let skip = (how / 11) as usize % 4;
                for v in it.by_ref().take(skip) {
                    push_val(&mut out, v);
                }
                // not polled again once it has ended
                if out.len() == skip {
                    for v in it {
                        push_val(&mut out, v);
                    }
                }
            }
        }
        Bulk::Items(out)
    }
    fn can(&self, c: Conv) -> bool {
        match c {
            Conv::Leaves => self.l.is_some(),
            Conv::Ctx => self.c.is_some(),
            Conv::Anc => self.a.is_some(),
        }
    }
    fn conv(self: Box<Self>, c: Conv) -> B {
        match c {
            Conv::Leaves => (self.l.unwrap())(self.it),
            Conv::Ctx => (self.c.unwrap())(self.it),
            Conv::Anc => (self.a.unwrap())(self.it),
        }
    }
}
pub fn plain<V: ValLike, I: Iterator<Item = V> + 'static>(it: I, l: fn(I) -> B, c: fn(I) -> B, a: fn(I) -> B) -> B {
    Box::new(PlainD { it, mode: Mode::Plain, l: Some(l), c: Some(c), a: Some(a) })
}
pub fn coll<V: ValLike, I: Iterator<Item = V> + 'static>(it: I, c: fn(I) -> B) -> B {
    Box::new(PlainD { it, mode: Mode::Plain, l: None, c: Some(c), a: None })
}
pub fn leaves<V: ValLike, I: Iterator<Item = V> + 'static>(it: I) -> B {
    Box::new(PlainD { it, mode: Mode::Leaves, l: None, c: None, a: None })
}

// ---------------------------------------------------------------- ancestors
fn obs_stack<V: ValLike>(s: &[V], o: &mut Obs) {
    let _h = Har::enter();
    o.some = true;
    for v in s {
        o.anc.push(v.v().rd());
        o.addr.push(v.v() as *const Val as usize);
    }
}
macro_rules! stream_bulk {
    ($s:expr, $how:expr, $obs:ident, |$m:ident, $look:ident| $more:expr) => {{
        let mut s = $s;
        let mut out: Vec<Obs> = Vec::new();
        fn fresh() -> Obs {
            Obs::default()
        }
        fn keep(out: &mut Vec<Obs>, o: Obs) {
            let _h = Har::enter();
            out.push(o);
        }
        match $how % 8 {
            3 => {
                s.any(|x| {
                    let mut o = fresh();
                    $obs(x, &mut o);
                    keep(&mut out, o);
                    false
                });
            }
            4 => {
                s.position(|x| {
                    let mut o = fresh();
                    $obs(x, &mut o);
                    keep(&mut out, o);
                    false
                });
            }
            5 => {
                s.find(|x| {
                    let mut o = fresh();
                    $obs(x, &mut o);
                    keep(&mut out, o);
                    false
                });
            }
            6 => {
                let $m = s;
                let mut $look = |o: Obs| keep(&mut out, o);
                $more
            }
            0 => s.for_each(|x| {
                let mut o = fresh();
                $obs(x, &mut o);
                keep(&mut out, o);
            }),
            1 => {
                out = s.fold(out, |mut out, x| {
                    let mut o = fresh();
                    $obs(x, &mut o);
                    keep(&mut out, o);
                    out
                })
            }
            2 => return Bulk::Count(s.count()),
            _ => {
                while let Some(x) = s.next() {
                    let mut o = fresh();
                    $obs(x, &mut o);
                    keep(&mut out, o);
                }
            }
        }
        Bulk::Items(out)
    }};
}
/// One element, through each of the ways a streaming iterator offers it.
macro_rules! stream_step {
    ($me:ident, $o:ident, $obs:ident, $x:ident => $len:expr) => {
        $o.hint = $me.s.size_hint();
        $me.turn = $me.turn.wrapping_add(1);
        if $me.turn & 1 == 1 {
            if let Some(s) = $me.s.next() {
                $obs(s, $o);
            }
        } else {
            $me.s.advance();
            if let Some(s) = $me.s.get() {
                $obs(s, $o);
            }
        }
        let n = $me.s.get().map(|$x| $len);
        if n.unwrap_or(0) != $o.anc.len() || n.is_some() != $o.some || $me.s.is_done() == $o.some {
            let _h = Har::enter();
            $o.note = Some("get() disagrees with itself".to_string());
        }
    };
    (mut $me:ident, $o:ident, $obs:ident, $x:ident => $len:expr) => {
        $o.hint = $me.s.size_hint();
        $me.turn = $me.turn.wrapping_add(1);
        match $me.turn & 3 {
            1 => {
                if let Some(s) = $me.s.next() {
                    $obs(s, $o);
                }
            }
            2 => {
                $me.s.advance();
                if let Some(s) = $me.s.get_mut() {
                    $obs(s, $o);
                }
            }
            3 => {
                if let Some(s) = $me.s.next_mut() {
                    $obs(s, $o);
                }
            }
            _ => {
                $me.s.advance();
                if let Some(s) = $me.s.get() {
                    $obs(s, $o);
                }
            }
        }
        let n = $me.s.get().map(|$x| $len);
        let m = $me.s.get_mut().map(|$x| $len);
        if n != m {
            let _h = Har::enter();
            $o.note = Some("get_mut() disagrees with get()".to_string());
        } else if n.unwrap_or(0) != $o.anc.len() || n.is_some() != $o.some || $me.s.is_done() == $o.some {
            let _h = Har::enter();
            $o.note = Some("get() disagrees with itself".to_string());
        }
    };
}
macro_rules! anc_driver {
    ($name:ident, $bound:ident, $ctor:ident, $ctor_l:ident, { $($w:tt)* }) => {
        pub struct $name<S> {
            s: S,
            mode: Mode,
            l: Option<fn(S) -> B>,
            turn: u8,
        }
        impl<V: ValLike, S: $bound<Item = [V]> + 'static> Drv for $name<S> {
            fn moved(self: Box<Self>) -> B {
                Box::new(*self)
            }
            fn mode(&self) -> Mode {
                self.mode
            }
            fn nth(&mut self, k: usize, o: &mut Obs) -> bool {
                o.hint = self.s.size_hint();
                if let Some(s) = self.s.nth(k) {
                    obs_stack(s, o);
                }
                if self.s.is_done() == o.some {
                    let _h = Har::enter();
                    o.note = Some("is_done() disagrees with get()".to_string());
                }
                true
            }
            fn can_bulk(&self) -> bool {
                true
            }
            fn can(&self, c: Conv) -> bool {
                c == Conv::Leaves && self.l.is_some()
            }
            fn conv(self: Box<Self>, _c: Conv) -> B {
                (self.l.unwrap())(self.s)
            }
            $($w)*
        }
        pub fn $ctor<V: ValLike, S: $bound<Item = [V]> + 'static>(s: S, l: fn(S) -> B) -> B {
            Box::new($name { s, mode: Mode::Anc, l: Some(l), turn: 0 })
        }
        pub fn $ctor_l<V: ValLike, S: $bound<Item = [V]> + 'static>(s: S) -> B {
            Box::new($name { s, mode: Mode::AncLeaves, l: None, turn: 0 })
        }
    };
}
anc_driver!(AncD, StreamingIterator, anc, anc_leaves, {
    fn bulk(self: Box<Self>, how: u32) -> Bulk {
        stream_bulk!(self.s, how, obs_stack, |s, see| {
            let mut s = s;
            s.all(|x| {
                let mut o = Obs::default();
                obs_stack(x, &mut o);
                see(o);
                true
            });
        })
    }
    fn step(&mut self, o: &mut Obs) {
        stream_step!(self, o, obs_stack, s => s.len());
    }
});
anc_driver!(AncMD, StreamingIteratorMut, anc_m, anc_leaves_m, {
    fn bulk(self: Box<Self>, how: u32) -> Bulk {
        stream_bulk!(self.s, how, obs_stack, |s, see| {
            if (how / 8) & 1 == 0 {
                s.for_each_mut(|x| {
                    let mut o = Obs::default();
                    obs_stack(x, &mut o);
                    see(o);
                });
            } else {
                s.fold_mut((), |_, x| {
                    let mut o = Obs::default();
                    obs_stack(x, &mut o);
                    see(o);
                });
            }
        })
    }
    fn step(&mut self, o: &mut Obs) {
        stream_step!(mut self, o, obs_stack, s => s.len());
    }
    fn write(&mut self, i: usize, mark: u32) -> bool {
        match self.s.get_mut() {
            Some(s) => match s.get_mut(i) {
                Some(v) => v.wr(mark),
                None => false,
            },
            None => false,
        }
    }
    fn exchange(&mut self, i: usize, j: usize, fresh: &mut Option<Val>) -> bool {
        self.s.get_mut().is_some_and(|s| V::exchange(s, i, j, fresh))
    }
});

// ---------------------------------------------------------------- contexts
pub fn obs_ctx<V: ValLike, K: Kids>(c: &TreeContext<V, K>, o: &mut Obs) {
    obs_stack(c.ancestors(), o);
    let _h = Har::enter();
    o.path = Some(c.path().to_vec());
    o.depth = c.depth();
    if K::HAS {
        o.kids = Some(c.children().see());
    }
}
macro_rules! ctx_driver {
    ($name:ident, $bound:ident, $ctor:ident, { $($w:tt)* }) => {
        pub struct $name<S> {
            s: S,
            turn: u8,
        }
        impl<V: ValLike, K: Kids, S: $bound<Item = TreeContext<V, K>> + 'static> Drv for $name<S> {
            fn moved(self: Box<Self>) -> B {
                Box::new(*self)
            }
            fn mode(&self) -> Mode {
                Mode::Ctx
            }
            fn nth(&mut self, k: usize, o: &mut Obs) -> bool {
                o.hint = self.s.size_hint();
                if let Some(c) = self.s.nth(k) {
                    obs_ctx(c, o);
                }
                if self.s.is_done() == o.some {
                    let _h = Har::enter();
                    o.note = Some("is_done() disagrees with get()".to_string());
                }
                true
            }
            fn can_bulk(&self) -> bool {
                true
            }
            fn can(&self, _c: Conv) -> bool {
                false
            }
            fn conv(self: Box<Self>, _c: Conv) -> B {
                unreachable!()
            }
            $($w)*
        }
        pub fn $ctor<V: ValLike, K: Kids, S: $bound<Item = TreeContext<V, K>> + 'static>(s: S) -> B {
            Box::new($name { s, turn: 0 })
        }
    };
}
ctx_driver!(CtxD, StreamingIterator, ctx, {
    fn bulk(self: Box<Self>, how: u32) -> Bulk {
        stream_bulk!(self.s, how, obs_ctx, |s, see| {
            let mut s = s;
            s.all(|x| {
                let mut o = Obs::default();
                obs_ctx(x, &mut o);
                see(o);
                true
            });
        })
    }
    fn step(&mut self, o: &mut Obs) {
        stream_step!(self, o, obs_ctx, s => s.ancestors().len());
    }
});
ctx_driver!(CtxMD, StreamingIteratorMut, ctx_m, {
    fn bulk(self: Box<Self>, how: u32) -> Bulk {
        stream_bulk!(self.s, how, obs_ctx, |s, see| {
            if (how / 8) & 1 == 0 {
                s.for_each_mut(|x| {
                    let mut o = Obs::default();
                    obs_ctx(x, &mut o);
                    see(o);
                });
            } else {
                s.fold_mut((), |_, x| {
                    let mut o = Obs::default();
                    obs_ctx(x, &mut o);
                    see(o);
                });
            }
        })
    }
    fn step(&mut self, o: &mut Obs) {
        stream_step!(mut self, o, obs_ctx, s => s.ancestors().len());
    }
    fn write(&mut self, i: usize, mark: u32) -> bool {
        match self.s.get_mut() {
            Some(c) => match c.ancestors_mut().get_mut(i) {
                Some(v) => v.wr(mark),
                None => false,
            },
            None => false,
        }
    }
    fn exchange(&mut self, i: usize, j: usize, fresh: &mut Option<Val>) -> bool {
        self.s.get_mut().is_some_and(|c| V::exchange(c.ancestors_mut(), i, j, fresh))
    }
    fn edit(&mut self, path: &[usize], a: &Action, m: &mut Model) -> EditRes {
        if !K::HAS {
            return EditRes::No;
        }
        let c = match self.s.get_mut() {
            Some(c) => c,
            None => return EditRes::No,
        };
        let _h = Har::enter();
        c.children_mut().edit(path, a, m)
    }
});

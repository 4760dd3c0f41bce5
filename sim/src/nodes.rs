//! Node and source implementations driven through the public traits. `XNode`/`XBin` put every
//! accessor, child iterator and drop behind a seam of the simulated world; `Tree`/`BinaryTree`
//! are the library's own.
use crate::drv::Action;
use crate::model::*;
use crate::world::*;
use std::iter::FusedIterator;
use tree_iterators_rs::prelude::*;

pub trait HNode: Sized + 'static {
    fn make(val: Val, kids: Vec<Option<Self>>, hint: u8, tok: bool) -> Self;
    fn val(&self) -> &Val;
    fn val_mut(&mut self) -> &mut Val;
    fn kid_refs(&self) -> Vec<Option<&Self>>;
    /// moves all children out (for iterative destruction)
    fn take_kids(&mut self, out: &mut Vec<Self>);
    fn kid_mut(&mut self, i: usize) -> Option<&mut Self>;
    /// changes this node's own children
    fn change(&mut self, a: &Action, m: &mut Model);
}
/// Changes the children of the node reached from `n` by `path`.
pub fn change_at<N: HNode>(mut n: &mut N, path: &[usize], a: &Action, m: &mut Model) -> bool {
    for &i in path {
        n = match n.kid_mut(i) {
            Some(k) => k,
            None => return false,
        };
    }
    n.change(a, m);
    true
}
pub fn change_vec<N: HNode>(v: &mut Vec<N>, a: &Action, m: &mut Model) {
    match a {
        Action::Insert { pos, sub } => {
            let n = build::<N>(m, *sub, 0, false);
            let _l = Lib::enter();
            v.insert(*pos, n);
        }
        Action::Remove { pos } => {
            let x = v.remove(*pos);
            dismantle(vec![x]);
        }
        Action::Swap { a, b } => v.swap(*a, *b),
        Action::Replace { pos, sub } => {
            let n = build::<N>(m, *sub, 0, false);
            let old = std::mem::replace(&mut v[*pos], n);
            dismantle(vec![old]);
        }
        Action::Clear => {
            let mut st = Vec::new();
            st.append(v);
            dismantle(st);
        }
    }
}
pub fn change_two<N: HNode>(k: [&mut Option<Box<N>>; 2], a: &Action, m: &mut Model) {
    let mut old = Vec::new();
    match a {
        Action::Insert { pos, sub } | Action::Replace { pos, sub } => {
            let n = build::<N>(m, *sub, 0, false);
            let n = {
                let _l = Lib::enter();
                Box::new(n)
            };
            old.extend(k[*pos].replace(n));
        }
        Action::Remove { pos } => old.extend(k[*pos].take()),
        Action::Swap { .. } => {
            let [l, r] = k;
            std::mem::swap(l, r)
        }
        Action::Clear => {
            let [l, r] = k;
            old.extend(l.take());
            old.extend(r.take());
        }
    }
    dismantle(old.into_iter().map(|b| *b).collect());
}
/// Builds the node for model node `root`, creating value tokens; iterative.
pub fn build<N: HNode>(m: &mut Model, root: u32, hint: u8, tok: bool) -> N {
    let order = {
        let _h = Har::enter();
        m.order_of(root, crate::plan::Order::Pre)
    };
    {
        let _h = Har::enter();
        for &i in &order {
            if m.nodes[i as usize].id == NONE {
                // reserved here, built below; ids follow preorder so traces are readable
                let v = Val::new();
                m.nodes[i as usize].id = v.id;
                std::mem::forget(v);
            }
        }
    }
    // in reverse preorder the finished children of a node are on top of the stack, first child last
    let mut done: Vec<N> = Vec::new();
    for &i in order.iter().rev() {
        let n = &m.nodes[i as usize];
        let mut kids: Vec<Option<N>> = Vec::with_capacity(n.kids.len());
        for k in &n.kids {
            kids.push(k.and_then(|_| done.pop()));
        }
        let nd = {
            let _l = Lib::enter();
            let val = Val::revive(n.id);
            N::make(val, kids, hint, tok)
        };
        let _h = Har::enter();
        done.push(nd);
    }
    let r = done.pop().unwrap();
    let _h = Har::enter();
    drop(done);
    r
}
pub fn dismantle<N: HNode>(mut st: Vec<N>) {
    while let Some(mut n) = st.pop() {
        n.take_kids(&mut st);
    }
}

impl Val {
    /// The token reserved for a model node.
    pub fn revive(id: u32) -> Val {
        let mut v = Val::new();
        let tmp = v.id;
        v.id = id;
        v.root = id;
        // the temporary id is never used by anyone
        with(|w| {
            debug_assert_eq!(w.drops.len() as u32 - 1, tmp);
            w.drops.pop();
        });
        v
    }
}

// ---------------------------------------------------------------- library nodes
impl HNode for Tree<Val> {
    fn make(val: Val, kids: Vec<Option<Self>>, _h: u8, _t: bool) -> Self {
        let mut children = Vec::with_capacity(kids.len());
        for k in kids.into_iter().flatten() {
            children.push(k);
        }
        Tree { value: val, children }
    }
    fn val(&self) -> &Val {
        &self.value
    }
    fn val_mut(&mut self) -> &mut Val {
        &mut self.value
    }
    fn kid_refs(&self) -> Vec<Option<&Self>> {
        self.children.iter().map(Some).collect()
    }
    fn take_kids(&mut self, out: &mut Vec<Self>) {
        out.append(&mut self.children)
    }
    fn kid_mut(&mut self, i: usize) -> Option<&mut Self> {
        self.children.get_mut(i)
    }
    fn change(&mut self, a: &Action, m: &mut Model) {
        change_vec(&mut self.children, a, m)
    }
}
impl HNode for BinaryTree<Val> {
    fn make(val: Val, mut kids: Vec<Option<Self>>, _h: u8, _t: bool) -> Self {
        let right = kids.pop().unwrap().map(Box::new);
        let left = kids.pop().unwrap().map(Box::new);
        BinaryTree { value: val, left, right }
    }
    fn val(&self) -> &Val {
        &self.value
    }
    fn val_mut(&mut self) -> &mut Val {
        &mut self.value
    }
    fn kid_refs(&self) -> Vec<Option<&Self>> {
        vec![self.left.as_deref(), self.right.as_deref()]
    }
    fn take_kids(&mut self, out: &mut Vec<Self>) {
        out.extend(self.left.take().map(|b| *b));
        out.extend(self.right.take().map(|b| *b));
    }
    fn kid_mut(&mut self, i: usize) -> Option<&mut Self> {
        if i == 0 { self.left.as_deref_mut() } else { self.right.as_deref_mut() }
    }
    fn change(&mut self, a: &Action, m: &mut Model) {
        change_two([&mut self.left, &mut self.right], a, m)
    }
}

// ---------------------------------------------------------------- simulated n-ary node
pub struct XNode {
    pub val: Val,
    pub kids: XKids,
}
pub struct XKids {
    pub v: Vec<XNode>,
    pub hint: u8,
    pub owner: u32,
    /// borrowed child lists own resources too
    pub btok: bool,
    pub tok: Tok,
}
impl Drop for XKids {
    fn drop(&mut self) {
        let mut st = std::mem::take(&mut self.v);
        while let Some(mut n) = st.pop() {
            st.append(&mut n.kids.v);
        }
    }
}
pub struct XIter<I: Iterator> {
    it: I,
    owner: u32,
    hint: u8,
    /// by-value child iterators need not be fused: what this one gives when polled past its end
    more: Option<fn() -> I::Item>,
    ended: bool,
    #[allow(dead_code)]
    tok: Option<Tok>,
}
fn phantom() -> XNode {
    XNode { val: Val::derived(u32::MAX - 3, 0), kids: XKids { v: vec![], hint: 0, owner: u32::MAX, btok: false, tok: Tok::new("owned-kids") } }
}
impl<I: ExactSizeIterator> Iterator for XIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        hook(Site::KidNext, self.owner);
        if let Some(t) = &self.tok {
            if !t.live() {
                issue(&["C10", "C11"], "iterator-used-after-drop", "a child iterator was used after it had been dropped");
            }
        }
        match self.it.next() {
            None if self.ended => match self.more {
                Some(f) if !with(|w| w.fault_happened) => Some(f()),
                _ => None,
            },
            None => {
                self.ended = true;
                None
            }
            x => x,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hook(Site::Hint, self.owner);
        let n = self.it.len();
        match self.hint & 3 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n.min(1), Some(n + 3)),
            _ => (0, Some(n * 2)),
        }
    }
}
impl<I: ExactSizeIterator + FusedIterator> FusedIterator for XIter<I> {}
impl HNode for XNode {
    fn make(val: Val, kids: Vec<Option<Self>>, hint: u8, tok: bool) -> Self {
        let mut v = Vec::with_capacity(kids.len());
        for k in kids.into_iter().flatten() {
            v.push(k);
        }
        let owner = val.id;
        XNode { val, kids: XKids { v, hint, owner, btok: tok, tok: Tok::new("owned-kids") } }
    }
    fn val(&self) -> &Val {
        &self.val
    }
    fn val_mut(&mut self) -> &mut Val {
        &mut self.val
    }
    fn kid_refs(&self) -> Vec<Option<&Self>> {
        self.kids.v.iter().map(Some).collect()
    }
    fn take_kids(&mut self, out: &mut Vec<Self>) {
        out.append(&mut self.kids.v)
    }
    fn kid_mut(&mut self, i: usize) -> Option<&mut Self> {
        self.kids.v.get_mut(i)
    }
    fn change(&mut self, a: &Action, m: &mut Model) {
        change_vec(&mut self.kids.v, a, m)
    }
}
impl OwnedTreeNode for XNode {
    type OwnedValue = Val;
    type OwnedChildren = XKids;
    fn get_value_and_children(self) -> (Val, XKids) {
        hook(Site::Expand, self.val.id);
        (self.val, self.kids)
    }
}
impl IntoIterator for XKids {
    type Item = XNode;
    type IntoIter = XIter<std::vec::IntoIter<XNode>>;
    fn into_iter(mut self) -> Self::IntoIter {
        hook(Site::IntoKids, self.owner);
        XIter { it: std::mem::take(&mut self.v).into_iter(), owner: self.owner, hint: self.hint, more: if self.hint & 4 != 0 { Some(phantom) } else { None }, ended: false, tok: Some(Tok::new("owned-kid-iter")) }
    }
}
pub struct XMut<'a> {
    pub v: &'a mut Vec<XNode>,
    pub owner: u32,
    pub hint: u8,
    pub tok: Option<Tok>,
}
impl<'a> IntoIterator for XMut<'a> {
    type Item = &'a mut XNode;
    type IntoIter = XIter<std::slice::IterMut<'a, XNode>>;
    fn into_iter(self) -> Self::IntoIter {
        hook(Site::IntoKids, self.owner);
        let t = self.tok.as_ref().map(|_| Tok::new("mut-kid-iter"));
        XIter { it: self.v.iter_mut(), owner: self.owner, hint: self.hint, more: None, ended: false, tok: t }
    }
}
impl<'a> MutBorrowedTreeNode<'a> for XNode {
    type MutBorrowedValue = &'a mut Val;
    type MutBorrowedChildren = XMut<'a>;
    fn get_value_and_children_iter_mut(&'a mut self) -> (&'a mut Val, XMut<'a>) {
        hook(Site::Expand, self.val.id);
        let k = &mut self.kids;
        let tok = if k.btok { Some(Tok::new("mut-kids")) } else { None };
        (&mut self.val, XMut { v: &mut k.v, owner: k.owner, hint: k.hint, tok })
    }
}
pub struct XRef<'a> {
    pub v: &'a Vec<XNode>,
    pub owner: u32,
    pub hint: u8,
    pub tok: Option<Tok>,
}
impl<'a> IntoIterator for XRef<'a> {
    type Item = &'a XNode;
    type IntoIter = XIter<std::slice::Iter<'a, XNode>>;
    fn into_iter(self) -> Self::IntoIter {
        hook(Site::IntoKids, self.owner);
        let t = self.tok.as_ref().map(|_| Tok::new("ref-kid-iter"));
        XIter { it: self.v.iter(), owner: self.owner, hint: self.hint, more: None, ended: false, tok: t }
    }
}
impl<'a> BorrowedTreeNode<'a> for XNode {
    type BorrowedValue = &'a Val;
    type BorrowedChildren = XRef<'a>;
    fn get_value_and_children_iter(&'a self) -> (&'a Val, XRef<'a>) {
        hook(Site::Expand, self.val.id);
        let k = &self.kids;
        let tok = if k.btok { Some(Tok::new("ref-kids")) } else { None };
        (&self.val, XRef { v: &k.v, owner: k.owner, hint: k.hint, tok })
    }
}

// ---------------------------------------------------------------- simulated binary node
pub struct XLink(pub Option<Box<XBin>>);
impl Drop for XLink {
    fn drop(&mut self) {
        let mut st: Vec<Box<XBin>> = Vec::new();
        st.extend(self.0.take());
        while let Some(mut n) = st.pop() {
            st.extend(n.l.0.take());
            st.extend(n.r.0.take());
        }
    }
}
pub struct XBin {
    pub val: Val,
    pub l: XLink,
    pub r: XLink,
}
impl HNode for XBin {
    fn make(val: Val, mut kids: Vec<Option<Self>>, _h: u8, _t: bool) -> Self {
        let r = XLink(kids.pop().unwrap().map(Box::new));
        let l = XLink(kids.pop().unwrap().map(Box::new));
        XBin { val, l, r }
    }
    fn val(&self) -> &Val {
        &self.val
    }
    fn val_mut(&mut self) -> &mut Val {
        &mut self.val
    }
    fn kid_refs(&self) -> Vec<Option<&Self>> {
        vec![self.l.0.as_deref(), self.r.0.as_deref()]
    }
    fn take_kids(&mut self, out: &mut Vec<Self>) {
        out.extend(self.l.0.take().map(|b| *b));
        out.extend(self.r.0.take().map(|b| *b));
    }
    fn kid_mut(&mut self, i: usize) -> Option<&mut Self> {
        if i == 0 { self.l.0.as_deref_mut() } else { self.r.0.as_deref_mut() }
    }
    fn change(&mut self, a: &Action, m: &mut Model) {
        change_two([&mut self.l.0, &mut self.r.0], a, m)
    }
}
impl OwnedBinaryTreeNode for XBin {
    type OwnedValue = Val;
    fn get_value_and_children_binary(mut self) -> (Val, [Option<Self>; 2]) {
        hook(Site::Expand, self.val.id);
        let l = self.l.0.take().map(|b| *b);
        let r = self.r.0.take().map(|b| *b);
        (self.val, [l, r])
    }
}
impl<'a> MutBorrowedBinaryTreeNode<'a> for XBin {
    type MutBorrowedValue = &'a mut Val;
    fn get_value_and_children_binary_iter_mut(&'a mut self) -> (&'a mut Val, [Option<&'a mut Self>; 2]) {
        hook(Site::Expand, self.val.id);
        (&mut self.val, [self.l.0.as_deref_mut(), self.r.0.as_deref_mut()])
    }
}
impl<'a> BorrowedBinaryTreeNode<'a> for XBin {
    type BorrowedValue = &'a Val;
    fn get_value_and_children_binary_iter(&'a self) -> (&'a Val, [Option<&'a Self>; 2]) {
        hook(Site::Expand, self.val.id);
        (&self.val, [self.l.0.as_deref(), self.r.0.as_deref()])
    }
}

// ---------------------------------------------------------------- simulated source of trees
pub struct HookSrc<I> {
    pub it: I,
    pub left: usize,
}
pub struct HookIter<I> {
    it: I,
    left: usize,
    /// gives further trees when polled again after having ended (sources need not be fused)
    revive: bool,
    n: u32,
    #[allow(dead_code)]
    tok: Tok,
}
impl<I: Iterator> IntoIterator for HookSrc<I> {
    type Item = I::Item;
    type IntoIter = HookIter<I>;
    fn into_iter(self) -> HookIter<I> {
        hook(Site::SrcInto, 0);
        HookIter { it: self.it, left: self.left, revive: self.left % 4 < 2, n: 0, tok: Tok::new("source") }
    }
}
impl<I: Iterator> Iterator for HookIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        hook(Site::SrcNext, self.n);
        if self.left == 0 {
            if self.revive && !with(|w| w.fault_happened) {
                self.left = usize::MAX;
            }
            return None;
        }
        let r = self.it.next();
        if r.is_some() {
            self.left -= 1;
            self.n += 1;
        }
        r
    }
}
impl<T: OwnedTreeNode, I: Iterator<Item = T>> OwnedIntoIteratorOfTrees<T> for HookSrc<I> {}
impl<T: OwnedBinaryTreeNode, I: Iterator<Item = T>> OwnedIntoIteratorOfBinaryTrees<T> for HookSrc<I> {}
impl<'a, T: MutBorrowedTreeNode<'a>, I: Iterator<Item = &'a mut T>> MutBorrowedIntoIteratorOfTrees<'a, T> for HookSrc<I> {}
impl<'a, T: MutBorrowedBinaryTreeNode<'a>, I: Iterator<Item = &'a mut T>> MutBorrowedIntoIteratorOfBinaryTrees<'a, T> for HookSrc<I> {}
impl<'a, T: BorrowedTreeNode<'a>, I: Iterator<Item = &'a T>> BorrowedIntoIteratorOfTrees<'a, T> for HookSrc<I> {}
impl<'a, T: BorrowedBinaryTreeNode<'a>, I: Iterator<Item = &'a T>> BorrowedIntoIteratorOfBinaryTrees<'a, T> for HookSrc<I> {}

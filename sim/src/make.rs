//! Construction of the real iterator objects for every node kind, ownership mode, order and source.
use crate::drv::*;
use crate::nodes::*;
use crate::plan::*;
use crate::world::*;
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::*;

macro_rules! own_full {
    ($e:expr) => {
        plain($e, |i| leaves(i.leaves()), |i| ctx_m(i.attach_context()), |i| anc_m(i.attach_ancestors(), |s| anc_leaves_m(s.leaves())))
    };
}
macro_rules! ref_full {
    ($e:expr) => {
        plain($e, |i| leaves(i.leaves()), |i| ctx(i.attach_context()), |i| anc(i.attach_ancestors(), |s| anc_leaves(s.leaves())))
    };
}
macro_rules! own_coll {
    ($e:expr) => {
        coll($e, |i| ctx_m(i.attach_context()))
    };
}
macro_rules! ref_coll {
    ($e:expr) => {
        coll($e, |i| ctx(i.attach_context()))
    };
}
macro_rules! nary {
    ($m:ident, $n:ty) => {
        pub mod $m {
            use super::*;
            type N = $n;
            pub fn owned(mut v: Vec<N>, o: Order, src: Src) -> B {
                fn each<S: OwnedIntoIteratorOfTrees<N> + 'static>(s: S, o: Order) -> B {
                    match o {
                        Order::Pre => own_coll!(s.dfs_preorder_each()),
                        Order::Post | Order::In => own_coll!(s.dfs_postorder_each()),
                        Order::Bfs => own_coll!(s.bfs_each()),
                    }
                }
                match src {
                    Src::One => {
                        let n = {
                            let _h = Har::enter();
                            v.swap_remove(0)
                        };
                        drop(v);
                        match o {
                            Order::Pre => own_full!(n.dfs_preorder()),
                            Order::Post | Order::In => own_full!(n.dfs_postorder()),
                            Order::Bfs => own_full!(n.bfs()),
                        }
                    }
                    Src::Vec => each(v, o),
                    Src::Arr => match <[N; 2]>::try_from(v) {
                        Ok(a) => each(a, o),
                        Err(v) => match <[N; 3]>::try_from(v) {
                            Ok(a) => each(a, o),
                            Err(v) => each(v, o),
                        },
                    },
                    Src::Hook(k) => each(HookSrc { it: v.into_iter(), left: k }, o),
                }
            }
            pub fn muts(v: &'static mut Vec<N>, o: Order, src: Src) -> B {
                fn each<S: MutBorrowedIntoIteratorOfTrees<'static, N> + 'static>(s: S, o: Order) -> B {
                    match o {
                        Order::Pre => own_coll!(s.dfs_preorder_each_iter_mut()),
                        Order::Post | Order::In => own_coll!(s.dfs_postorder_each_iter_mut()),
                        Order::Bfs => own_coll!(s.bfs_each_iter_mut()),
                    }
                }
                match src {
                    Src::One => {
                        let n = &mut v[0];
                        match o {
                            Order::Pre => own_full!(n.dfs_preorder_iter_mut()),
                            Order::Post | Order::In => own_full!(n.dfs_postorder_iter_mut()),
                            Order::Bfs => own_full!(n.bfs_iter_mut()),
                        }
                    }
                    Src::Vec => each(v, o),
                    Src::Arr => match <&mut [N; 2]>::try_from(&mut v[..]) {
                        Ok(_) => each(<&mut [N; 2]>::try_from(&mut v[..]).unwrap(), o),
                        Err(_) => each(v.iter_mut(), o),
                    },
                    Src::Hook(k) => each(HookSrc { it: v.iter_mut(), left: k }, o),
                }
            }
            pub fn refs(v: &'static Vec<N>, o: Order, src: Src) -> B {
                fn each<S: BorrowedIntoIteratorOfTrees<'static, N> + 'static>(s: S, o: Order) -> B {
                    match o {
                        Order::Pre => ref_coll!(s.dfs_preorder_each_iter()),
                        Order::Post | Order::In => ref_coll!(s.dfs_postorder_each_iter()),
                        Order::Bfs => ref_coll!(s.bfs_each_iter()),
                    }
                }
                match src {
                    Src::One => {
                        let n = &v[0];
                        match o {
                            Order::Pre => ref_full!(n.dfs_preorder_iter()),
                            Order::Post | Order::In => ref_full!(n.dfs_postorder_iter()),
                            Order::Bfs => ref_full!(n.bfs_iter()),
                        }
                    }
                    Src::Vec => each(v, o),
                    Src::Arr => {
                        if v.len() % 2 == 0 {
                            each(&v[..], o)
                        } else {
                            each(v.iter(), o)
                        }
                    }
                    Src::Hook(k) => each(HookSrc { it: v.iter(), left: k }, o),
                }
            }
        }
    };
}
macro_rules! binary {
    ($m:ident, $n:ty) => {
        pub mod $m {
            use super::*;
            type N = $n;
            pub fn owned(mut v: Vec<N>, o: Order, src: Src) -> B {
                fn each<S: OwnedIntoIteratorOfBinaryTrees<N> + 'static>(s: S, o: Order) -> B {
                    match o {
                        Order::Pre => own_coll!(s.dfs_preorder_each()),
                        Order::In => own_coll!(s.dfs_inorder_each()),
                        Order::Post => own_coll!(s.dfs_postorder_each()),
                        Order::Bfs => own_coll!(s.bfs_each()),
                    }
                }
                match src {
                    Src::One => {
                        let n = {
                            let _h = Har::enter();
                            v.swap_remove(0)
                        };
                        drop(v);
                        match o {
                            Order::Pre => own_full!(n.dfs_preorder()),
                            Order::In => own_full!(n.dfs_inorder()),
                            Order::Post => own_full!(n.dfs_postorder()),
                            Order::Bfs => own_full!(n.bfs()),
                        }
                    }
                    Src::Vec => each(v, o),
                    Src::Arr => match <[N; 2]>::try_from(v) {
                        Ok(a) => each(a, o),
                        Err(v) => match <[N; 3]>::try_from(v) {
                            Ok(a) => each(a, o),
                            Err(v) => each(v, o),
                        },
                    },
                    Src::Hook(k) => each(HookSrc { it: v.into_iter(), left: k }, o),
                }
            }
            pub fn muts(v: &'static mut Vec<N>, o: Order, src: Src) -> B {
                fn each<S: MutBorrowedIntoIteratorOfBinaryTrees<'static, N> + 'static>(s: S, o: Order) -> B {
                    match o {
                        Order::Pre => own_coll!(s.dfs_preorder_each_iter_mut()),
                        Order::In => own_coll!(s.dfs_inorder_each_iter_mut()),
                        Order::Post => own_coll!(s.dfs_postorder_each_iter_mut()),
                        Order::Bfs => own_coll!(s.bfs_each_iter_mut()),
                    }
                }
                match src {
                    Src::One => {
                        let n = &mut v[0];
                        match o {
                            Order::Pre => own_full!(n.dfs_preorder_iter_mut()),
                            Order::In => own_full!(n.dfs_inorder_iter_mut()),
                            Order::Post => own_full!(n.dfs_postorder_iter_mut()),
                            Order::Bfs => own_full!(n.bfs_iter_mut()),
                        }
                    }
                    Src::Vec => each(v, o),
                    Src::Arr => match <&mut [N; 2]>::try_from(&mut v[..]) {
                        Ok(_) => each(<&mut [N; 2]>::try_from(&mut v[..]).unwrap(), o),
                        Err(_) => each(v.iter_mut(), o),
                    },
                    Src::Hook(k) => each(HookSrc { it: v.iter_mut(), left: k }, o),
                }
            }
            pub fn refs(v: &'static Vec<N>, o: Order, src: Src) -> B {
                fn each<S: BorrowedIntoIteratorOfBinaryTrees<'static, N> + 'static>(s: S, o: Order) -> B {
                    match o {
                        Order::Pre => ref_coll!(s.dfs_preorder_each_iter()),
                        Order::In => ref_coll!(s.dfs_inorder_each_iter()),
                        Order::Post => ref_coll!(s.dfs_postorder_each_iter()),
                        Order::Bfs => ref_coll!(s.bfs_each_iter()),
                    }
                }
                match src {
                    Src::One => {
                        let n = &v[0];
                        match o {
                            Order::Pre => ref_full!(n.dfs_preorder_iter()),
                            Order::In => ref_full!(n.dfs_inorder_iter()),
                            Order::Post => ref_full!(n.dfs_postorder_iter()),
                            Order::Bfs => ref_full!(n.bfs_iter()),
                        }
                    }
                    Src::Vec => each(v, o),
                    Src::Arr => match <&[N; 2]>::try_from(&v[..]) {
                        Ok(a) => each(a, o),
                        Err(_) => each(v.iter(), o),
                    },
                    Src::Hook(k) => each(HookSrc { it: v.iter(), left: k }, o),
                }
            }
        }
    };
}
nary!(tree, Tree<Val>);
nary!(xnode, XNode);
binary!(bintree, BinaryTree<Val>);
binary!(xbin, XBin);
#[allow(dead_code)]
fn _uses<T: StreamingIterator + StreamingIteratorMut>() {}

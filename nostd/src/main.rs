//! C19: a simulation that runs without the standard library. Seeded runs of interleaved traversals and
//! pipelines on an allocator of its own; one digest per run, compared with the same program on top of std.
#![cfg_attr(not(feature = "std"), no_std, no_main)]
#![allow(static_mut_refs)]
extern crate alloc;
use alloc::{boxed::Box, vec, vec::Vec};
use streaming_iterator::{StreamingIterator, StreamingIteratorMut};
use tree_iterators_rs::prelude::*;

// ------------------------------------------------------------------ environment
/// A first-fit-free arena: sizes are rounded to powers of two, freed blocks go to a list per size.
mod arena {
    use core::alloc::{GlobalAlloc, Layout};
    pub struct Arena;
    const SIZE: usize = 64 << 20;
    #[repr(align(4096))]
    struct Mem(#[allow(dead_code)] [u8; SIZE]);
    static mut MEM: Mem = Mem([0; SIZE]);
    static mut TOP: usize = 0;
    static mut FREE: [usize; 64] = [0; 64];
    pub static mut LIVE: isize = 0;
    fn class(l: Layout) -> usize {
        l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros() as usize
    }
    unsafe impl GlobalAlloc for Arena {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let c = class(l);
            LIVE += l.size() as isize;
            if FREE[c] != 0 {
                let p = FREE[c] as *mut usize;
                FREE[c] = *p;
                return p as *mut u8;
            }
            let at = (TOP + (1 << c) - 1) & !((1 << c) - 1);
            if at + (1 << c) > SIZE {
                return core::ptr::null_mut();
            }
            TOP = at + (1 << c);
            (&raw mut MEM as *mut u8).add(at)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE -= l.size() as isize;
            core::ptr::write_bytes(p, 0xDD, l.size());
            let c = class(l);
            *(p as *mut usize) = FREE[c];
            FREE[c] = p as usize;
        }
    }
}
#[global_allocator]
static A: arena::Arena = arena::Arena;
fn live() -> isize {
    unsafe { arena::LIVE }
}

#[cfg(not(feature = "std"))]
mod bare {
    #[link(name = "c")]
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn _exit(code: i32) -> !;
    }
    pub fn put(s: &[u8]) {
        let mut s = s;
        while !s.is_empty() {
            let n = unsafe { write(1, s.as_ptr(), s.len()) };
            if n <= 0 {
                unsafe { _exit(4) }
            }
            s = &s[n as usize..];
        }
    }
    #[panic_handler]
    fn panic(_: &core::panic::PanicInfo) -> ! {
        put(b"panic\n");
        unsafe { _exit(101) }
    }
    #[no_mangle]
    pub extern "C" fn rust_eh_personality() {}
    #[no_mangle]
    pub extern "C" fn _Unwind_Resume() -> ! {
        unsafe { _exit(102) }
    }
    #[no_mangle]
    pub unsafe extern "C" fn main(argc: i32, argv: *const *const u8) -> i32 {
        let arg = |i: i32| {
            let mut x = 0u64;
            if i < argc {
                let mut p = unsafe { *argv.add(i as usize) };
                unsafe {
                    while *p != 0 {
                        x = x * 10 + (*p - b'0') as u64;
                        p = p.add(1);
                    }
                }
            }
            x
        };
        super::all(arg(1), arg(2), arg(3), &mut |s| put(s));
        0
    }
}
#[cfg(feature = "std")]
fn main() {
    use std::io::Write;
    let a: Vec<u64> = std::env::args().skip(1).map(|s| s.parse().unwrap()).collect();
    all(a[0], a[1], a[2], &mut |s| std::io::stdout().write_all(s).unwrap());
}

// ------------------------------------------------------------------ runs
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}
fn mix(h: u64, x: u64) -> u64 {
    Rng(h ^ x.wrapping_mul(0x2545_F491_4F6C_DD1D)).next()
}
fn mixs(h: u64, s: &[usize]) -> u64 {
    s.iter().fold(mix(h, s.len() as u64), |h, x| mix(h, *x as u64))
}

fn tree(r: &mut Rng, n: u32) -> Tree<Box<u32>> {
    let mut nodes: Vec<Tree<Box<u32>>> = (0..n).map(|i| Tree { value: Box::new(i), children: Vec::new() }).collect();
    let style = r.below(3);
    while nodes.len() > 1 {
        let x = nodes.pop().unwrap();
        let at = match style {
            0 => nodes.len() - 1,
            1 => r.below(nodes.len() as u64) as usize,
            _ => nodes.len() / 3,
        };
        nodes[at].children.insert(0, x);
    }
    nodes.pop().unwrap()
}
fn binary(r: &mut Rng, n: u32, from: u32) -> BinaryTree<Box<u32>> {
    let left = if n > 1 { r.below(n as u64) as u32 } else { 0 };
    let right = n - 1 - left;
    let side = |r: &mut Rng, n: u32, from| if n == 0 { None } else { Some(Box::new(binary(r, n, from))) };
    BinaryTree { value: Box::new(from), left: side(r, left, from + 1), right: side(r, right, from + 1 + left) }
}

type Task<'a> = Box<dyn FnMut() -> Option<u64> + 'a>;
trait Num {
    fn n(&self) -> u64;
}
impl Num for Box<u32> {
    fn n(&self) -> u64 {
        **self as u64
    }
}
impl Num for &Box<u32> {
    fn n(&self) -> u64 {
        ***self as u64
    }
}
impl Num for &mut Box<u32> {
    fn n(&self) -> u64 {
        ***self as u64
    }
}
fn plain<'a, I: Iterator + 'a>(mut i: I) -> Task<'a>
where
    I::Item: Num,
{
    Box::new(move || i.next().map(|v| v.n()))
}
fn leaves_at<'a, I, L>(mut i: I, at: u64, to: fn(I) -> L) -> Task<'a>
where
    I: Iterator + 'a,
    L: Iterator<Item = I::Item> + 'a,
    I::Item: Num,
{
    let mut h = 0;
    for _ in 0..at {
        if let Some(v) = i.next() {
            h = mix(h, v.n());
        }
    }
    let mut l = to(i);
    Box::new(move || l.next().map(|v| mix(h, v.n())))
}
fn ancestors<'a, V: Num, I: StreamingIterator<Item = [V]> + 'a>(mut i: I) -> Task<'a> {
    Box::new(move || i.next().map(|s| s.iter().fold(s.len() as u64, |h, v| mix(h, v.n()))))
}
fn context<'a, V: Num + 'a, C: 'a, I: StreamingIterator<Item = TreeContext<V, C>> + 'a>(mut i: I) -> Task<'a> {
    Box::new(move || i.next().map(|c| mixs(c.ancestors().iter().fold(c.depth() as u64, |h, v| mix(h, v.n())), c.path())))
}
/// Reverses the order of the values on the way to every third node.
fn writer<'a, V: Num, I: StreamingIteratorMut<Item = [V]> + 'a>(mut i: I) -> Task<'a> {
    let mut k = 0;
    Box::new(move || {
        i.next_mut().map(|s| {
            k += 1;
            if k % 3 == 0 {
                s.reverse();
            }
            s.iter().fold(s.len() as u64, |h, v| mix(h, v.n()))
        })
    })
}
/// Hash of a tree built by the library.
trait Digest {
    fn digest(&self) -> u64;
}
impl<V: Num> Digest for Tree<V> {
    fn digest(&self) -> u64 {
        self.children.iter().fold(mix(self.children.len() as u64, self.value.n()), |h, c| mix(h, c.digest()))
    }
}
impl<V: Num> Digest for BinaryTree<V> {
    fn digest(&self) -> u64 {
        let side = |s: &Option<Box<Self>>| s.as_ref().map_or(7, |s| s.digest());
        mix(mix(side(&self.left), side(&self.right)), self.value.n())
    }
}
impl Num for u64 {
    fn n(&self) -> u64 {
        *self
    }
}
fn once<'a>(f: impl FnOnce() -> u64 + 'a) -> Task<'a> {
    let mut f = Some(f);
    Box::new(move || f.take().map(|f| f()))
}

macro_rules! traversals {
    ($i:expr, $r:expr, $at:expr) => {{
        let i = $i;
        match $r.below(6) {
            0 | 1 => plain(i),
            2 => leaves_at(i, $at, |i| i.leaves()),
            3 => ancestors(i.attach_ancestors()),
            4 => context(i.attach_context()),
            _ => {
                let mut a = i.attach_ancestors();
                let mut h = 0;
                for _ in 0..$at {
                    match a.next() {
                        Some(s) => h = mix(h, s.len() as u64),
                        // a streaming iterator is not advanced past its end
                        None => break,
                    }
                }
                let mut l = a.leaves();
                Box::new(move || l.next().map(|s| s.iter().fold(h, |h, v| mix(h, v.n()))))
            }
        }
    }};
}
macro_rules! pipeline {
    ($p:expr, $r:expr) => {{
        let (a, b, d) = ($r.below(4) + 2, $r.below(5) + 2, $r.below(8) as usize);
        let p = $p.map_path(move |path, v| mixs(v.n(), path)).prune(move |v| v % (a + 4) == 0).prune_depth(d).prune_path(move |path, _| path.len() > 2 && path.last() == Some(&(b as usize)));
        match $r.below(4) {
            0 => once(move || p.collect_tree().map_or(1, |t| t.digest())),
            1 => once(move || p.fold_tree(move |kids, v| kids.iter().flatten_kids(v)).unwrap_or(2)),
            2 => once(move || p.fold_path(move |kids, path, v| mixs(kids.iter().flatten_kids(v), path)).unwrap_or(3)),
            _ => {
                let mut p = p;
                let mut k = 0u64;
                Box::new(move || {
                    let v = p.next()?;
                    k += 1;
                    let h = mixs(mix(v, p.current_depth() as u64), p.current_path());
                    if mix(k, a) % 5 == 0 {
                        p.prune_current_subtree();
                    }
                    Some(h)
                })
            }
        }
    }};
}
/// One way to hash what a fold got from the children, for lists and for sides.
trait Kids {
    fn flatten_kids(self, v: u64) -> u64;
}
impl<'a, I: Iterator<Item = &'a T>, T: Side + 'a> Kids for I {
    fn flatten_kids(self, v: u64) -> u64 {
        self.fold(v, |h, k| mix(h, k.side()))
    }
}
trait Side {
    fn side(&self) -> u64;
}
impl Side for u64 {
    fn side(&self) -> u64 {
        *self
    }
}
impl Side for Option<u64> {
    fn side(&self) -> u64 {
        self.unwrap_or(11)
    }
}

fn run(seed: u64) -> u64 {
    let r = &mut Rng(seed);
    let mut h = 0u64;
    let size = |r: &mut Rng| 1 + if r.below(10) == 0 { r.below(200) } else { r.below(24) } as u32;
    let mut forest: Vec<Tree<Box<u32>>> = (0..1 + r.below(4)).map(|_| { let n = size(r); tree(r, n) }).collect();
    let mut woods: Vec<BinaryTree<Box<u32>>> = (0..1 + r.below(4)).map(|_| { let n = size(r); binary(r, n, 0) }).collect();
    let (shared, shared_b) = (tree_of(&forest), woods.clone());
    {
        let mut left: Vec<&mut Tree<Box<u32>>> = forest.iter_mut().collect();
        let mut left_b: Vec<&mut BinaryTree<Box<u32>>> = woods.iter_mut().collect();
        let mut tasks: Vec<(Task, bool)> = Vec::new();
        for _ in 0..1 + r.below(4) {
            let at = r.below(12);
            let i = r.below(shared.len() as u64) as usize;
            let j = r.below(shared_b.len() as u64) as usize;
            let t: Task = match r.below(26) {
                0 => traversals!(shared[i].clone().bfs(), r, at),
                1 => traversals!(shared[i].clone().dfs_preorder(), r, at),
                2 => traversals!(shared[i].clone().dfs_postorder(), r, at),
                3 => traversals!(shared[i].bfs_iter(), r, at),
                4 => traversals!(shared[i].dfs_preorder_iter(), r, at),
                5 => traversals!(shared[i].dfs_postorder_iter(), r, at),
                6 => traversals!(shared_b[j].clone().bfs(), r, at),
                7 => traversals!(shared_b[j].clone().dfs_preorder(), r, at),
                8 => traversals!(shared_b[j].clone().dfs_inorder(), r, at),
                9 => traversals!(shared_b[j].clone().dfs_postorder(), r, at),
                10 => traversals!(shared_b[j].bfs_iter(), r, at),
                11 => traversals!(shared_b[j].dfs_preorder_iter(), r, at),
                12 => traversals!(shared_b[j].dfs_inorder_iter(), r, at),
                13 => traversals!(shared_b[j].dfs_postorder_iter(), r, at),
                14 => match left.pop() {
                    Some(t) => match r.below(5) {
                        0 => traversals!(t.bfs_iter_mut(), r, at),
                        1 => traversals!(t.dfs_preorder_iter_mut(), r, at),
                        2 => traversals!(t.dfs_postorder_iter_mut(), r, at),
                        3 => writer(t.bfs_iter_mut().attach_ancestors()),
                        _ => pipeline!(t.into_pipeline_mut(), r),
                    },
                    None => continue,
                },
                15 => match left_b.pop() {
                    Some(t) => match r.below(6) {
                        0 => traversals!(t.bfs_iter_mut(), r, at),
                        1 => traversals!(t.dfs_preorder_iter_mut(), r, at),
                        2 => traversals!(t.dfs_inorder_iter_mut(), r, at),
                        3 => traversals!(t.dfs_postorder_iter_mut(), r, at),
                        4 => writer(t.dfs_inorder_iter_mut().attach_ancestors()),
                        _ => pipeline!(t.into_pipeline_mut(), r),
                    },
                    None => continue,
                },
                16 => pipeline!(shared[i].clone().into_pipeline(), r),
                17 => pipeline!(shared_b[j].clone().into_pipeline(), r),
                18 => pipeline!(shared[i].into_pipeline_ref(), r),
                19 => pipeline!(shared_b[j].into_pipeline_ref(), r),
                20 => match r.below(4) {
                    0 => plain(OwnedIntoIteratorOfTrees::bfs_each(shared.clone())),
                    1 => context(OwnedIntoIteratorOfTrees::bfs_each(shared.clone()).attach_context()),
                    2 => context(OwnedIntoIteratorOfTrees::dfs_preorder_each(shared.clone()).attach_context()),
                    _ => context(OwnedIntoIteratorOfTrees::dfs_postorder_each(shared.clone()).attach_context()),
                },
                21 => match r.below(4) {
                    0 => plain(OwnedIntoIteratorOfBinaryTrees::dfs_inorder_each(shared_b.clone())),
                    1 => context(OwnedIntoIteratorOfBinaryTrees::bfs_each(shared_b.clone()).attach_context()),
                    2 => context(OwnedIntoIteratorOfBinaryTrees::dfs_inorder_each(shared_b.clone()).attach_context()),
                    _ => context(OwnedIntoIteratorOfBinaryTrees::dfs_postorder_each(shared_b.clone()).attach_context()),
                },
                22 => match r.below(3) {
                    0 => plain(BorrowedIntoIteratorOfTrees::dfs_preorder_each_iter(&shared)),
                    1 => context(BorrowedIntoIteratorOfTrees::bfs_each_iter(&shared).attach_context()),
                    _ => context(BorrowedIntoIteratorOfBinaryTrees::dfs_inorder_each_iter(&shared_b).attach_context()),
                },
                23 => {
                    let n = r.below(9);
                    let path: Vec<usize> = (0..r.below(5)).map(|_| r.below(4) as usize).collect();
                    let (s, b) = (&shared[i], &shared_b[j]);
                    once(move || {
                        let x = s.at_path_ref(&path).map_or(1, |t| t.value.n());
                        let y = b.at_path_ref(&path).map_or(2, |t| t.value.n());
                        let z = s.clone().at_path(&path).map_or(n, |t| t.digest());
                        mix(mix(x, y), z)
                    })
                }
                24 => {
                    let f = shared.clone();
                    let m = r.below(5) + 2;
                    once(move || {
                        let mut h = 0;
                        for t in OwnedIntoIteratorOfTrees::into_pipeline(f).prune(move |v| v.n() % m == 3).map_path(|p, v| mixs(v.n(), p)).trees() {
                            h = mix(h, t.digest());
                        }
                        h
                    })
                }
                _ => {
                    let f = shared_b.clone();
                    let m = r.below(5) + 2;
                    once(move || {
                        let mut h = 0;
                        for t in OwnedIntoIteratorOfBinaryTrees::into_pipeline(f).prune(move |v| v.n() % m == 3).map_path(|p, v| mixs(v.n(), p)).trees() {
                            h = mix(h, t.digest());
                        }
                        h
                    })
                }
            };
            tasks.push((t, r.below(6) == 0));
        }
        let mut budget = 4000;
        while !tasks.is_empty() && budget > 0 {
            budget -= 1;
            let k = r.below(tasks.len() as u64) as usize;
            match (tasks[k].0)() {
                Some(x) => h = mix(mix(h, k as u64), x),
                None => {
                    h = mix(h, 0xE0D);
                    drop(tasks.swap_remove(k));
                    continue;
                }
            }
            // cancelled part-way
            if tasks[k].1 && r.below(20) == 0 {
                drop(tasks.swap_remove(k));
            }
        }
    }
    h = forest.iter().fold(h, |h, t| mix(h, t.digest()));
    woods.iter().fold(h, |h, t| mix(h, t.digest()))
}
fn tree_of(f: &[Tree<Box<u32>>]) -> Vec<Tree<Box<u32>>> {
    f.to_vec()
}
fn all(base: u64, from: u64, count: u64, put: &mut dyn FnMut(&[u8])) {
    for i in from..from + count {
        let before = live();
        let h = run(mix(base, i));
        let after = live();
        let mut line = vec![b'H', b' '];
        for k in (0..16).rev() {
            line.push(b"0123456789abcdef"[(h >> (k * 4)) as usize & 15]);
        }
        if after != before {
            line.extend_from_slice(b" memory-not-returned");
        }
        line.push(b'\n');
        put(&line);
    }
}

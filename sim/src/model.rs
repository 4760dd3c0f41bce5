//! Executable reference model: an arena tree and the textbook definitions of the traversals.
use crate::plan::*;
use std::cell::Cell;
use std::collections::HashMap;
pub const NONE: u32 = u32::MAX;
#[derive(Clone, Debug)]
pub struct MNode {
    pub id: u32,
    pub parent: u32,
    pub kids: Vec<Option<u32>>,
    /// where this node was last found among its siblings (or the roots): a search hint
    pub at: Cell<u32>,
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub nodes: Vec<MNode>,
    pub roots: Vec<u32>,
    pub bin: bool,
}
impl Model {
    pub fn from_forest(f: &Forest) -> Model {
        let mut m = Model { bin: f.repr.bin(), ..Default::default() };
        if let Some((depth, pat)) = f.deep {
            m.deep(depth, pat);
            return m;
        }
        for &(p, slot) in &f.nodes {
            let i = m.nodes.len() as u32;
            m.push(p);
            if p == NONE || p >= i {
                m.nodes[i as usize].parent = NONE;
                m.roots.push(i);
            } else if m.bin {
                let s = (slot & 1) as usize;
                let k = &mut m.nodes[p as usize].kids;
                if k[s].is_none() {
                    k[s] = Some(i);
                } else if k[1 - s].is_none() {
                    k[1 - s] = Some(i);
                } else {
                    m.nodes.pop();
                    // keep indices aligned with the description: an unreachable dummy
                    m.push(p);
                }
            } else {
                m.nodes[p as usize].kids.push(Some(i));
            }
        }
        m
    }
    pub fn push(&mut self, parent: u32) -> u32 {
        let kids = if self.bin { vec![None, None] } else { Vec::new() };
        self.nodes.push(MNode { id: NONE, parent, kids, at: Cell::new(0) });
        (self.nodes.len() - 1) as u32
    }
    fn deep(&mut self, depth: u32, pat: u32) {
        let r = self.push(NONE);
        self.roots.push(r);
        if pat % 8 >= 5 {
            return self.forked(r, depth, pat);
        }
        let mut cur = r;
        for d in 0..depth {
            let h = crate::world::h64(pat as u64, d as u64);
            let n = self.push(cur);
            let side = match pat % 8 {
                0 => 0,
                1 => 1,
                2 => (h & 1) as usize,
                3 => (d & 1) as usize,
                _ => ((h >> 3) & 1) as usize,
            };
            let leaf = pat % 8 >= 2 && (h >> 8) % 7 == 0;
            if self.bin {
                self.nodes[cur as usize].kids[side] = Some(n);
                if leaf {
                    let l = self.push(cur);
                    self.nodes[cur as usize].kids[1 - side] = Some(l);
                }
            } else {
                if leaf && side == 1 {
                    let l = self.push(cur);
                    self.nodes[cur as usize].kids.push(Some(l));
                }
                self.nodes[cur as usize].kids.push(Some(n));
                if leaf && side == 0 {
                    let l = self.push(cur);
                    self.nodes[cur as usize].kids.push(Some(l));
                }
            }
            cur = n;
        }
    }
    /// A deep spine that splits into parallel deep chains: at the root (5), halfway (6), or
    /// near the bottom (7).
    fn forked(&mut self, r: u32, depth: u32, pat: u32) {
        let stem = match pat % 8 {
            5 => 0,
            6 => depth / 2,
            _ => depth - depth / 8,
        };
        let mut cur = r;
        for d in 0..stem {
            let n = self.push(cur);
            self.link(cur, n, (crate::world::h64(pat as u64, d as u64) & 1) as usize);
            cur = n;
        }
        let arms = if self.bin { 2 } else { 2 + (pat / 8 % 3) as usize };
        for a in 0..arms {
            let mut tip = cur;
            for d in stem..depth {
                let n = self.push(tip);
                let side = if tip == cur { a } else { (crate::world::h64(pat as u64 + a as u64, d as u64) & 1) as usize };
                self.link(tip, n, side);
                tip = n;
            }
        }
    }
    fn link(&mut self, p: u32, n: u32, side: usize) {
        if self.bin {
            self.nodes[p as usize].kids[side] = Some(n);
        } else {
            self.nodes[p as usize].kids.push(Some(n));
        }
    }
    pub fn kids(&self, n: u32) -> impl DoubleEndedIterator<Item = u32> + '_ {
        self.nodes[n as usize].kids.iter().flatten().copied()
    }
    pub fn leaf(&self, n: u32) -> bool {
        self.nodes[n as usize].kids.iter().all(|k| k.is_none())
    }
    pub fn order_of(&self, root: u32, o: Order) -> Vec<u32> {
        let mut out = Vec::new();
        match o {
            Order::Bfs => {
                out.push(root);
                let mut i = 0;
                while i < out.len() {
                    let n = out[i];
                    out.extend(self.nodes[n as usize].kids.iter().flatten().copied());
                    i += 1;
                }
            }
            Order::Pre => {
                let mut st = vec![root];
                while let Some(n) = st.pop() {
                    out.push(n);
                    st.extend(self.kids(n).rev());
                }
            }
            Order::Post => {
                let mut st = vec![root];
                while let Some(n) = st.pop() {
                    out.push(n);
                    st.extend(self.kids(n));
                }
                out.reverse();
            }
            Order::In => {
                // binary only
                let mut st = Vec::new();
                let mut cur = Some(root);
                loop {
                    while let Some(c) = cur {
                        st.push(c);
                        cur = self.nodes[c as usize].kids[0];
                    }
                    match st.pop() {
                        None => break,
                        Some(n) => {
                            out.push(n);
                            cur = self.nodes[n as usize].kids[1];
                        }
                    }
                }
            }
        }
        out
    }
    /// order over the first `n` roots (collections) or the first root only
    pub fn order(&self, o: Order, src: Src) -> Vec<u32> {
        let roots = self.src_roots(src);
        let mut v = Vec::new();
        for r in roots {
            v.extend(self.order_of(r, o));
        }
        v
    }
    pub fn src_roots(&self, src: Src) -> Vec<u32> {
        match src {
            Src::One => self.roots.iter().take(1).copied().collect(),
            Src::Hook(n) => self.roots.iter().take(n).copied().collect(),
            _ => self.roots.clone(),
        }
    }
    pub fn ancestors(&self, n: u32) -> Vec<u32> {
        let mut v = vec![n];
        let mut c = n;
        while self.nodes[c as usize].parent != NONE {
            c = self.nodes[c as usize].parent;
            v.push(c);
        }
        v.reverse();
        v
    }
    pub fn path(&self, n: u32) -> Vec<usize> {
        let mut v = Vec::new();
        let mut c = n;
        while self.nodes[c as usize].parent != NONE {
            let p = self.nodes[c as usize].parent;
            let n = &self.nodes[c as usize];
            let kids = &self.nodes[p as usize].kids;
            let hint = n.at.get() as usize;
            let slot = if kids.get(hint) == Some(&Some(c)) {
                hint
            } else if kids.get(hint + 1) == Some(&Some(c)) {
                hint + 1
            } else {
                self.index_kids(p);
                kids.iter().position(|k| *k == Some(c)).unwrap_or(usize::MAX)
            };
            v.push(slot);
            c = p;
        }
        v.reverse();
        v
    }
    fn index_kids(&self, p: u32) {
        for (i, k) in self.nodes[p as usize].kids.iter().enumerate() {
            if let Some(k) = k {
                self.nodes[*k as usize].at.set(i as u32);
            }
        }
    }
    pub fn root_of(&self, n: u32) -> u32 {
        let mut c = n;
        while self.nodes[c as usize].parent != NONE {
            c = self.nodes[c as usize].parent;
        }
        c
    }
    pub fn root_index(&self, n: u32) -> usize {
        let r = self.root_of(n);
        let h = self.nodes[r as usize].at.get() as usize;
        if self.roots.get(h) == Some(&r) {
            return h;
        }
        for (i, x) in self.roots.iter().enumerate() {
            self.nodes[*x as usize].at.set(i as u32);
        }
        self.roots.iter().position(|x| *x == r).unwrap_or(usize::MAX)
    }
    pub fn at(&self, root: u32, path: &[usize]) -> Option<u32> {
        let mut c = root;
        for &s in path {
            c = (*self.nodes[c as usize].kids.get(s)?)?;
        }
        Some(c)
    }
    /// How many nodes a traversal has to remember at most. Depth-first: the levels of the highest
    /// tree. Breadth-first: the nodes of three neighbouring levels, and when ancestors are shown
    /// (`up`) also all ancestors of those, with the lists of their children.
    pub fn pending(&self, src: Src, bfs: bool, up: bool) -> u64 {
        let mut worst = 0u64;
        for r in self.src_roots(src) {
            let all = self.order_of(r, Order::Bfs);
            let mut level: HashMap<u32, usize> = HashMap::new();
            let mut deepest: HashMap<u32, usize> = HashMap::new();
            for n in &all {
                let l = level.get(&self.nodes[*n as usize].parent).map_or(0, |l| l + 1);
                level.insert(*n, l);
                deepest.insert(*n, l);
            }
            for n in all.iter().rev() {
                let d = deepest[n];
                if let Some(p) = deepest.get_mut(&self.nodes[*n as usize].parent) {
                    *p = d.max(*p);
                }
            }
            if !bfs {
                worst = worst.max(deepest[&r] as u64 + 1);
                continue;
            }
            // difference array over the current level
            let mut diff = vec![0i64; deepest[&r] + 4];
            for n in &all {
                let p = self.nodes[*n as usize].parent;
                let to = if up { deepest.get(&p).copied().unwrap_or(deepest[n]) } else { level[n] };
                diff[level[n].saturating_sub(1)] += 1;
                diff[to + 2] -= 1;
            }
            let mut now = 0;
            for d in diff {
                now += d;
                worst = worst.max(now as u64);
            }
        }
        worst
    }
}

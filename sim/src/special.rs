//! Scenario engines that need their own world: stream faults around serialisation, unbounded
//! lazily generated trees and sources, and copies/comparisons.
use crate::drv::{obs_ctx, Kids, Obs, ValLike};
use crate::exec::*;
use crate::model::*;
use crate::nodes::*;
use crate::plan::*;
use crate::world::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::RefCell;
use std::collections::{BTreeSet, VecDeque};
use std::io::{self, Read, Write};
use streaming_iterator::StreamingIterator;
use tree_iterators_rs::prelude::*;

pub fn run(plan: &Plan, sp: &Special) -> RunOut {
    let _h = Har::enter();
    let mut probes = Probes::default();
    if let Special::Serde { tree, .. } | Special::Clone { tree, .. } | Special::Kinds { tree, .. } = sp {
        // copying one context costs its whole subtree, and every ancestor
        let mut depth = vec![1u64; tree.nodes.len()];
        for (k, n) in tree.nodes.iter().enumerate() {
            if let Some(d) = depth[..k].get(n.0 as usize) {
                depth[k] = d + 1;
            }
        }
        with(|w| w.budget = 500_000 + 200 * depth.len() as u64 + 30 * depth.iter().sum::<u64>());
    }
    let what = match sp {
        #[cfg(not(feature = "serde"))]
        Special::Serde { .. } => "serde",
        #[cfg(feature = "serde")]
        Special::Serde { tree, .. } => {
            if tree.repr.bin() {
                serde_run::<BinaryTree<Val>>(sp, &mut probes);
            } else {
                serde_run::<Tree<Val>>(sp, &mut probes);
            }
            "serde"
        }
        Special::Kinds { .. } => {
            crate::kinds::run(sp, &mut probes);
            "kinds"
        }
        Special::Lazy { .. } => {
            lazy_run(sp, &mut probes);
            "lazy"
        }
        Special::Clone { tree, edit, snap } => {
            if tree.repr.bin() {
                clone_bin(tree, *edit, *snap, &mut probes);
            } else {
                clone_nary(tree, *edit, *snap, &mut probes);
            }
            "clone"
        }
    };
    with(|w| w.faults_armed = false);
    let fault = with(|w| w.fault_happened);
    ledger(fault, what, plan);
    collect(probes)
}

// ================================================================ serialisation
impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let v = self.rd();
        hook(Site::Expand, v.root);
        s.serialize_u32(v.root)
    }
}
impl<'de> Deserialize<'de> for Val {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Val, D::Error> {
        hook(Site::Closure, 0);
        let r = u32::deserialize(d)?;
        Ok(Val::derived(r, 0))
    }
}
struct SimIo {
    data: Vec<u8>,
    at: usize,
    chunks: Vec<u32>,
    calls: u32,
    faults: Vec<(u32, u8)>,
    eof: bool,
    hard: bool,
    fired: [u32; 8],
}
impl SimIo {
    fn new(data: Vec<u8>, chunks: &[u32], faults: &[(u32, u8)]) -> SimIo {
        SimIo { data, at: 0, chunks: chunks.to_vec(), calls: 0, faults: faults.to_vec(), eof: false, hard: false, fired: [0; 8] }
    }
    fn act(&mut self, lo: u8) -> (usize, Option<u8>) {
        let n = self.calls;
        self.calls += 1;
        let c = if self.chunks.is_empty() { 1 << 20 } else { self.chunks[n as usize % self.chunks.len()].max(1) as usize };
        let f = self.faults.iter().find(|f| f.0 == n && f.1 / 4 == lo).map(|f| f.1);
        if let Some(f) = f {
            self.fired[f as usize & 7] += 1;
        }
        (c, f)
    }
}
impl Read for SimIo {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let _h = Har::enter();
        if b.is_empty() {
            return Ok(0);
        }
        let (c, f) = self.act(0);
        hook(Site::SrcNext, self.calls);
        match f {
            Some(0) => return Err(io::ErrorKind::Interrupted.into()),
            Some(1) => {
                self.hard = true;
                return Err(io::ErrorKind::ConnectionReset.into());
            }
            Some(_) if self.at < self.data.len() => {
                self.eof = true;
                self.hard = true;
            }
            _ => {}
        }
        if self.eof {
            return Ok(0);
        }
        let n = c.min(b.len()).min(self.data.len() - self.at);
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
impl Write for SimIo {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let _h = Har::enter();
        if b.is_empty() {
            return Ok(0);
        }
        let (c, f) = self.act(1);
        match f {
            Some(4) => return Err(io::ErrorKind::Interrupted.into()),
            Some(5) => {
                self.hard = true;
                return Err(io::ErrorKind::StorageFull.into());
            }
            Some(_) => {
                self.hard = true;
                return Ok(0);
            }
            _ => {}
        }
        let n = c.min(b.len());
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn flat_model(m: &Model, root: u32) -> Vec<(u32, Vec<bool>)> {
    m.order_of(root, Order::Pre).into_iter().map(|n| (m.nodes[n as usize].id, m.nodes[n as usize].kids.iter().map(|k| k.is_some()).collect())).collect()
}
fn flat_node<N: HNode>(n: &N) -> Vec<(u32, Vec<bool>)> {
    let mut out = vec![];
    let mut st = vec![n];
    while let Some(n) = st.pop() {
        let k = n.kid_refs();
        out.push((n.val().rd().root, k.iter().map(|k| k.is_some()).collect()));
        st.extend(k.into_iter().flatten().rev());
    }
    out
}
/// Finds the nth object of a JSON tree in preorder.
#[cfg(feature = "serde")]
fn nth_obj<'a>(v: &'a mut serde_json::Value, n: &mut u32) -> Option<&'a mut serde_json::Map<String, serde_json::Value>> {
    use serde_json::Value as V;
    match v {
        V::Object(m) => {
            if *n == 0 {
                return Some(m);
            }
            *n -= 1;
            for (_, c) in m.iter_mut() {
                if let Some(r) = nth_obj(c, n) {
                    return Some(r);
                }
            }
            None
        }
        V::Array(a) => {
            for c in a {
                if let Some(r) = nth_obj(c, n) {
                    return Some(r);
                }
            }
            None
        }
        _ => None,
    }
}
#[cfg(feature = "serde")]
fn serde_run<N: HNode + Serialize + for<'a> Deserialize<'a>>(sp: &Special, pr: &mut Probes) {
    let (f, fmt, chunks, faults, cut, drop_field) = match sp {
        Special::Serde { tree, fmt, chunks, faults, cut, drop_field } => (tree, *fmt, chunks, faults, *cut, *drop_field),
        _ => unreachable!(),
    };
    let kind = if f.repr.bin() { "binary" } else { "nary" };
    let cfg = format!("{kind}/{}", ["json", "json-value", "bincode"][fmt as usize % 3]);
    let mut m = Model::from_forest(f);
    if m.roots.is_empty() {
        return;
    }
    let root = m.roots[0];
    let node: N = build(&mut m, root, 0, false);
    let want = flat_model(&m, root);
    let keep = vec![node];
    with(|w| w.cur_tag = "C17");
    // ---- write
    let mut out = SimIo::new(vec![], chunks, faults);
    let r = guarded(|| {
        let n = &keep[0];
        if fmt % 3 == 2 {
            bincode::serialize_into(&mut out, n).map_err(|e| e.to_string())
        } else {
            serde_json::to_writer(&mut out, n).map_err(|e| e.to_string())
        }
    });
    log(out.data.len() as u64);
    let data = match r {
        Caught::Ok(Ok(())) => {
            if out.hard {
                issue(&["C17"], format!("write-fault-ignored/{cfg}"), format!("writing succeeded although the stream failed ({cfg})"));
            }
            Some(std::mem::take(&mut out.data))
        }
        Caught::Ok(Err(e)) => {
            pr.serde_err += 1;
            if !out.hard {
                issue(&["C17"], format!("write-error/{cfg}"), format!("writing failed without a stream fault: {e} ({cfg})"));
            }
            None
        }
        Caught::Injected => None,
        Caught::Budget => None,
        Caught::Library(p) => {
            issue(&["C17"], format!("write-panic/{cfg}"), format!("writing panicked: {p}"));
            None
        }
    };
    if keep[0].kid_refs().len() > 1_000_000 || flat_node(&keep[0]) != want {
        issue(&["C17"], format!("write-damaged/{cfg}"), "serialising changed the tree");
    }
    // ---- damage and read
    if let Some(mut data) = data {
        let mut must_fail = false;
        if let (Some((n, k)), true) = (drop_field, fmt % 3 != 2) {
            if let Ok(mut v) = serde_json::from_slice::<serde_json::Value>(&data) {
                let mut n = n % want.len() as u32;
                if let Some(o) = nth_obj(&mut v, &mut n) {
                    let bin = f.repr.bin();
                    let before = o.len();
                    match k % 5 {
                        0 => {
                            o.remove("value");
                        }
                        1 if bin => {
                            o.insert("left".into(), serde_json::json!(3));
                        }
                        1 => {
                            o.remove("children");
                        }
                        2 => {
                            o.insert("value".into(), serde_json::json!("x"));
                        }
                        3 if bin => {
                            o.insert("right".into(), serde_json::json!([1]));
                        }
                        3 => {
                            o.insert("children".into(), serde_json::Value::Null);
                        }
                        _ => {
                            o.insert("value".into(), serde_json::Value::Null);
                        }
                    }
                    must_fail = before > 0;
                    data = serde_json::to_vec(&v).unwrap_or(data);
                }
            }
        }
        if let Some(c) = cut {
            let c = c as usize % data.len().max(1);
            data.truncate(c);
            must_fail = true;
        }
        let mut inp = SimIo::new(data, chunks, faults);
        let r: Caught<Result<N, String>> = guarded(|| match fmt % 3 {
            2 => bincode::deserialize_from(&mut inp).map_err(|e| e.to_string()),
            1 => serde_json::from_reader::<_, serde_json::Value>(&mut inp).map_err(|e| e.to_string()).and_then(|v| serde_json::from_value(v).map_err(|e| e.to_string())),
            _ => serde_json::from_reader(&mut inp).map_err(|e| e.to_string()),
        });
        log(inp.calls as u64);
        for (i, n) in inp.fired.iter().enumerate() {
            log((i as u64) << 8 | *n as u64);
        }
        with(|w| {
            for i in 0..3 {
                w.fired[Site::SrcInto as usize] += inp.fired[i] as u64;
            }
            for i in 4..7 {
                w.fired[Site::SrcInto as usize] += out.fired[i] as u64;
            }
            w.fired[Site::IntoKids as usize] += must_fail as u64;
        });
        match r {
            Caught::Ok(Ok(t)) => {
                pr.serde_ok += 1;
                if must_fail || inp.hard {
                    issue(&["C17"], format!("read-fault-ignored/{cfg}"), format!("reading a damaged stream produced a tree (cut {cut:?}, damaged part {drop_field:?}, {cfg})"));
                } else if flat_node(&t) != want {
                    issue(&["C17"], format!("roundtrip-differs/{cfg}"), format!("read back {:?} instead of {want:?} ({cfg})", flat_node(&t)));
                }
                dismantle(vec![t]);
            }
            Caught::Ok(Err(e)) => {
                pr.serde_err += 1;
                if !must_fail && !inp.hard {
                    issue(&["C17"], format!("read-error/{cfg}"), format!("reading failed without damage: {e} ({cfg})"));
                }
            }
            Caught::Injected => {}
            Caught::Budget => issue(&["C17"], "no-termination", "reading did not terminate"),
            Caught::Library(p) => issue(&["C17"], format!("read-panic/{cfg}"), format!("reading panicked: {p} ({cfg})")),
        }
    }
    with(|w| w.faults_armed = false);
    dismantle(keep);
}

// ================================================================ copies and comparisons
impl Clone for Val {
    fn clone(&self) -> Val {
        let s = self.rd();
        hook(Site::Closure, s.root);
        Val::derived(s.root, s.mark)
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        let (a, b) = (self.rd(), o.rd());
        hook(Site::Expand, a.root);
        a.root == b.root && a.mark == b.mark
    }
}
impl Default for Val {
    fn default() -> Val {
        hook(Site::KidNext, 0);
        Val::derived(u32::MAX - 1, 9)
    }
}
/// Equal by key only; the key 0 is not equal to itself.
struct Odd(u32, #[allow(dead_code)] u32);
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool {
        self.0 != 0 && self.0 == o.0
    }
}
macro_rules! clone_scenario {
    ($name:ident, $tree:ident, $Ref:ident, $Mut:ident, $edit:expr, $refs:path, $vals:path) => {
        fn $name(f: &Forest, edit: (u32, u8), snap: Option<(Order, bool, bool, u32)>, pr: &mut Probes) {
            let mut m = Model::from_forest(f);
            if m.roots.is_empty() {
                return;
            }
            let cfg = stringify!($tree);
            let root = m.roots[0];
            let mut keep = vec![build::<$tree<Val>>(&mut m, root, 0, false)];
            let want = flat_model(&m, root);
            with(|w| w.cur_tag = "C18");
            let mut copies: Vec<$tree<Val>> = vec![];
            for how in 0..3 {
                let src = &mut keep[0];
                let r = guarded(|| match how {
                    0 => src.clone(),
                    1 => $Ref::map_ref(&*src, |v: &Val| v).cloned(),
                    _ => $Mut::map_mut(src, |v: &mut Val| v).cloned(),
                });
                match r {
                    Caught::Ok(c) => {
                        pr.pipe_outs += 1;
                        let got = flat_node(&c);
                        if got != want {
                            issue(&["C18"], format!("copy-differs/{cfg}"), format!("copy {how} is {got:?} instead of {want:?}"));
                        }
                        copies.push(c);
                    }
                    Caught::Library(p) => issue(&["C18"], format!("copy-panicked/{cfg}"), p),
                    Caught::Budget => issue(&["C18"], "no-termination", "copying did not terminate"),
                    Caught::Injected => log(5),
                }
            }
            for c in &copies {
                match guarded(|| (*c == keep[0], keep[0] == *c, *c != keep[0])) {
                    Caught::Ok((true, true, false)) => pr.pipe_outs += 1,
                    Caught::Ok(_) => issue(&["C18"], format!("equal-trees-differ/{cfg}"), "a copy does not compare equal to its original"),
                    Caught::Library(p) => issue(&["C18"], format!("compare-panicked/{cfg}"), p),
                    _ => {}
                }
            }
            // a copy is independent, and any single difference is seen
            if let Some(mut c) = copies.pop() {
                let changed: bool = {
                    let mut n = edit.0 % want.len() as u32;
                    let f: fn(&mut $tree<Val>, &mut u32, u8) -> Option<bool> = $edit;
                    f(&mut c, &mut n, edit.1).unwrap_or(false)
                };
                if changed {
                    match guarded(|| (c == keep[0], keep[0] == c)) {
                        Caught::Ok((false, false)) => pr.pipe_outs += 1,
                        Caught::Ok(_) => issue(&["C18"], format!("different-trees-equal/{cfg}"), format!("trees that differ at node {} (kind {}) compare equal", edit.0, edit.1)),
                        Caught::Library(p) => issue(&["C18"], format!("compare-panicked/{cfg}"), p),
                        _ => {}
                    }
                }
                // other notions of equality: by key only, never equal (like NaN), nothing to compare but the shape
                {
                    let (x, y) = (flat_node(&keep[0]), flat_node(&c));
                    let odd = |s: &$tree<Val>, tag: u32, nan: bool| $Ref::map_ref(s, |v: &Val| Odd(if nan && (v.rd().root + edit.0) % 7 == 0 { 0 } else { 1 + (v.rd().root + v.rd().mark) % 5 }, tag));
                    let bare = |s: &$tree<Val>| $Ref::map_ref(s, |_: &Val| ());
                    let key = |f: &Vec<(u32, Vec<bool>)>| f.iter().map(|n| n.1.clone()).collect::<Vec<_>>();
                    for nan in [false, true] {
                        let (a, b) = (odd(&keep[0], 1, nan), odd(&keep[0], 2, nan));
                        let refl = !(nan && x.iter().any(|n| (n.0 + edit.0) % 7 == 0));
                        match guarded(|| (a == b, a != b, a == a)) {
                            Caught::Ok((e, n, s)) if e == refl && n != refl && s == refl => pr.pipe_outs += 1,
                            Caught::Ok(r) => issue(&["C18"], format!("equality-of-values-ignored/{cfg}"), format!("(a == b, a != b, a == a) are {r:?} where every pair of values is equal: {refl}")),
                            Caught::Library(p) => issue(&["C18"], format!("compare-panicked/{cfg}"), p),
                            _ => {}
                        }
                    }
                    let (a, b) = (bare(&keep[0]), bare(&c));
                    let same = key(&x) == key(&y);
                    match guarded(|| (a == b, b == a)) {
                        Caught::Ok((e, f)) if e == same && f == same => pr.pipe_outs += 1,
                        Caught::Ok(r) => issue(&["C18"], format!("shape-ignored/{cfg}"), format!("trees without values: comparing gives {r:?}, equal shapes: {same}")),
                        Caught::Library(p) => issue(&["C18"], format!("compare-panicked/{cfg}"), p),
                        _ => {}
                    }
                }
                if flat_node(&keep[0]) != want || (!copies.is_empty() && flat_node(&copies[0]) != want) {
                    issue(&["C18"], format!("copy-not-independent/{cfg}"), "editing a copy changed another tree");
                }
                // copying over an existing tree: one that differs a little, a single node, a bigger one
                if changed || edit.1 % 2 == 0 {
                    let over = |dst: &mut $tree<Val>, src: &$tree<Val>, want: &dyn Fn(&Vec<(u32, Vec<bool>)>) -> bool, what: &str| match guarded(|| dst.clone_from(src)) {
                        Caught::Ok(()) => {
                            if !want(&flat_node(dst)) {
                                issue(&["C18"], format!("copy-differs/{cfg}"), format!("clone_from() over {what} gave {:?}", flat_node(dst)));
                            }
                        }
                        Caught::Library(p) => issue(&["C18"], format!("copy-panicked/{cfg}"), p),
                        _ => {}
                    };
                    over(&mut c, &keep[0], &|g| *g == want, "a tree that differs in one place");
                    if let (Caught::Ok(mut d), Caught::Ok(d2)) = (guarded(|| $tree::<Val>::default()), guarded(|| $tree::<Val>::default())) {
                        over(&mut d, &keep[0], &|g| *g == want, "a single node");
                        over(&mut d, &d2, &|g| *g == flat_node(&d2), "a bigger tree");
                        let armed = with(|w| std::mem::replace(&mut w.faults_armed, false));
                        dismantle(vec![d, d2]);
                        with(|w| w.faults_armed = armed);
                    }
                }
                copies.push(c);
            }
            if let Some((o, by_ref, coll, every)) = snap {
                // the harness's own copies of the tree, as they were
                if by_ref {
                    let v: &'static Vec<$tree<Val>> = unsafe { &*(&keep as *const _) };
                    $refs(v, o, coll, every, pr);
                } else if let Some(c) = if copies.len() > 1 { Some(copies.remove(0)) } else { None } {
                    $vals(vec![c], o, coll, every, pr);
                }
                if flat_node(&keep[0]) != want {
                    issue(&["C18"], format!("snapshot-damaged/{cfg}"), "cloning contexts changed the tree");
                }
            }
            match guarded(|| $tree::<Val>::default()) {
                Caught::Ok(d) => {
                    let s = d.value.rd();
                    if s.root != u32::MAX - 1 || s.mark != 9 || d.kid_refs().iter().any(|k| k.is_some()) {
                        issue(&["C18"], format!("default-not-structural/{cfg}"), "the default tree is not one default value without children");
                    }
                    with(|w| w.faults_armed = false);
                    drop(d);
                }
                Caught::Library(p) => issue(&["C18"], format!("default-panicked/{cfg}"), p),
                _ => {}
            }
            with(|w| w.faults_armed = false);
            dismantle(copies);
            dismantle(keep);
        }
    };
}
/// Walks a context traversal, cloning contexts on the way; a clone is what was exposed, for good.
fn snaps<V: ValLike + Clone, K: Kids + Clone, S: StreamingIterator<Item = TreeContext<V, K>>>(s: S, cfg: String, every: u32, pr: &mut Probes) {
    fn show(o: &Obs) -> (Vec<(u32, u32)>, &Option<Vec<usize>>, usize, Option<Vec<Option<(u32, u32)>>>) {
        (
            o.anc.iter().map(|s| (s.root, s.mark)).collect(),
            &o.path,
            o.depth,
            o.kids.as_ref().map(|k| k.iter().map(|s| s.map(|s| (s.root, s.mark))).collect()),
        )
    }
    let mut s = Some(s);
    let mut kept: Vec<(Obs, TreeContext<V, K>)> = vec![];
    let mut n = 0u32;
    loop {
        let it = s.as_mut().unwrap();
        let r = guarded(|| match it.next() {
            None => None,
            Some(c) if n % every == 0 => {
                let mut o = Obs::default();
                obs_ctx(c, &mut o);
                match kept.last() {
                    // over a copy of an earlier one
                    Some((_, k)) if n % 3 == 0 => {
                        let mut d = k.clone();
                        d.clone_from(c);
                        Some(Some((o, d)))
                    }
                    _ => Some(Some((o, c.clone()))),
                }
            }
            Some(_) => Some(None),
        });
        n += 1;
        match r {
            Caught::Ok(None) => break,
            Caught::Ok(Some(None)) => {}
            Caught::Ok(Some(Some(k))) => kept.push(k),
            Caught::Injected => {
                log(7);
                break;
            }
            Caught::Budget => {
                issue(&["C18"], "no-termination", "cloning contexts did not terminate");
                break;
            }
            Caught::Library(p) => {
                if !with(|w| w.fault_happened) {
                    issue(&["C18"], format!("snapshot-panicked/{cfg}"), p);
                }
                break;
            }
        }
    }
    with(|w| w.faults_armed = false);
    // the clones outlive what they were cloned from
    let it = s.take();
    drop(it);
    for (o, c) in &kept {
        let mut now = Obs::default();
        obs_ctx(c, &mut now);
        log(now.anc.last().map_or(0, |s| s.root) as u64);
        if show(&now) != show(o) {
            issue(&["C18", "C03"], format!("snapshot-differs/{cfg}"), format!("a cloned context shows {:?} where {:?} was exposed ({cfg})", show(&now), show(o)));
            break;
        }
        pr.pipe_outs += 1;
    }
    for (_, c) in kept {
        drop(c);
    }
}
macro_rules! snap_fns {
    ($refs:ident, $vals:ident, $t:ty, $n:expr, [$($o:pat => $r:ident $v:ident $re:ident $ve:ident),*]) => {
        fn $refs(v: &'static Vec<$t>, o: Order, coll: bool, every: u32, pr: &mut Probes) {
            let cfg = format!("{}/ref/{o:?}{}", $n, if coll { "/each" } else { "" });
            match (o, coll) {
                $(($o, false) => snaps(v[0].$r().attach_context(), cfg, every, pr),
                  ($o, true) => snaps(v.$re().attach_context(), cfg, every, pr),)*
            }
        }
        fn $vals(mut v: Vec<$t>, o: Order, coll: bool, every: u32, pr: &mut Probes) {
            let cfg = format!("{}/owned/{o:?}{}", $n, if coll { "/each" } else { "" });
            match (o, coll) {
                $(($o, false) => snaps(v.pop().unwrap().$v().attach_context(), cfg, every, pr),
                  ($o, true) => snaps(v.$ve().attach_context(), cfg, every, pr),)*
            }
        }
    };
}
snap_fns!(snap_nary_ref, snap_nary_val, Tree<Val>, "Tree", [
    Order::Pre => dfs_preorder_iter dfs_preorder dfs_preorder_each_iter dfs_preorder_each,
    Order::Bfs => bfs_iter bfs bfs_each_iter bfs_each,
    Order::Post | Order::In => dfs_postorder_iter dfs_postorder dfs_postorder_each_iter dfs_postorder_each
]);
snap_fns!(snap_bin_ref, snap_bin_val, BinaryTree<Val>, "BinaryTree", [
    Order::Pre => dfs_preorder_iter dfs_preorder dfs_preorder_each_iter dfs_preorder_each,
    Order::Bfs => bfs_iter bfs bfs_each_iter bfs_each,
    Order::Post => dfs_postorder_iter dfs_postorder dfs_postorder_each_iter dfs_postorder_each,
    Order::In => dfs_inorder_iter dfs_inorder dfs_inorder_each_iter dfs_inorder_each
]);
fn edit_nary(t: &mut Tree<Val>, n: &mut u32, k: u8) -> Option<bool> {
    if *n == 0 {
        return Some(match k % 3 {
            0 => {
                t.value.mark = t.value.mark.wrapping_add(1);
                true
            }
            1 => {
                let r = t.children.pop().is_some();
                r
            }
            _ => {
                // values are unique, so any swap differs
                let l = t.children.len();
                if l > 1 {
                    t.children.swap(0, l - 1);
                }
                l > 1
            }
        });
    }
    *n -= 1;
    for c in &mut t.children {
        if let Some(r) = edit_nary(c, n, k) {
            return Some(r);
        }
    }
    None
}
fn edit_bin(t: &mut BinaryTree<Val>, n: &mut u32, k: u8) -> Option<bool> {
    if *n == 0 {
        return Some(match k % 4 {
            0 => {
                t.value.mark = t.value.mark.wrapping_add(1);
                true
            }
            1 => t.left.take().is_some(),
            2 => t.right.take().is_some(),
            _ => {
                std::mem::swap(&mut t.left, &mut t.right);
                t.left.is_some() || t.right.is_some()
            }
        });
    }
    *n -= 1;
    for c in [&mut t.left, &mut t.right].into_iter().flatten() {
        if let Some(r) = edit_bin(c, n, k) {
            return Some(r);
        }
    }
    None
}
clone_scenario!(clone_nary, Tree, BorrowedTreeNode, MutBorrowedTreeNode, edit_nary, snap_nary_ref, snap_nary_val);
clone_scenario!(clone_bin, BinaryTree, BorrowedBinaryTreeNode, MutBorrowedBinaryTreeNode, edit_bin, snap_bin_ref, snap_bin_val);

// ================================================================ unbounded generators
#[derive(Clone, Copy)]
struct G {
    /// identity of the generated node
    id: u32,
    /// None: infinitely deep below; Some(n): at most n levels below
    ttl: Option<u32>,
    /// 0: infinitely many children
    fan: u32,
}
fn gid(p: u32, i: u64) -> u32 {
    (h64(p as u64 ^ 0x1A2B, i) as u32) >> 1
}
impl G {
    fn root(shape: u64, i: u64, fan: u32, finite: bool) -> G {
        let id = gid(shape as u32, i ^ 0x5151);
        G { id, ttl: if finite { Some((h64(id as u64, 3) % 3) as u32) } else { None }, fan }
    }
    /// number of children; None = unbounded
    fn count(&self) -> Option<u64> {
        match (self.ttl, self.fan) {
            (Some(0), _) => Some(0),
            (Some(_), _) => Some(h64(self.id as u64, 4) % 4),
            (None, 0) => None,
            (None, f) => Some(f as u64),
        }
    }
    fn kid(&self, i: u64) -> Option<G> {
        if let Some(n) = self.count() {
            if i >= n {
                return None;
            }
        }
        let id = gid(self.id, i);
        let fin = Some((h64(id as u64, 5) % 3) as u32);
        let ttl = match (self.ttl, self.count()) {
            (Some(t), _) => Some(t - 1),
            (None, None) => {
                if h64(id as u64, 6) % 6 == 0 {
                    None
                } else {
                    fin
                }
            }
            (None, Some(n)) => {
                if i + 1 == n {
                    None
                } else {
                    fin
                }
            }
        };
        Some(G { id, ttl, fan: self.fan })
    }
    fn slots(&self) -> [Option<G>; 2] {
        let h = h64(self.id as u64, 7);
        let mk = |i: u64, ttl| Some(G { id: gid(self.id, i), ttl, fan: self.fan });
        let fin = Some((h >> 20) as u32 % 3);
        match self.ttl {
            Some(0) => [None, None],
            Some(t) => [if h & 1 == 0 { mk(0, Some(t - 1)) } else { None }, if h & 2 == 0 { mk(1, Some(t - 1)) } else { None }],
            None => match (h >> 4) % 4 {
                0 => [mk(0, None), if h & 1 == 0 { mk(1, fin) } else { None }],
                1 => [None, mk(1, None)],
                _ => [mk(0, fin), mk(1, None)],
            },
        }
    }
    fn val(&self) -> Val {
        Val::derived(self.id, 0)
    }
}
thread_local! {
    static ARENA_N: RefCell<Vec<*mut LNode>> = const { RefCell::new(Vec::new()) };
    static ARENA_B: RefCell<Vec<*mut LBin>> = const { RefCell::new(Vec::new()) };
}
pub struct LNode {
    g: G,
    val: Val,
}
impl LNode {
    fn new(g: G) -> LNode {
        LNode { g, val: g.val() }
    }
    fn leak(g: G) -> &'static mut LNode {
        let _h = Har::enter();
        let p = Box::into_raw(Box::new(LNode::new(g)));
        ARENA_N.with(|a| a.borrow_mut().push(p));
        unsafe { &mut *p }
    }
}
pub struct LKids<T> {
    g: G,
    i: u64,
    p: std::marker::PhantomData<T>,
}
fn lkids<T>(g: G) -> LKids<T> {
    LKids { g, i: 0, p: std::marker::PhantomData }
}
trait FromG {
    fn from_g(g: G) -> Self;
}
impl FromG for LNode {
    fn from_g(g: G) -> LNode {
        LNode::new(g)
    }
}
impl FromG for &'static mut LNode {
    fn from_g(g: G) -> Self {
        LNode::leak(g)
    }
}
impl FromG for &'static LNode {
    fn from_g(g: G) -> Self {
        LNode::leak(g)
    }
}
impl FromG for LBin {
    fn from_g(g: G) -> LBin {
        LBin::new(g)
    }
}
impl FromG for &'static mut LBin {
    fn from_g(g: G) -> Self {
        LBin::leak(g)
    }
}
impl FromG for &'static LBin {
    fn from_g(g: G) -> Self {
        LBin::leak(g)
    }
}
impl<T: FromG> Iterator for LKids<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        hook(Site::KidNext, self.g.id);
        let k = self.g.kid(self.i)?;
        self.i += 1;
        Some(T::from_g(k))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.g.count() {
            None => (usize::MAX, None),
            Some(_) => (0, None),
        }
    }
}
impl OwnedTreeNode for LNode {
    type OwnedValue = Val;
    type OwnedChildren = LKids<LNode>;
    fn get_value_and_children(self) -> (Val, LKids<LNode>) {
        hook(Site::Expand, self.g.id);
        (self.val, lkids(self.g))
    }
}
impl MutBorrowedTreeNode<'static> for LNode {
    type MutBorrowedValue = &'static mut Val;
    type MutBorrowedChildren = LKids<&'static mut LNode>;
    fn get_value_and_children_iter_mut(&'static mut self) -> (&'static mut Val, Self::MutBorrowedChildren) {
        hook(Site::Expand, self.g.id);
        (&mut self.val, lkids(self.g))
    }
}
impl BorrowedTreeNode<'static> for LNode {
    type BorrowedValue = &'static Val;
    type BorrowedChildren = LKids<&'static LNode>;
    fn get_value_and_children_iter(&'static self) -> (&'static Val, Self::BorrowedChildren) {
        hook(Site::Expand, self.g.id);
        (&self.val, lkids(self.g))
    }
}
pub struct LBin {
    g: G,
    val: Val,
}
impl LBin {
    fn new(g: G) -> LBin {
        LBin { g, val: g.val() }
    }
    fn leak(g: G) -> &'static mut LBin {
        let _h = Har::enter();
        let p = Box::into_raw(Box::new(LBin::new(g)));
        ARENA_B.with(|a| a.borrow_mut().push(p));
        unsafe { &mut *p }
    }
}
impl OwnedBinaryTreeNode for LBin {
    type OwnedValue = Val;
    fn get_value_and_children_binary(self) -> (Val, [Option<Self>; 2]) {
        hook(Site::Expand, self.g.id);
        (self.val, self.g.slots().map(|g| g.map(LBin::new)))
    }
}
impl MutBorrowedBinaryTreeNode<'static> for LBin {
    type MutBorrowedValue = &'static mut Val;
    fn get_value_and_children_binary_iter_mut(&'static mut self) -> (&'static mut Val, [Option<&'static mut Self>; 2]) {
        hook(Site::Expand, self.g.id);
        (&mut self.val, self.g.slots().map(|g| g.map(LBin::leak)))
    }
}
impl BorrowedBinaryTreeNode<'static> for LBin {
    type BorrowedValue = &'static Val;
    fn get_value_and_children_binary_iter(&'static self) -> (&'static Val, [Option<&'static Self>; 2]) {
        hook(Site::Expand, self.g.id);
        (&self.val, self.g.slots().map(|g| g.map(|g| &*LBin::leak(g))))
    }
}
/// Unbounded source of finite trees.
pub struct LSrc<T> {
    shape: u64,
    fan: u32,
    n: u64,
    p: std::marker::PhantomData<T>,
}
impl<T: FromG> Iterator for LSrc<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        hook(Site::SrcNext, self.n as u32);
        self.n += 1;
        Some(T::from_g(G::root(self.shape, self.n - 1, self.fan, true)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (usize::MAX, None)
    }
}
impl OwnedIntoIteratorOfTrees<LNode> for LSrc<LNode> {}
impl MutBorrowedIntoIteratorOfTrees<'static, LNode> for LSrc<&'static mut LNode> {}
impl BorrowedIntoIteratorOfTrees<'static, LNode> for LSrc<&'static LNode> {}
impl OwnedIntoIteratorOfBinaryTrees<LBin> for LSrc<LBin> {}
impl MutBorrowedIntoIteratorOfBinaryTrees<'static, LBin> for LSrc<&'static mut LBin> {}
impl BorrowedIntoIteratorOfBinaryTrees<'static, LBin> for LSrc<&'static LBin> {}

/// One expected step: ancestors (root..node) and path.
#[derive(Clone, Debug)]
struct LStep {
    anc: Vec<u32>,
    path: Vec<usize>,
    tree: u64,
    /// number of base nodes visited up to and including this one
    base: usize,
}
struct LModel {
    bin: bool,
    coll: bool,
    shape: u64,
    fan: u32,
    /// base nodes in visiting order
    base: Vec<u32>,
    tree: u64,
    stack: VecDeque<(G, u64, LStep)>,
    started: bool,
}
impl LModel {
    fn kid(&self, g: &G, i: u64) -> Option<Option<G>> {
        if self.bin {
            if i > 1 {
                None
            } else {
                Some(g.slots()[i as usize])
            }
        } else {
            g.kid(i).map(Some)
        }
    }
    /// next root, or None when there is only one tree and it was used
    fn next_root(&mut self) -> Option<(G, LStep)> {
        if !self.coll && self.started {
            return None;
        }
        self.started = true;
        let g = G::root(self.shape, self.tree, self.fan, self.coll);
        let s = LStep { anc: vec![g.id], path: if self.coll { vec![self.tree as usize] } else { vec![] }, tree: self.tree, base: 0 };
        self.tree += 1;
        Some((g, s))
    }
    fn enter(&mut self, g: G, mut s: LStep, cut: bool) -> LStep {
        self.base.push(g.id);
        s.base = self.base.len();
        if !cut {
            self.stack.push_back((g, 0, s.clone()));
        }
        s
    }
    /// next node in preorder (lifo) or breadth-first order; `cut` decides whether to descend
    fn step(&mut self, bfs: bool, cut: &dyn Fn(&LStep) -> bool) -> Option<LStep> {
        loop {
            let at = if bfs { self.stack.front().map(|_| 0) } else { self.stack.len().checked_sub(1) };
            let at = match at {
                None => {
                    let (g, s) = self.next_root()?;
                    let c = cut(&s);
                    return Some(self.enter(g, s, c));
                }
                Some(a) => a,
            };
            let (g, i, s) = self.stack[at].clone();
            match self.kid(&g, i) {
                None => {
                    self.stack.remove(at);
                }
                Some(k) => {
                    self.stack[at].1 += 1;
                    if let Some(k) = k {
                        let mut ns = s;
                        ns.anc.push(k.id);
                        ns.path.push(i as usize);
                        let c = cut(&ns);
                        return Some(self.enter(k, ns, c));
                    }
                }
            }
        }
    }
}
/// What a lazy driver reports per step.
struct LObs {
    anc: Vec<u32>,
    path: Option<Vec<usize>>,
}
type LDrv = Box<dyn FnMut() -> Option<LObs>>;
fn l_plain<V: ValLike>(mut i: impl Iterator<Item = V> + 'static) -> LDrv {
    Box::new(move || {
        i.next().map(|v| {
            let _h = Har::enter();
            LObs { anc: vec![v.v().rd().root], path: None }
        })
    })
}
fn l_anc<V: ValLike>(mut i: impl StreamingIterator<Item = [V]> + 'static) -> LDrv {
    Box::new(move || {
        i.next().map(|v| {
            let _h = Har::enter();
            LObs { anc: v.iter().map(|v| v.v().rd().root).collect(), path: None }
        })
    })
}
fn l_ctx<V: ValLike, C: 'static>(mut i: impl StreamingIterator<Item = TreeContext<V, C>> + 'static) -> LDrv {
    Box::new(move || {
        i.next().map(|c| {
            let _h = Har::enter();
            LObs { anc: c.ancestors().iter().map(|v| v.v().rd().root).collect(), path: Some(c.path().to_vec()) }
        })
    })
}
fn l_cut(seed: u64, pct: u32, id: u32) -> bool {
    h64(seed ^ 0x77, id as u64) % 100 < pct as u64
}
macro_rules! l_tail {
    ($Tr:ident, $Base:ident, $p:expr, $sh:expr, $pct:expr, $depth:expr, $map:ident) => {{
        let (sh, pct) = ($sh, $pct);
        let p = $Tr::prune($p, move |v| {
            hook(Site::Closure, v.v().rd().root);
            l_cut(sh, pct, v.v().rd().root)
        });
        let p = $Base::$map(p, move |v| v);
        $Base::prune_depth(p, $depth)
    }};
}
macro_rules! l_family {
    ($name:ident, $node:ident, $V:ty, $T:ty, $One:ident, $Each:ident, $PTr:ident, $CTr:ident,
     $pre:ident, $bfs:ident, $pree:ident, $bfse:ident, $pipe:ident) => {
        fn $name(coll: bool, mode: u8, order: Order, fan: u32, shape: u64, pct: u32, depth: usize) -> LDrv {
            if coll {
                let s = LSrc::<$T> { shape, fan, n: 0, p: std::marker::PhantomData };
                match (mode, order) {
                    (0 | 1, Order::Pre) => l_plain($Each::$pree(s)),
                    (0 | 1, _) => l_plain($Each::$bfse(s)),
                    (2, Order::Pre) => l_ctx($Each::$pree(s).attach_context()),
                    (2, _) => l_ctx($Each::$bfse(s).attach_context()),
                    (3, _) => {
                        let mut p = l_tail!($CTr, TreeCollectionIteratorBase, $Each::$pipe(s), shape, pct, depth, map_trees);
                        Box::new(move || {
                            let v = p.next()?;
                            let _h = Har::enter();
                            let id = v.v().rd().root;
                            Some(LObs { anc: vec![id], path: None })
                        })
                    }
                    _ => {
                        let p = l_tail!($CTr, TreeCollectionIteratorBase, $Each::$pipe(s), shape, pct, depth, map_trees);
                        let mut p = $CTr::trees(p);
                        Box::new(move || {
                            let t = p.next()?;
                            let _h = Har::enter();
                            // all values of one result tree, in preorder
                            Some(LObs { anc: l_flat(t), path: None })
                        })
                    }
                }
            } else {
                let n = <$T as FromG>::from_g(G::root(shape, 0, fan, false));
                match (mode, order) {
                    (0, Order::Pre) => l_plain($One::$pre(n)),
                    (0, _) => l_plain($One::$bfs(n)),
                    (1, Order::Pre) => l_anc($One::$pre(n).attach_ancestors()),
                    (1, _) => l_anc($One::$bfs(n).attach_ancestors()),
                    (2, Order::Pre) => l_ctx($One::$pre(n).attach_context()),
                    (2, _) => l_ctx($One::$bfs(n).attach_context()),
                    (3, _) => {
                        let mut p = l_tail!($PTr, TreeIteratorBase, $One::$pipe(n), shape, pct, depth, map_tree);
                        Box::new(move || {
                            let v = p.next()?;
                            let _h = Har::enter();
                            let id = v.v().rd().root;
                            Some(LObs { anc: vec![id], path: None })
                        })
                    }
                    _ => {
                        let p = l_tail!($PTr, TreeIteratorBase, $One::$pipe(n), shape, pct, depth, map_tree);
                        let mut p = Some(p);
                        Box::new(move || {
                            let t = $PTr::collect_tree(p.take()?)?;
                            let _h = Har::enter();
                            Some(LObs { anc: l_flat(t), path: None })
                        })
                    }
                }
            }
        }
    };
}
trait LFlat {
    fn flat(self, out: &mut Vec<u32>);
}
impl<V: ValLike> LFlat for Tree<V> {
    fn flat(self, out: &mut Vec<u32>) {
        out.push(self.value.v().rd().root);
        for c in self.children {
            c.flat(out);
        }
    }
}
impl<V: ValLike> LFlat for BinaryTree<V> {
    fn flat(self, out: &mut Vec<u32>) {
        out.push(self.value.v().rd().root);
        for c in [self.left, self.right].into_iter().flatten() {
            c.flat(out);
        }
    }
}
fn l_flat(t: impl LFlat) -> Vec<u32> {
    let mut v = vec![];
    t.flat(&mut v);
    v
}
l_family!(no, LNode, Val, LNode, OwnedTreeNode, OwnedIntoIteratorOfTrees, TreeIterator, TreeCollectionIterator, dfs_preorder, bfs, dfs_preorder_each, bfs_each, into_pipeline);
l_family!(nm, LNode, &'static mut Val, &'static mut LNode, MutBorrowedTreeNode, MutBorrowedIntoIteratorOfTrees, TreeIterator, TreeCollectionIterator, dfs_preorder_iter_mut, bfs_iter_mut, dfs_preorder_each_iter_mut, bfs_each_iter_mut, into_pipeline_mut);
l_family!(nr, LNode, &'static Val, &'static LNode, BorrowedTreeNode, BorrowedIntoIteratorOfTrees, TreeIterator, TreeCollectionIterator, dfs_preorder_iter, bfs_iter, dfs_preorder_each_iter, bfs_each_iter, into_pipeline_ref);
l_family!(bo, LBin, Val, LBin, OwnedBinaryTreeNode, OwnedIntoIteratorOfBinaryTrees, BinaryTreeIterator, BinaryTreeCollectionIterator, dfs_preorder, bfs, dfs_preorder_each, bfs_each, into_pipeline);
l_family!(bm, LBin, &'static mut Val, &'static mut LBin, MutBorrowedBinaryTreeNode, MutBorrowedIntoIteratorOfBinaryTrees, BinaryTreeIterator, BinaryTreeCollectionIterator, dfs_preorder_iter_mut, bfs_iter_mut, dfs_preorder_each_iter_mut, bfs_each_iter_mut, into_pipeline_mut);
l_family!(br, LBin, &'static Val, &'static LBin, BorrowedBinaryTreeNode, BorrowedIntoIteratorOfBinaryTrees, BinaryTreeIterator, BinaryTreeCollectionIterator, dfs_preorder_iter, bfs_iter, dfs_preorder_each_iter, bfs_each_iter, into_pipeline_ref);

fn lazy_run(sp: &Special, pr: &mut Probes) {
    let (bin, coll, own, mode, order, fan, steps, shape, pct, depth) = match sp {
        Special::Lazy { bin, coll, own, mode, order, fan, steps, shape, pct, depth } => (*bin, *coll, *own, *mode % 5, *order, *fan, *steps, *shape, *pct, *depth as usize),
        _ => unreachable!(),
    };
    let mode = if coll && mode == 1 { 0 } else { mode };
    // a collected single pipeline must be finite: bounded fan, bounded depth
    let fan = if mode == 4 && !coll { fan.clamp(1, 3) } else { fan };
    let depth = if mode == 4 && !coll { depth.min(5) } else if mode == 3 && !coll && fan == 0 { 1_000_000 } else { depth };
    let fan = if bin { 2 } else { fan };
    let order = if order == Order::Pre || mode >= 3 { Order::Pre } else { Order::Bfs };
    let bfs = order == Order::Bfs;
    let cfg = format!("{own:?}/{}/{}/{}{}", ["plain", "anc", "ctx", "step", "collect"][mode as usize], if bfs { "bfs" } else { "pre" }, if bin { "binary" } else { "nary" }, if coll { "/each" } else { "" }).to_lowercase();
    with(|w| {
        w.cur_tag = "C14";
        w.cur_task = 0;
    });
    let mk = match (bin, own) {
        (false, Own::Owned) => no,
        (false, Own::Mut) => nm,
        (false, Own::Ref) => nr,
        (true, Own::Owned) => bo,
        (true, Own::Mut) => bm,
        (true, Own::Ref) => br,
    };
    let tags: &[&str] = if coll { &["C14", "C07"] } else { &["C14"] };
    let drv = guarded(|| mk(coll, mode, order, fan, shape, pct, depth));
    let mut drv = match drv {
        Caught::Ok(d) => Some(d),
        Caught::Library(m) => {
            issue(tags, format!("lazy-panic/{cfg}"), m);
            None
        }
        Caught::Budget => {
            issue(tags, format!("lazy-unbounded/{cfg}"), format!("creating the traversal does not terminate ({cfg})"));
            None
        }
        Caught::Injected => None,
    };
    let mut m = LModel { bin, coll, shape, fan, base: vec![], tree: 0, stack: VecDeque::new(), started: false };
    let mut expanded: BTreeSet<u32> = BTreeSet::new();
    let mut pulls = 0u64;
    let cut_pipe = |s: &LStep| -> bool { l_cut(shape, pct, *s.anc.last().unwrap()) || s.anc.len() - 1 >= depth };
    // result lookahead for collected collections
    let mut ahead: Option<LStep> = None;
    let next_kept = |m: &mut LModel| -> Option<LStep> {
        for _ in 0..100_000 {
            let s = m.step(false, &cut_pipe)?;
            if !l_cut(shape, pct, *s.anc.last().unwrap()) {
                return Some(s);
            }
        }
        None
    };
    for k in 0..steps {
        let Some(d) = drv.as_mut() else { break };
        // expectation first: a chain that legitimately never finds another element is not stepped
        let before = m.base.len();
        let want: Option<(Vec<u32>, Option<Vec<usize>>, u64)> = match mode {
            0 => m.step(bfs, &|_| false).map(|s| (vec![*s.anc.last().unwrap()], None, s.tree)),
            1 => m.step(bfs, &|_| false).map(|s| (s.anc.clone(), None, s.tree)),
            2 => m.step(bfs, &|_| false).map(|s| (s.anc.clone(), Some(s.path.clone()), s.tree)),
            3 => next_kept(&mut m).map(|s| (vec![*s.anc.last().unwrap()], None, s.tree)),
            _ => {
                let mut v = vec![];
                let mut tree = u64::MAX;
                if let Some(a) = ahead.take() {
                    tree = a.tree;
                    v.push(*a.anc.last().unwrap());
                }
                loop {
                    if v.len() > 3_000 {
                        break;
                    }
                    match next_kept(&mut m) {
                        None => break,
                        Some(s) if tree == u64::MAX || s.tree == tree => {
                            tree = s.tree;
                            v.push(*s.anc.last().unwrap());
                        }
                        Some(s) => {
                            ahead = Some(s);
                            break;
                        }
                    }
                }
                if v.is_empty() {
                    None
                } else {
                    Some((v, None, ahead.as_ref().map(|a| a.tree).unwrap_or(tree)))
                }
            }
        };
        if m.base.len() - before > 4_000 {
            break;
        }
        let r = guarded(|| d());
        let got = match r {
            Caught::Ok(g) => g,
            Caught::Budget => {
                issue(tags, format!("lazy-unbounded/{cfg}"), format!("step {k} does not terminate on an unbounded tree or source ({cfg})"));
                break;
            }
            Caught::Library(m) => {
                issue(tags, format!("lazy-panic/{cfg}"), format!("step {k}: {m} ({cfg})"));
                break;
            }
            Caught::Injected => break,
        };
        pr.lazy_steps += 1;
        for x in got.iter().flat_map(|g| g.anc.iter()) {
            log(*x as u64);
        }
        match (&got, &want) {
            (None, None) => {}
            (Some(g), Some((w, p, _))) => {
                if g.anc != *w || (p.is_some() && g.path != *p) {
                    issue(tags, format!("lazy-wrong/{cfg}"), format!("step {k} gives {:?} at {:?} instead of {w:?} at {p:?} ({cfg})", g.anc, g.path));
                    break;
                }
            }
            _ => {
                issue(tags, format!("lazy-wrong/{cfg}"), format!("step {k} gives {:?} instead of {:?} ({cfg})", got.map(|g| g.anc), want.map(|w| w.0)));
                break;
            }
        }
        let (ex, pl) = with(|w| (std::mem::take(&mut w.expanded), std::mem::take(&mut w.src_pulls)));
        let allowed: BTreeSet<u32> = m.base.iter().copied().collect();
        let mut bad = false;
        for (_, id) in ex {
            if !allowed.contains(&id) {
                issue(tags, format!("lazy-eager/{cfg}"), format!("after step {k} an unreached node had been asked for its value and children ({cfg})"));
                bad = true;
                break;
            }
            if !expanded.insert(id) {
                issue(tags, format!("lazy-twice/{cfg}"), format!("a node was asked twice ({cfg})"));
                bad = true;
                break;
            }
        }
        pulls += pl.len() as u64;
        if !bad && coll {
            if let Some((_, _, tree)) = &want {
                if pulls > tree + 1 {
                    issue(tags, format!("lazy-pull/{cfg}"), format!("{pulls} trees pulled while tree {tree} is the latest reached ({cfg})"));
                    bad = true;
                }
            }
        }
        if bad || want.is_none() {
            break;
        }
    }
    with(|w| w.budget = w.budget.max(200_000));
    let r = guarded(move || drop(drv));
    match r {
        Caught::Library(m) => issue(tags, format!("lazy-drop-panic/{cfg}"), m),
        Caught::Budget => issue(tags, format!("lazy-unbounded/{cfg}"), format!("dropping the traversal does not terminate ({cfg})")),
        _ => {}
    }
    with(|w| w.faults_armed = false);
    ARENA_N.with(|a| {
        for p in a.borrow_mut().drain(..) {
            unsafe { drop(Box::from_raw(p)) }
        }
    });
    ARENA_B.with(|a| {
        for p in a.borrow_mut().drain(..) {
            unsafe { drop(Box::from_raw(p)) }
        }
    });
}
impl<T: FromG> std::iter::FusedIterator for LKids<T> {}

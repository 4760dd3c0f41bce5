//! Plan generator: every choice of a run is derived from one seed. Swarm style: each run draws
//! its own size, shape, workload mix and enabled fault kinds around the property's profile.
use crate::plan::*;
use crate::world::*;

#[derive(Clone, Copy)]
struct W {
    plain: u64,
    anc: u64,
    ctx: u64,
    leaves: u64,
    ancleaves: u64,
    late: u64,
    pipe: u64,
    /// percent of tasks over collections
    coll: u64,
    edit: u64,
    write: u64,
    /// percent of tasks that put other values into exposed stacks
    exchange: u64,
    lookup: u64,
    fault: u64,
    preempt: u64,
    cancel: u64,
    /// weights of Owned, Mut, Ref
    own: [u64; 3],
    /// weights of T B X D XB
    repr: [u64; 5],
    /// weights of Pre In Post Bfs
    order: [u64; 4],
    hold: u64,
    tasks: u64,
}
const BASE: W = W {
    plain: 0,
    anc: 0,
    ctx: 0,
    leaves: 0,
    ancleaves: 0,
    late: 0,
    pipe: 0,
    coll: 35,
    edit: 0,
    write: 25,
    exchange: 0,
    lookup: 0,
    fault: 0,
    preempt: 25,
    cancel: 12,
    own: [4, 4, 4],
    repr: [3, 3, 4, 1, 4],
    order: [1, 1, 1, 1],
    hold: 30,
    tasks: 3,
};
fn profile(p: &str) -> W {
    match p {
        "C01" => W { plain: 10, preempt: 40, ..BASE },
        "C02" => W { anc: 10, plain: 1, exchange: 15, ..BASE },
        "C03" => W { ctx: 10, plain: 1, exchange: 15, ..BASE },
        "C04" => W { leaves: 10, plain: 1, ..BASE },
        "C05" => W { ancleaves: 10, anc: 1, exchange: 15, ..BASE },
        "C06" => W { late: 12, anc: 2, ctx: 2, plain: 2, leaves: 1, cancel: 5, ..BASE },
        "C07" => W { coll: 100, plain: 4, ctx: 5, leaves: 3, pipe: 5, late: 1, ..BASE },
        "C08" => W { pipe: 12, plain: 1, write: 5, coll: 40, ..BASE },
        "C09" => W { pipe: 12, ctx: 1, write: 5, coll: 40, ..BASE },
        "C10" => W { plain: 3, anc: 3, ctx: 3, leaves: 3, ancleaves: 2, late: 1, pipe: 5, cancel: 60, own: [8, 2, 2], repr: [3, 3, 4, 3, 4], edit: 10, exchange: 20, ..BASE },
        "C11" => W { plain: 3, anc: 3, ctx: 3, leaves: 3, ancleaves: 2, late: 1, pipe: 5, fault: 100, own: [6, 3, 3], repr: [0, 0, 5, 3, 5], edit: 10, exchange: 10, ..BASE },
        "C12" => W { plain: 4, anc: 3, ctx: 3, leaves: 3, ancleaves: 2, pipe: 2, own: [0, 10, 2], write: 60, exchange: 20, hold: 80, edit: 8, lookup: 5, ..BASE },
        "C13" => W { ctx: 10, own: [5, 5, 0], edit: 60, order: [3, 2, 2, 3], preempt: 10, cancel: 10, ..BASE },
        "C14" => W { plain: 4, anc: 3, ctx: 3, pipe: 5, leaves: 1, order: [3, 0, 0, 3], repr: [0, 0, 5, 1, 5], coll: 50, edit: 5, ..BASE },
        "C16" => W { ctx: 10, lookup: 50, own: [1, 4, 4], edit: 15, tasks: 2, ..BASE },
        // everything together
        _ => W { plain: 3, anc: 3, ctx: 3, leaves: 3, ancleaves: 2, late: 1, pipe: 4, fault: 10, edit: 15, lookup: 10, ..BASE },
    }
}
fn weighted(r: &mut Rng, w: &[u64]) -> usize {
    let t: u64 = w.iter().sum();
    let mut x = r.below(t.max(1));
    for (i, k) in w.iter().enumerate() {
        if x < *k {
            return i;
        }
        x -= k;
    }
    0
}
/// Sizes beyond what a test would write: 1 medium, 2 huge, 3 giant.
fn big_forest(r: &mut Rng, repr: Repr, coll: bool, scale: u8, hint: u8) -> Forest {
    let mut nodes: Vec<(u32, u32)> = Vec::new();
    let n = match scale {
        1 => 40 + r.below(110),
        2 => 200 + r.below(900),
        _ => 65_500 + r.below(300),
    };
    if coll && r.chance(50) {
        // many small trees
        let k = match scale {
            1 => 20 + r.below(60),
            2 => 250 + r.below(300),
            _ => 65_500 + r.below(80),
        };
        for _ in 0..k {
            let base = nodes.len() as u32;
            nodes.push((u32::MAX, 0));
            if scale < 3 {
                for j in 1..[1, 1, 2, 3][r.below(4) as usize] {
                    nodes.push((base + r.below(j) as u32, r.below(2) as u32));
                }
            }
        }
        return Forest { repr, nodes, hint, deep: None };
    }
    let before = if coll { r.below(3) } else { 0 };
    let after = if coll { r.below(3) } else { 0 };
    for _ in 0..before {
        nodes.push((u32::MAX, 0));
    }
    let base = nodes.len() as u32;
    let n = n as u32;
    nodes.push((u32::MAX, 0));
    let style = if scale == 3 { [0, 1, 4][r.below(3) as usize] } else { r.below(12) };
    let side = r.below(2) as u32;
    // where a broom turns into a star, how wide the fans of a comb are
    let stem = 1 + r.below(if scale == 3 { 20 } else { n as u64 / 2 }) as u32;
    let fan = 2 + r.below(14) as u32;
    // one wide node, at the root or below a stem, whose children carry the rest
    let wide_at = if r.chance(60) { 0 } else { (r.below(6) as u32).min(n / 8) };
    let wide = 1 + n / 4 + r.below(n as u64 / 2) as u32;
    let late = r.chance(50);
    // long straight runs with elbows between them
    let (mut run, mut bent) = (0u32, side);
    for k in 1..n {
        let elbow = (8..10).contains(&style) && run == 0;
        if elbow {
            run = match r.below(4) {
                0 => 1 + r.below(4) as u32,
                1 => 1 + r.below(n as u64 / 4) as u32,
                _ => n / 4 + r.below(n as u64) as u32,
            };
            bent = r.below(2) as u32;
        }
        run = run.saturating_sub(1);
        let (p, s) = match style {
            8 | 9 => (if elbow && r.chance(40) { r.below(k as u64) as u32 } else { k - 1 }, bent),
            10 | 11 if k <= wide_at => (k - 1, side),
            10 | 11 if k <= wide_at + wide => (wide_at, side),
            10 | 11 => {
                let from = if late && r.chance(70) { wide_at + wide * 3 / 4 } else { wide_at };
                (from + 1 + r.below((k - from - 1) as u64) as u32, r.below(2) as u32)
            }
            // star
            0 => (0, 0),
            // complete
            1 => ((k - 1) / 2, (k - 1) % 2),
            2 => ((k - 1) / fan, r.below(2) as u32),
            // chain, caterpillar
            3 if n < 500 => (k - 1, if r.chance(60) { side } else { r.below(2) as u32 }),
            3 => (if k % 4 == 0 { k.saturating_sub(4) } else { k - k % 4 }, k % 2),
            // broom
            4 => (if k <= stem.min(400) { k - 1 } else { stem.min(400).min(k - 1) }, side),
            // comb: a spine whose vertebrae carry fans
            5 => (if k % fan == 0 { k - fan } else { k - k % fan }, r.below(2) as u32),
            6 => (r.below(k as u64) as u32, r.below(2) as u32),
            _ => (k - 1 - r.below((k as u64).min(12)) as u32, r.below(2) as u32),
        };
        nodes.push((base + p, s));
    }
    if repr.bin() {
        // a binary node takes two children only: hang the rest below the first free node
        let mut used = vec![0u8; nodes.len()];
        let mut free = base;
        for k in base as usize + 1..nodes.len() {
            let mut p = nodes[k].0;
            if used[p as usize] >= 2 {
                while used[free as usize] >= 2 {
                    free += 1;
                }
                p = free;
            }
            used[p as usize] += 1;
            nodes[k].0 = p;
        }
    }
    for _ in 0..after {
        nodes.push((u32::MAX, 0));
    }
    Forest { repr, nodes, hint, deep: None }
}
/// Mostly small trees with every shape bias; occasionally a larger one.
fn forest(r: &mut Rng, repr: Repr, roots: u64, hint: u8, big: u64) -> Forest {
    let mut nodes: Vec<(u32, u32)> = Vec::new();
    for _ in 0..roots {
        let n = match weighted(r, &[3, 4, 8, 6, big]) {
            0 => 1,
            1 => 2 + r.below(2),
            2 => 3 + r.below(6),
            3 => 6 + r.below(12),
            _ => 15 + r.below(25),
        };
        let style = r.below(6);
        let side = r.below(2) as u32;
        let base = nodes.len() as u32;
        nodes.push((u32::MAX, 0));
        for k in 1..n as u32 {
            let p = match style {
                // chain-like
                0 => {
                    if r.chance(80) {
                        k - 1
                    } else {
                        r.below(k as u64) as u32
                    }
                }
                // bushy near the root
                1 => r.below((k as u64).min(3)) as u32,
                // complete
                2 => (k - 1) / 2,
                3 => (k - 1) / 3,
                // recent
                4 => k - 1 - r.below((k as u64).min(3)) as u32,
                _ => r.below(k as u64) as u32,
            };
            let slot = if style == 0 && r.chance(70) { side } else { r.below(2) as u32 };
            nodes.push((base + p, slot));
        }
    }
    Forest { repr, nodes, hint, deep: None }
}
fn order(r: &mut Rng, w: &W, bin: bool) -> Order {
    let mut ow = w.order;
    if !bin {
        ow[1] = 0;
    }
    [Order::Pre, Order::In, Order::Post, Order::Bfs][weighted(r, &ow)]
}
fn stages(r: &mut Rng) -> Vec<Stage> {
    let n = weighted(r, &[1, 6, 6, 4, 2]);
    (0..n)
        .map(|_| {
            let s = r.next() as u32;
            let pct = [15u32, 30, 50, 5][r.below(4) as usize];
            match r.below(9) {
                0 | 1 => Stage::Map(s),
                2 | 3 => Stage::MapPath(s),
                4 | 5 => Stage::Prune(s, pct),
                6 | 7 => Stage::PrunePath(s, pct),
                _ => Stage::Depth(if r.chance(8) { [u32::MAX, u32::MAX - 1, 255, 256, 65_535][r.below(5) as usize] } else { r.below(6) as u32 }),
            }
        })
        .collect()
}
fn own(r: &mut Rng, w: &W) -> Own {
    [Own::Owned, Own::Mut, Own::Ref][weighted(r, &w.own)]
}

struct Script {
    t: usize,
    ops: Vec<OpK>,
}
fn interleave(r: &mut Rng, mut s: Vec<Script>) -> Vec<Op> {
    let mut out = Vec::new();
    // uniform, bursty or sequential scheduling
    let style = r.below(4);
    let mut cur = 0usize;
    for x in &mut s {
        x.ops.reverse();
    }
    while s.iter().any(|x| !x.ops.is_empty()) {
        let alive: Vec<usize> = (0..s.len()).filter(|i| !s[*i].ops.is_empty()).collect();
        let i = match style {
            0 => alive[0],
            1 if alive.contains(&cur) && r.chance(75) => cur,
            _ => *r.pick(&alive),
        };
        cur = i;
        let k = s[i].ops.pop().unwrap();
        // split multi-step ops so that others may run in between
        if let OpK::Step(n) = k {
            if n > 1 && style >= 2 && r.chance(60) {
                s[i].ops.push(OpK::Step(n - 1));
                out.push(Op { t: s[i].t, k: OpK::Step(1) });
                continue;
            }
        }
        out.push(Op { t: s[i].t, k });
    }
    out
}

pub fn plan(prop: &str, seed: u64) -> Plan {
    let r = &mut Rng::new(seed);
    if prop == "C19" {
        // whatever the other properties are tried with
        let of = *r.pick(&["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C18"]);
        return plan(of, r.next());
    }
    let mut p = Plan { prop: prop.into(), seed, forests: vec![], tasks: vec![], ops: vec![], faults: vec![], preempts: vec![], stack_kb: 0, special: None };
    match prop {
        "C15" => {
            deep(r, &mut p);
            return p;
        }
        "C17" => {
            serde(r, &mut p);
            return p;
        }
        "C18" => {
            clone(r, &mut p);
            return p;
        }
        "C01" | "C02" | "C03" | "C04" | "C05" if r.below(20_000) == 0 => {
            deep(r, &mut p);
            return p;
        }
        "C01" | "C02" | "C03" | "C04" | "C05" | "C07" | "C08" | "C09" | "C12" if r.below(60) == 0 => {
            kinds(r, &mut p, prop);
            return p;
        }
        "C20" => {
            hold(r, &mut p);
            return p;
        }
        "C14" if r.chance(45) => {
            lazy(r, &mut p);
            return p;
        }
        _ => {}
    }
    let mut w = profile(prop);
    // swarm: switch features off in some runs
    if r.chance(30) {
        w.preempt = 0;
    }
    if r.chance(30) {
        w.coll = if prop == "C07" { 100 } else { 0 };
    }
    if r.chance(30) {
        w.cancel /= 4;
    }
    if r.chance(20) {
        w.write = 0;
    }
    let scale = match r.below(60_000) {
        0..=999 => 1u8,
        1000..=1149 => 2,
        1150..=1157 => 3,
        _ => 0,
    };
    let nt = 1 + weighted(r, &[5, 3, 2, 1][..if scale >= 2 { 2.min(w.tasks) } else { w.tasks.min(4) } as usize]);
    let nt = if scale == 3 { 1 } else { nt };
    let nf = 1 + r.below(nt as u64) as usize;
    let size = r.below(3);
    let mut ws = vec![w; 1];
    let w = ws.pop().unwrap();
    let mut colls = Vec::new();
    for i in 0..nf {
        let repr = [Repr::T, Repr::B, Repr::X, Repr::D, Repr::XB][weighted(r, &w.repr)];
        let coll = r.chance(w.coll) || (prop == "C07" && i == 0);
        colls.push(coll);
        let roots = if coll { [0, 1, 1, 2, 2, 2, 3, 3, 4, 5][r.below(10) as usize] } else { 1 };
        let hint = r.clone().below(8) as u8;
        p.forests.push(if scale > 0 { big_forest(r, repr, coll, scale, hint) } else { forest(r, repr, roots, hint, size) });
        let _ = r.next();
    }
    let mut scripts = Vec::new();
    for t in 0..nt {
        let tree = r.below(nf as u64) as usize;
        let repr = p.forests[tree].repr;
        let src = if colls[tree] {
            match r.below(5) {
                0 | 1 => Src::Vec,
                2 => Src::Arr,
                _ => {
                    let n = p.forests[tree].nodes.iter().filter(|n| n.0 == u32::MAX).count();
                    Src::Hook(if r.chance(40) { r.below(n as u64 + 1) as usize } else { 99 })
                }
            }
        } else {
            Src::One
        };
        let kind = weighted(r, &[w.plain, w.anc, w.ctx, w.leaves, w.ancleaves, w.late, w.pipe]);
        let n = p.forests[tree].nodes.len() as u64;
        let mut ops: Vec<OpK> = Vec::new();
        let mut ow = own(r, &w);
        let mut cancel = r.chance(w.cancel);
        let kindt = if kind == 6 {
            let st = stages(r);
            let term = match r.below(8) {
                0 | 1 => Term::Collect,
                2 => Term::Fold,
                3 => Term::FoldPath,
                4 | 5 => Term::Step,
                _ => Term::StepPrune(r.next() as u32),
            };
            for _ in 0..1 + r.below(3) {
                if r.chance(8) {
                    ops.push(OpK::Nth(if r.chance(8) { u32::MAX } else { r.below(4) as u32 }));
                }
                ops.push(OpK::Step(1 + r.below(if n > 60 { n / 3 } else { 3 }) as u32));
                if r.chance(w.write) {
                    ops.push(OpK::Write(r.next() as u32));
                }
            }
            TKind::Pipe { stages: st, term, conv: r.chance(50) }
        } else {
            let mut o = order(r, &w, repr.bin());
            let pre = |r: &mut Rng| -> u64 {
                if n > 255 && r.chance(30) {
                    // where a narrow counter would wrap
                    return if n > 65_535 { [65_535, 65_536, 65_537][r.below(3) as usize] } else { [255, 256, 256, 257, 512][r.below(5) as usize] };
                }
                match r.below(8) {
                    0 => 0,
                    1 => 1,
                    2 => n,
                    3 => n + 1 + r.below(2),
                    _ => r.below(n + 1),
                }
            };
            let xchg = if w.exchange > 0 && r.chance(w.exchange) { 30 } else { 0 };
            let steps = |r: &mut Rng, ops: &mut Vec<OpK>, k: u64, ed: u64| {
                let mut left = k;
                while left > 0 {
                    let s = (1 + r.below(if n > 60 { n / 6 } else { 3 })).min(left);
                    if r.chance(5) {
                        let far = r.chance(30);
                        ops.push(OpK::Nth(if far && r.chance(10) { u32::MAX } else { r.below(if far { n + 2 } else { 4 }) as u32 }));
                    } else {
                        ops.push(OpK::Step(s as u32));
                    }
                    left -= s;
                    if r.chance(w.write) {
                        ops.push(OpK::Write(r.next() as u32));
                    }
                    if xchg > 0 && r.chance(xchg) {
                        ops.push(OpK::Exchange(r.next() as u32));
                    }
                    if r.chance(ed) {
                        ops.push(OpK::Edit(r.next() as u32));
                        if r.chance(25) {
                            ops.push(OpK::Edit(r.next() as u32));
                        }
                    }
                    if r.chance(w.lookup) {
                        ops.push(OpK::Lookup(r.next() as u32));
                    }
                }
            };
            match kind {
                0 => steps(r, &mut ops, r.clone().below(n + 3), 0),
                1 => {
                    ops.push(OpK::Anc);
                    let k = r.below(n + 3);
                    steps(r, &mut ops, k, 0);
                }
                2 => {
                    ops.push(OpK::Ctx);
                    if w.edit > 0 && r.chance(70) {
                        if ow == Own::Ref {
                            ow = if r.chance(50) { Own::Owned } else { Own::Mut };
                        }
                        if ow == Own::Owned && !matches!(o, Order::Pre | Order::Bfs) {
                            o = if r.chance(50) { Order::Pre } else { Order::Bfs };
                        }
                    }
                    let k = r.below(n + 3);
                    let ed = if r.chance(60) { w.edit } else { 0 };
                    steps(r, &mut ops, k, ed);
                }
                3 => {
                    let k = pre(r);
                    steps(r, &mut ops, k, 0);
                    ops.push(OpK::Leaves);
                    let k = r.below(n + 2);
                    steps(r, &mut ops, k, 0);
                }
                4 => {
                    ops.push(OpK::Anc);
                    let k = pre(r);
                    steps(r, &mut ops, k, 0);
                    ops.push(OpK::Leaves);
                    let k = r.below(n + 2);
                    steps(r, &mut ops, k, 0);
                }
                _ => {
                    let k = pre(r);
                    steps(r, &mut ops, k, 0);
                    ops.push(if r.chance(50) { OpK::Anc } else { OpK::Ctx });
                    let k = r.below(n + 2);
                    steps(r, &mut ops, k, 0);
                }
            }
            TKind::Trav { order: o }
        };
        if kind == 6 && prop != "C10" {
            cancel = r.chance(w.cancel / 2);
        }
        if scale == 3 && r.chance(80) {
            cancel = false;
        }
        if cancel {
            let forget = matches!(prop, "C10" | "C12" | "C13") && r.chance(6);
            ops.push(if forget { OpK::Forget } else { OpK::Cancel });
        } else if r.chance(if prop == "C10" { 50 } else { 85 }) {
            ops.push(if r.chance(12) { OpK::Bulk(r.next() as u32) } else { OpK::Drain });
            if r.chance(50) {
                ops.push(OpK::Cancel);
            }
        }
        if w.lookup > 0 {
            for _ in 0..r.below(4) {
                ops.push(if r.chance(40) { OpK::BadLookup(r.next() as u32) } else { OpK::Lookup(r.next() as u32) });
            }
        }
        p.tasks.push(Task { tree, own: ow, src, kind: kindt, hold: r.chance(w.hold) });
        scripts.push(Script { t, ops });
    }
    p.ops = interleave(r, scripts);
    let total: u64 = p.forests.iter().map(|f| f.nodes.len() as u64).sum();
    if r.chance(w.fault) {
        let k = 1 + weighted(r, &[6, 2, 1]) as u64;
        for _ in 0..k {
            let (site, max) = match r.below(12) {
                0..=2 => (Site::Expand, total),
                3 | 4 => (Site::IntoKids, total),
                5..=7 => (Site::KidNext, total * 2),
                8 => (Site::SrcInto, 1),
                9 => (Site::SrcNext, 4),
                10 => (Site::Hint, total * 2),
                _ => (Site::Closure, total * 2),
            };
            let near = r.chance(30);
            let nth = 1 + r.below(if near { (max + 1).min(4) } else { max + 1 });
            p.faults.push((site as usize, nth));
        }
        // closures only exist in pipelines: make their faults land
        if p.tasks.iter().any(|t| matches!(t.kind, TKind::Pipe { .. })) && r.chance(60) {
            p.faults.push((Site::Closure as usize, 1 + r.below(total * 2 + 1)));
        }
    }
    if nt > 1 && r.chance(w.preempt) {
        for _ in 0..1 + r.below(4) {
            p.preempts.push((1 + r.below(total * 4 + 2), r.below(nt as u64) as usize));
        }
    }
    p
}

fn deep(r: &mut Rng, p: &mut Plan) {
    // deeper than 16 bits can count: most of it is skipped without being looked at
    let (kind, abyss) = match p.prop.as_str() {
        "C01" => (0, true),
        "C02" => (3, true),
        "C03" => (4, true),
        "C04" => (2, true),
        "C05" => (6, true),
        _ => (r.below(11), false),
    };
    // observed paths and ancestor lists make these quadratic: keep the tree shallower
    let quad = matches!(kind, 3..=6 | 10);
    let depth = if abyss { 65_600 + r.below(4_000) as u32 } else if quad { 800 + r.below(1200) as u32 } else { [2_000u32, 2_000, 4_000, 4_000, 8_000, 25_000][r.below(6) as usize] };
    let repr = [Repr::X, Repr::XB, Repr::X, Repr::XB, Repr::D, Repr::T, Repr::B][r.below(7) as usize];
    // destroying the library's own node types is recursive by derivation: only borrowed ones
    // (or ones completely consumed) are used here
    let lib = matches!(repr, Repr::T | Repr::B);
    let coll = r.chance(25) && !abyss;
    let own = if lib { [Own::Mut, Own::Ref][r.below(2) as usize] } else { [Own::Owned, Own::Mut, Own::Ref][r.below(3) as usize] };
    p.forests.push(Forest { repr, nodes: vec![], hint: r.below(8) as u8, deep: Some((depth, r.below(24) as u32)) });
    let src = if coll { [Src::Vec, Src::Hook(9)][r.below(2) as usize] } else { Src::One };
    let bin = repr.bin();
    let w = W { order: [1, 1, 1, 1], ..BASE };
    let mut o = order(r, &w, bin);
    if abyss && quad && o == Order::Bfs {
        // the library itself needs quadratic time for these
        o = Order::Pre;
    }
    let mid = match r.below(4) {
        0 => 0,
        1 => 1,
        2 => depth / 2,
        _ => r.below(depth as u64) as u32,
    };
    let mid = if abyss && kind != 0 { [0, 1, 1, 2][r.below(4) as usize] } else { mid };
    let (kindt, mut ops) = match kind {
        0 | 1 => (TKind::Trav { order: o }, vec![OpK::Step(mid)]),
        2 => (TKind::Trav { order: o }, vec![OpK::Step(mid), OpK::Leaves]),
        3 => (TKind::Trav { order: o }, vec![OpK::Anc, OpK::Step(mid)]),
        4 | 5 => (TKind::Trav { order: o }, vec![OpK::Ctx, OpK::Step(mid)]),
        6 => (TKind::Trav { order: o }, vec![OpK::Anc, OpK::Step(mid), OpK::Leaves]),
        _ => {
            let mut st = stages(r);
            st.truncate(2);
            for s in &mut st {
                match s {
                    // keep the tree deep
                    Stage::Prune(_, p) | Stage::PrunePath(_, p) => *p = 0,
                    Stage::Depth(d) => *d = depth - 1,
                    _ => {}
                }
            }
            let term = if kind == 10 { Term::Step } else { [Term::Collect, Term::Fold, Term::FoldPath][r.below(3) as usize] };
            (TKind::Pipe { stages: st, term, conv: r.chance(30) }, vec![OpK::Step(1 + mid * quad as u32)])
        }
    };
    if abyss && quad {
        for k in [depth / 2, 65_500 - depth / 2, 30 + r.below(60) as u32, 30 + r.below(depth as u64 / 4) as u32] {
            ops.push(OpK::Nth(k));
            ops.push(OpK::Step(1));
        }
        ops.push(if r.chance(50) { OpK::Cancel } else { OpK::Bulk(2) });
    } else if r.chance(20) {
        ops.push(OpK::Nth(if r.chance(50) { depth / 3 } else { r.below(depth as u64 / 2) as u32 }));
    }
    if !abyss || !quad {
        ops.push(match r.below(8) {
            0 | 1 => OpK::Cancel,
            2 => OpK::Bulk(r.next() as u32),
            _ => OpK::Drain,
        });
    }
    p.tasks.push(Task { tree: 0, own, src, kind: kindt, hold: false });
    if !abyss && r.chance(25) {
        // lookups by paths thousands of segments long, before anything else happens to the tree
        for _ in 0..1 + r.below(3) {
            let mut sel = r.next() as u32;
            while lib && Rng::new(sel as u64).below(12) == 0 {
                // by value, and what is left of the tree is the library's own
                sel = r.next() as u32;
            }
            ops.insert(0, if r.chance(30) { OpK::BadLookup(sel) } else { OpK::Lookup(sel) });
        }
    }
    p.ops = ops.into_iter().map(|k| Op { t: 0, k }).collect();
    p.stack_kb = if abyss { 512 } else if quad { 96 } else { 160 };
}
/// Trees and forests in which much more is visited than can be pending.
fn hold(r: &mut Rng, p: &mut Plan) {
    let repr = [Repr::T, Repr::B, Repr::X, Repr::D, Repr::XB][weighted(r, &[3, 3, 4, 1, 4])];
    let coll = r.chance(45);
    let bfs = r.chance(35);
    let n = match r.below(8) {
        0 => 20 + r.below(200),
        1..=4 => 200 + r.below(800),
        _ => 800 + r.below(2500),
    } as u32;
    // big ones: a few bytes kept per node become visible
    let big = r.chance(2) && (coll || !bfs);
    let n = if big { 8_000 + r.below(16_000) as u32 } else { n };
    let mut nodes: Vec<(u32, u32)> = Vec::new();
    if coll && (r.chance(40) || big && bfs) {
        let most = [1, 2, 4, 9, 30][r.below(5) as usize];
        while (nodes.len() as u32) < n {
            let base = nodes.len() as u32;
            nodes.push((u32::MAX, 0));
            for j in 0..r.below(most) as u32 {
                nodes.push((base + r.below(j as u64 + 1) as u32, r.below(2) as u32));
            }
        }
    } else {
        let trees = if coll { 1 + r.below(4) as u32 } else { 1 };
        for _ in 0..trees {
            let base = nodes.len() as u32;
            nodes.push((u32::MAX, 0));
            let style = if bfs { [0, 1, 5, 5][r.below(4) as usize] } else if big { 2 + r.below(3) } else { r.below(6) };
            let n = n / trees;
            // levels of one width; few nodes of each carry the next one
            let width = if repr.bin() { 2 + r.below(12) as u32 } else { 2 + r.below(if style == 0 { 150 } else { 30 }) as u32 };
            let few = 1 + r.below(if repr.bin() { width as u64 / 2 + 1 } else { 3 }) as u32;
            let first = r.below(3);
            let fan = 2 + r.below(40) as u32;
            for k in 1..n {
                let (p, s) = match style {
                    0 | 1 => {
                        let lvl = (k - 1) / width;
                        if lvl == 0 {
                            (0, k & 1)
                        } else {
                            let from = 1 + (lvl - 1) * width;
                            let j = ((k - 1) % width) % few;
                            let at = match first {
                                0 => j,
                                1 => width - 1 - j.min(width - 1),
                                _ => (crate::world::h64(lvl as u64, j as u64) % width as u64) as u32,
                            };
                            (from + at, k & 1)
                        }
                    }
                    // a spine with a bush at every vertebra
                    5 => {
                        let (v, j) = (k / (fan + 1), k % (fan + 1));
                        match j {
                            0 => ((v - 1) * (fan + 1), k & 1),
                            1 => (v * (fan + 1), 1),
                            _ => (k - 1 - (j - 2).min(first as u32 * 3), r.below(2) as u32),
                        }
                    }
                    2 => (0, 0),
                    3 => ((k - 1) / fan, r.below(2) as u32),
                    _ => (r.below(k as u64) as u32, r.below(2) as u32),
                };
                nodes.push((base + p, s));
            }
            if repr.bin() {
                let mut used = vec![0u8; nodes.len()];
                let mut free = base;
                for k in base as usize + 1..nodes.len() {
                    let mut p = nodes[k].0;
                    if used[p as usize] >= 2 {
                        free = free.max(p.saturating_sub(width).max(base));
                        while used[free as usize] >= 2 {
                            free += 1;
                        }
                        p = free;
                    }
                    used[p as usize] += 1;
                    nodes[k].0 = p;
                }
            }
        }
    }
    let total = nodes.len() as u64;
    let roots = nodes.iter().filter(|n| n.0 == u32::MAX).count() as u64;
    p.forests.push(Forest { repr, nodes, hint: r.below(8) as u8, deep: None });
    let src = if coll {
        [Src::Vec, Src::Arr, Src::Hook(if r.chance(30) { r.below(roots + 1) as usize } else { usize::MAX >> 1 })][r.below(3) as usize]
    } else {
        Src::One
    };
    let own = [Own::Owned, Own::Owned, Own::Mut, Own::Ref][r.below(4) as usize];
    let mut ops: Vec<OpK> = Vec::new();
    let walk = |r: &mut Rng, ops: &mut Vec<OpK>, k: u64| {
        let mut left = k as u32;
        while left > 0 {
            let s = (1 + r.below(300) as u32).min(left);
            ops.push(if r.chance(6) { OpK::Nth(r.below(200) as u32) } else { OpK::Step(s) });
            left -= s;
        }
    };
    let kind = if !bfs && r.chance(30) {
        let seed = r.next() as u32;
        TKind::Pipe { stages: stages(r), term: if r.chance(60) { Term::Step } else { Term::StepPrune(seed) }, conv: r.chance(50) }
    } else {
        let order = if bfs {
            Order::Bfs
        } else if repr.bin() {
            [Order::Pre, Order::In, Order::Post][r.below(3) as usize]
        } else {
            [Order::Pre, Order::Post][r.below(2) as usize]
        };
        match r.below(5) {
            0 => {}
            1 => ops.push(OpK::Anc),
            2 => ops.push(OpK::Ctx),
            3 => {
                if r.chance(60) {
                    let k = r.below(total);
                    walk(r, &mut ops, k);
                }
                ops.push(OpK::Leaves);
            }
            _ => {
                ops.push(OpK::Anc);
                if r.chance(60) {
                    let k = r.below(total);
                    walk(r, &mut ops, k);
                }
                ops.push(OpK::Leaves);
            }
        }
        TKind::Trav { order }
    };
    walk(r, &mut ops, total + 2);
    p.tasks.push(Task { tree: 0, own, src, kind, hold: false });
    p.ops = ops.into_iter().map(|k| Op { t: 0, k }).collect();
}
fn serde(r: &mut Rng, p: &mut Plan) {
    let repr = if r.chance(50) { Repr::T } else { Repr::B };
    // JSON readers refuse documents nested deeper than 127
    let tree = one_tree(r, repr, 55);
    let fmt = r.below(3) as u8;
    let chunks = match r.below(4) {
        0 => vec![1],
        1 => vec![],
        _ => (0..1 + r.below(5)).map(|_| 1 + r.below(9) as u32).collect(),
    };
    let n = tree.nodes.len() as u64;
    let mut faults = Vec::new();
    if r.chance(70) {
        for _ in 0..1 + r.below(4) {
            let kind = *r.pick(&[0u8, 0, 0, 1, 2, 4, 4, 4, 5, 6]);
            faults.push((r.below(n * 8) as u32, kind));
        }
    }
    let cut = if r.chance(25) { Some(r.below(n * 20) as u32) } else { None };
    let drop_field = if r.chance(30) { Some((r.below(n) as u32, r.below(5) as u8)) } else { None };
    p.special = Some(Special::Serde { tree, fmt, chunks, faults, cut, drop_field });
    if r.chance(10) {
        p.faults.push((if r.chance(50) { Site::Expand } else { Site::Closure } as usize, 1 + r.below(n)));
    }
}
/// One tree, now and then a large one that is at most `depth` levels deep.
fn one_tree(r: &mut Rng, repr: Repr, depth: usize) -> Forest {
    let scale = match r.below(2400) {
        0..=5 => 2,
        6..=60 => 1,
        _ => return forest(r, repr, 1, 0, 2),
    };
    let f = big_forest(r, repr, false, scale, 0);
    let mut level = vec![0usize; f.nodes.len()];
    for i in 0..f.nodes.len() {
        if f.nodes[i].0 != u32::MAX {
            level[i] = level[f.nodes[i].0 as usize] + 1;
        }
    }
    if level.iter().any(|l| *l > depth) {
        return forest(r, repr, 1, 0, 2);
    }
    f
}
/// The library's nodes with unusual value types.
fn kinds(r: &mut Rng, p: &mut Plan, prop: &str) {
    let repr = if r.chance(50) { Repr::T } else { Repr::B };
    let mode = *r.pick(match prop {
        "C01" | "C12" => &[0u8, 0, 5],
        "C02" => &[2],
        "C03" => &[1, 6],
        "C04" => &[0],
        "C05" => &[2],
        "C07" => &[5, 6],
        _ => &[3, 4],
    });
    let own = if prop == "C12" { Own::Mut } else { [Own::Owned, Own::Mut, Own::Ref][r.below(3) as usize] };
    let roots = if mode >= 5 { r.below(5) } else { 1 };
    let size = r.below(3);
    let tree = forest(r, repr, roots, 0, size);
    let order = [Order::Pre, Order::Post, Order::Bfs, Order::In][r.below(if repr == Repr::B { 4 } else { 3 }) as usize];
    let n = tree.nodes.len() as u64;
    let at = if matches!(prop, "C01" | "C02") || r.chance(25) { u32::MAX } else { r.below(n + 2) as u32 };
    p.special = Some(Special::Kinds { tree, val: r.below(4) as u8, own, order, mode, at, seed: r.next() });
}
fn clone(r: &mut Rng, p: &mut Plan) {
    let repr = if r.chance(50) { Repr::T } else { Repr::B };
    let tree = one_tree(r, repr, 400);
    let n = tree.nodes.len() as u64;
    let snap = if r.chance(35) {
        let o = [Order::Pre, Order::Post, Order::Bfs, Order::In][r.below(if repr == Repr::B { 4 } else { 3 }) as usize];
        Some((o, r.chance(50), r.chance(30), 1 + r.below(3) as u32 + n as u32 / 25))
    } else {
        None
    };
    p.special = Some(Special::Clone { tree, edit: (r.below(n) as u32, r.below(8) as u8), snap });
    if r.chance(50) {
        p.faults.push(([Site::Expand, Site::Closure, Site::IntoKids][r.below(3) as usize] as usize, 1 + r.below(n * 2)));
    }
}
fn lazy(r: &mut Rng, p: &mut Plan) {
    p.special = Some(Special::Lazy {
        bin: r.chance(50),
        coll: r.chance(45),
        own: [Own::Owned, Own::Mut, Own::Ref][r.below(3) as usize],
        mode: r.below(5) as u8,
        order: if r.chance(50) { Order::Pre } else { Order::Bfs },
        fan: r.below(4) as u32,
        steps: 3 + r.below(40) as u32,
        shape: r.next(),
        pct: [0u32, 10, 30, 60][r.below(4) as usize],
        depth: 1 + r.below(6) as u32,
    });
}

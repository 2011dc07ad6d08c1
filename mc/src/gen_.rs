//! Enumerated spaces of JSON documents. Every family is an indexable finite set; nothing is sampled.
use crate::json::*;

pub fn scalars() -> Vec<Val> {
    vec![Val::Null, Val::Bool(true), int(), flt(), st()]
}

/// All documents with at most `max` nodes over the given leaves and the member names a, b.
pub struct Universe {
    leaves: Vec<Val>,
    keys: [String; 2],
    d: Vec<u64>,
    s: Vec<u64>,
}

impl Universe {
    pub fn new(max: usize) -> Self {
        Self::with(max, scalars(), "a", "b")
    }
    pub fn with(max: usize, mut leaves: Vec<Val>, k1: &str, k2: &str) -> Self {
        leaves.push(Val::Arr(vec![]));
        leaves.push(Val::Obj(vec![]));
        let mut d = vec![0u64; max + 1];
        let mut s = vec![0u64; max + 1];
        s[0] = 1;
        for n in 1..=max {
            d[n] = if n == 1 {
                leaves.len() as u64
            } else {
                s[n - 1] + 2 * d[n - 1] + (1..n - 1).map(|i| d[i] * d[n - 1 - i]).sum::<u64>()
            };
            s[n] = (1..=n).map(|i| d[i] * s[n - i]).sum();
        }
        Universe { leaves, keys: [k1.into(), k2.into()], d, s }
    }
    pub fn total(&self) -> u64 {
        self.d.iter().sum()
    }
    pub fn nth(&self, mut i: u64) -> Val {
        for n in 1..self.d.len() {
            if i < self.d[n] {
                return self.doc(n, i);
            }
            i -= self.d[n];
        }
        panic!("index out of range")
    }
    fn doc(&self, n: usize, mut i: u64) -> Val {
        if n == 1 {
            return self.leaves[i as usize].clone();
        }
        if i < self.s[n - 1] {
            let mut v = vec![];
            self.seq(n - 1, i, &mut v);
            return Val::Arr(v);
        }
        i -= self.s[n - 1];
        for k in 0..2 {
            if i < self.d[n - 1] {
                return Val::Obj(vec![(self.keys[k].clone(), self.doc(n - 1, i))]);
            }
            i -= self.d[n - 1];
        }
        for a in 1..n - 1 {
            let b = n - 1 - a;
            let c = self.d[a] * self.d[b];
            if i < c {
                return Val::Obj(vec![
                    (self.keys[0].clone(), self.doc(a, i / self.d[b])),
                    (self.keys[1].clone(), self.doc(b, i % self.d[b])),
                ]);
            }
            i -= c;
        }
        unreachable!()
    }
    fn seq(&self, n: usize, mut i: u64, out: &mut Vec<Val>) {
        if n == 0 {
            return;
        }
        for a in 1..=n {
            let c = self.d[a] * self.s[n - a];
            if i < c {
                out.push(self.doc(a, i / self.s[n - a]));
                return self.seq(n - a, i % self.s[n - a], out);
            }
            i -= c;
        }
        unreachable!()
    }
}

pub struct Family {
    pub name: String,
    pub n: u64,
    pub get: Box<dyn Fn(u64) -> Val + Sync + Send>,
}

impl Family {
    pub fn new(name: &str, n: u64, get: impl Fn(u64) -> Val + Sync + Send + 'static) -> Family {
        Family { name: name.into(), n, get: Box::new(get) }
    }
    pub fn list(name: &str, v: Vec<Val>) -> Family {
        Family::new(name, v.len() as u64, move |i| v[i as usize].clone())
    }
}

/// `base`-ary digits of i, least significant first
pub fn digits(mut i: u64, base: u64, n: usize) -> Vec<usize> {
    (0..n)
        .map(|_| {
            let d = i % base;
            i /= base;
            d as usize
        })
        .collect()
}

/// All sequences over 0..k of length 0..=len, as an index space.
pub fn seq_count(k: u64, len: usize) -> u64 {
    (0..=len).map(|l| k.pow(l as u32)).sum()
}
pub fn seq_nth(k: u64, len: usize, mut i: u64) -> Vec<usize> {
    for l in 0..=len {
        let c = k.pow(l as u32);
        if i < c {
            return digits(i, k, l);
        }
        i -= c;
    }
    panic!()
}

pub fn row_values() -> Vec<Option<Val>> {
    let o = |f: &[(&str, Val)]| Some(obj(f));
    vec![
        None,
        Some(Val::Null),
        Some(Val::Bool(true)),
        Some(int()),
        Some(flt()),
        Some(st()),
        Some(arr(&[])),
        Some(arr(&[int()])),
        Some(arr(&[Val::Null])),
        Some(arr(&[int(), st()])),
        Some(arr(&[st(), int()])),
        Some(arr(&[int(), flt(), int()])),
        o(&[]),
        o(&[("x", int())]),
        o(&[("x", Val::Null)]),
        o(&[("y", st())]),
    ]
}

/// Arrays of up to `rows` observations, each an object whose member `a` is absent or one of the row
/// values (`wrap` = 0), or the bare values themselves (`wrap` = 1), or those nested in a 2-tuple.
pub fn rows(rows: usize) -> Family {
    let v = row_values();
    let k = v.len() as u64;
    let per = seq_count(k, rows);
    Family::new(&format!("observations<={}", rows), per * 3, move |i| {
        let wrap = i / per;
        let s = seq_nth(k, rows, i % per);
        Val::Arr(
            s.into_iter()
                .map(|d| {
                    let x = v[d].clone();
                    match wrap {
                        0 => Val::Obj(x.map(|x| ("a".to_string(), x)).into_iter().collect()),
                        1 => x.unwrap_or(Val::Bool(false)),
                        _ => arr(&[
                            Val::Obj(x.map(|x| ("a".to_string(), x)).into_iter().collect()),
                            st(),
                        ]),
                    }
                })
                .collect(),
        )
    })
}

/// Pairs/triples of short arrays over mixed leaves: tuple merging and tuple/list transitions.
pub fn tuples(inner: usize, outer: usize) -> Family {
    let leaves = vec![int(), flt(), st(), Val::Null, obj(&[("x", int())]), arr(&[])];
    let k = leaves.len() as u64;
    let per = seq_count(k, inner);
    let n = seq_count(per, outer);
    Family::new(&format!("arrays of <={} arrays of <={}", outer, inner), n, move |i| {
        Val::Arr(
            seq_nth(per, outer, i)
                .into_iter()
                .map(|j| Val::Arr(seq_nth(k, inner, j as u64).into_iter().map(|d| leaves[d].clone()).collect()))
                .collect(),
        )
    })
}

/// Sizes at which code tends to change its mind.
const ROUND: [usize; 34] = [
    30, 31, 32, 33, 48, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 201, 250, 255, 256, 257, 300, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025,
];
const ROUND_MORE: [usize; 15] = [2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 8193, 9999, 10000, 10001, 65535, 65536, 65537];

/// Long arrays with a deviant at places near the ends, in the middle and at round positions.
pub fn far_arrays(thorough: bool, extra: &[usize]) -> Family {
    let s = vec![int(), flt(), st(), Val::Null, obj(&[("x", int())]), obj(&[])];
    let mut lens: Vec<usize> = ROUND.iter().copied().chain(extra.iter().copied().filter(|n| (27..=20000).contains(n))).collect();
    if thorough {
        lens.extend(ROUND_MORE);
    }
    lens.sort();
    lens.dedup();
    let mut v = vec![];
    for n in lens {
        let mut at: Vec<usize> = if n <= if thorough { 520 } else { 130 } { (0..n).collect() } else { vec![0, 1, 11, 12, 13, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, n / 2, n - 3, n - 2, n - 1] };
        at.retain(|p| *p < n);
        at.dedup();
        for p in at {
            for (b, d) in [(0, 1), (1, 0), (0, 3), (3, 0), (0, 2), (4, 5), (5, 4)] {
                v.push((n, b, d, p));
            }
        }
    }
    Family::new("long arrays with one deviant", v.len() as u64, move |i| {
        let (n, b, d, p) = v[i as usize];
        let mut a = vec![s[b].clone(); n];
        a[p] = s[d].clone();
        Val::Arr(a)
    })
}

/// Large objects with a deviant near the ends and in the middle; and two objects that share few members.
pub fn far_objects(thorough: bool, extra: &[usize]) -> Family {
    let s = [int(), flt(), st(), Val::Null, obj(&[("x", int())])];
    let mut lens: Vec<usize> = ROUND.iter().copied().chain(extra.iter().copied().filter(|n| (21..=3000).contains(n))).collect();
    if thorough {
        lens.extend([2047, 2048, 2049, 4096, 4097, 10001]);
    }
    lens.sort();
    lens.dedup();
    let mut v = vec![];
    for n in lens {
        for p in [0, 1, n / 2, n - 2, n - 1] {
            for (b, d) in [(0, 1), (0, 3), (4, 0), (0, 4)] {
                for w in 0..3 {
                    v.push((n, b, d, p, w));
                }
            }
        }
    }
    Family::new("large objects with one deviant", v.len() as u64, move |i| {
        let (n, b, d, p, w) = v[i as usize];
        let o = |skip: usize| Val::Obj((0..n).filter(|k| *k != skip).map(|k| (format!("k{}", k), if k == p { s[d].clone() } else { s[b].clone() })).collect());
        match w {
            0 => o(n),
            1 => arr(&[o(n), o(p)]),
            _ => arr(&[o(0), o(p), o(n - 1)]),
        }
    })
}

/// Arrays of every length up to `max` (and around integers found in the sources) of one base value
/// with at most one deviant, at every position; alone, and as one of two rows.
pub fn long_arrays(max: usize, extra: &[usize]) -> Family {
    let s = vec![
        int(),
        flt(),
        st(),
        Val::Null,
        obj(&[("x", int())]),
        obj(&[]),
        arr(&[int(), st()]),
    ];
    let mut v = vec![];
    let mut lens: Vec<usize> = (0..=max).collect();
    lens.extend(extra.iter().copied().filter(|l| *l > max && *l <= 300));
    for n in lens {
        for b in 0..s.len() {
            v.push((n, b, usize::MAX, 0u8));
            for d in 0..s.len() {
                if d == b {
                    continue;
                }
                for p in 0..n {
                    if n > max && p > 16 && p + 3 < n {
                        continue;
                    }
                    v.push((n, b, p * 16 + d, 0));
                    if p < 2 || p + 2 >= n || (10..15).contains(&p) {
                        v.push((n, b, p * 16 + d, 1));
                    }
                }
            }
        }
    }
    Family::new(&format!("arrays of length <={} with one deviant", max), v.len() as u64, move |i| {
        let (n, b, e, w) = v[i as usize];
        let mut a = vec![s[b].clone(); n];
        if e != usize::MAX {
            a[e / 16] = s[e % 16].clone();
        }
        if w == 0 { Val::Arr(a) } else { Val::Arr(vec![Val::Arr(vec![s[b].clone(); n]), Val::Arr(a)]) }
    })
}

/// Objects of every size up to `max` with a deviant at every position.
pub fn long_objects(max: usize, extra: &[usize]) -> Family {
    let s = [int(), flt(), st(), Val::Null, obj(&[("x", int())])];
    let mut v = vec![];
    let mut lens: Vec<usize> = (0..=max).collect();
    lens.extend(extra.iter().copied().filter(|l| *l > max && *l <= 300));
    for n in lens {
        for b in 0..s.len() {
            for d in 0..s.len() {
                for p in 0..n.max(1) {
                    if (n > max && p > 3 && p + 3 < n) || (d == b && p > 0) {
                        continue;
                    }
                    v.push((n, b, d, p));
                }
            }
        }
    }
    Family::new(&format!("objects of size <={}", max), v.len() as u64, move |i| {
        let (n, b, d, p) = v[i as usize];
        Val::Obj((0..n).map(|k| (format!("k{}", k), if k == p { s[d].clone() } else { s[b].clone() })).collect())
    })
}

/// {"p": A, "q": B} for all structured A, B up to a size: sharing of generated types.
pub fn pairs(nodes: usize) -> Family {
    let u = Universe::with(nodes, vec![Val::Null, int(), st()], "a", "b");
    let t = u.total();
    Family::new(&format!("pairs of documents <={} nodes", nodes), t * t * 2, move |i| {
        let (w, i) = (i % 2, i / 2);
        let (a, b) = (u.nth(i / t), u.nth(i % t));
        if w == 0 {
            obj(&[("p", a), ("q", b)])
        } else {
            obj(&[("p", arr(&[obj(&[("a", a.clone())]), obj(&[])])), ("q", obj(&[("a", b)]))])
        }
    })
}

/// Two or three arrays of every two lengths in the same position, each of one value with a deviant at its
/// start or end.
pub fn unequal(max: usize) -> Family {
    let s = [int(), flt(), st(), Val::Null, obj(&[("x", int())]), obj(&[]), arr(&[])];
    let k = s.len() as u64;
    let n = max as u64 + 1;
    Family::new(&format!("pairs of arrays of lengths <={}", max), n * n * k * k * k * 4, move |i| {
        let (a, i) = ((i % n) as usize, i / n);
        let (b, i) = ((i % n) as usize, i / n);
        let (w, i) = (i % 4, i / 4);
        let d = digits(i, k, 3);
        let mut x = vec![s[d[0]].clone(); a];
        let mut y = vec![s[d[1]].clone(); b];
        let dev = s[d[2]].clone();
        let t = if w & 1 == 0 { &mut x } else { &mut y };
        if w & 2 == 0 {
            if let Some(l) = t.last_mut() {
                *l = dev;
            }
        } else if let Some(f) = t.first_mut() {
            *f = dev;
        }
        arr(&[Val::Arr(x), Val::Arr(y)])
    })
}

/// Two positions that each hold up to `rows` objects with a member of every kind: near-equal object types.
pub fn sharing(rows: usize) -> Family {
    let v = [
        None,
        Some(Val::Null),
        Some(int()),
        Some(flt()),
        Some(st()),
        Some(arr(&[])),
        Some(arr(&[int()])),
        Some(arr(&[int(), st()])),
        Some(obj(&[])),
        Some(obj(&[("y", int())])),
    ];
    let k = v.len() as u64;
    let per = seq_count(k, rows);
    Family::new(&format!("two lists of <={} objects that may share a type", rows), per * per * 2, move |i| {
        let (w, i) = (i % 2, i / 2);
        let side = |j: u64| {
            Val::Arr(
                seq_nth(k, rows, j)
                    .into_iter()
                    .map(|d| Val::Obj([v[d].clone().map(|x| ("x".to_string(), x)), Some(("k".to_string(), int()))].into_iter().flatten().collect()))
                    .collect(),
            )
        };
        let (a, b) = (side(i / per), side(i % per));
        if w == 0 { obj(&[("a", a), ("b", b)]) } else { obj(&[("b", obj(&[("c", a)])), ("d", arr(&[b]))]) }
    })
}

/// Objects of several members, each an object of one of a few forms: small or large, a type of its own
/// or one that other members use too, directly or further in.
pub fn siblings(n: usize) -> Family {
    let wide = |a: &[&str]| Val::Obj(a.iter().map(|k| (k.to_string(), int())).collect());
    let form = move |d: usize, j: usize| {
        let own = ["e", "f", "g", "h", "i", "j"][j];
        match d {
            0 => obj(&[("x", wide(&["y", "z", "w", "v"]))]),
            1 => obj(&[("q", wide(&["y", "z", "w", "v"]))]),
            2 => wide(&[own]),
            3 => wide(&["y", "z", "w", "v"]),
            4 => Val::Obj(vec![(own.into(), st()), ("m".into(), wide(&["s"])), ("n".into(), int()), ("o".into(), int()), ("p".into(), int())]),
            5 => arr(&[wide(&["s"]), wide(&["s", "t"])]),
            _ => int(),
        }
    };
    let mut v = vec![];
    for k in 3..=n {
        for i in 0..7u64.pow(k as u32) {
            v.push((k as u8, i as u32));
        }
    }
    Family::new(&format!("<={} members of 7 forms that may share types", n), v.len() as u64, move |i| {
        let (k, i) = v[i as usize];
        Val::Obj(digits(i as u64, 7, k as usize).into_iter().enumerate().map(|(j, d)| (["a", "b", "c", "d", "r", "u"][j].to_string(), form(d, j))).collect())
    })
}

/// Two objects of several members, all of which hold the same in the first and the same in the second,
/// except for the first or last member.
pub fn alike(most: usize) -> Family {
    let v = [None, Some(Val::Null), Some(int()), Some(st()), Some(arr(&[])), Some(arr(&[int()])), Some(obj(&[])), Some(obj(&[("x", int())]))];
    let sizes: Vec<usize> = (2..=most).collect();
    let n = sizes.len() as u64;
    Family::new(&format!("two objects of <={} members, alike but for one", most), 4096 * n * 2 * 2, move |i| {
        let d = digits(i, 8, 4);
        let i = i / 4096;
        let k = sizes[(i / 4) as usize];
        let at = if i & 1 == 0 { 0 } else { k - 1 };
        let row = |usual: usize, other: usize| {
            Val::Obj((0..k).filter_map(|j| v[if j == at { other } else { usual }].clone().map(|x| (["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"][j].to_string(), x))).collect())
        };
        let two = arr(&[row(d[0], d[1]), row(d[2], d[3])]);
        if i & 2 == 0 { two } else { obj(&[("m", two), ("n", int())]) }
    })
}

/// Chains of alternating nesting up to a depth, with different leaves.
pub fn deep(depth: usize) -> Family {
    let l = [Val::Null, int(), st(), arr(&[]), obj(&[]), arr(&[int(), st()])];
    let mut v = vec![];
    for pat in 0..8u32 {
        for d in (0..=depth).chain([32, 33, 40, 50, 63, 64, 65, 100, 127, 128, 129, 150, 190].into_iter().filter(|d| *d > depth)) {
            for leaf in 0..l.len() {
                v.push((pat, d, leaf));
            }
        }
    }
    Family::new(&format!("nesting <={} and up to 190", depth), v.len() as u64, move |i| {
        let (pat, d, leaf) = v[i as usize];
        let mut x = l[leaf].clone();
        for k in 0..d {
            x = match (pat >> (k % 3)) & 1 {
                0 => arr(&[x]),
                _ => obj(&[("a", x)]),
            };
        }
        x
    })
}

/// The document with one node removed, added or replaced.
pub fn mutants(v: &Val, out: &mut Vec<Val>) {
    let repl = [Val::Null, Val::Bool(true), int(), flt(), st(), Val::Arr(vec![]), Val::Obj(vec![])];
    for r in repl {
        if r != *v {
            out.push(r);
        }
    }
    match v {
        Val::Arr(vs) => {
            for i in 0..vs.len() {
                let mut d = vs.clone();
                d.remove(i);
                out.push(Val::Arr(d));
                let mut sub = vec![];
                mutants(&vs[i], &mut sub);
                for s in sub {
                    let mut d = vs.clone();
                    d[i] = s;
                    out.push(Val::Arr(d));
                }
            }
            for x in [int(), Val::Null] {
                let mut d = vs.clone();
                d.push(x);
                out.push(Val::Arr(d));
            }
        }
        Val::Obj(ms) => {
            for i in 0..ms.len() {
                let mut d = ms.clone();
                d.remove(i);
                out.push(Val::Obj(d));
                let mut sub = vec![];
                mutants(&ms[i].1, &mut sub);
                for s in sub {
                    let mut d = ms.clone();
                    d[i].1 = s;
                    out.push(Val::Obj(d));
                }
            }
            let mut d = ms.clone();
            d.push(("zz".into(), int()));
            out.push(Val::Obj(d));
        }
        _ => {}
    }
}

/// Two objects whose only member differs in one node: they may share a type, or must not.
pub fn near(thorough: bool) -> Family {
    let l = [int(), st(), Val::Null, obj(&[("y", int())]), flt()];
    let mut base = vec![];
    let u = Universe::with(if thorough { 4 } else { 3 }, vec![Val::Null, int(), st()], "y", "z");
    base.extend((0..u.total()).map(|i| u.nth(i)));
    for n in 2..=if thorough { 5 } else { 4usize } {
        for i in 0..(l.len() as u64).pow(n as u32) {
            base.push(arr(&digits(i, l.len() as u64, n).into_iter().map(|d| l[d].clone()).collect::<Vec<_>>()));
        }
    }
    for n in 5..=14usize {
        for p in [0, 1, n - 1] {
            let mut a = vec![int(); n];
            a[p] = st();
            base.push(Val::Arr(a));
        }
    }
    let mut v: Vec<(usize, Val)> = vec![];
    for (i, b) in base.iter().enumerate() {
        let mut m = vec![];
        mutants(b, &mut m);
        if let Val::Arr(a) = b {
            m.push(Val::Arr(a.iter().chain([&st(), &int()]).cloned().collect()));
            m.push(Val::Arr(a.iter().rev().cloned().collect()));
            m.push(Val::Arr(a.iter().chain(a).cloned().collect()));
        }
        v.extend(m.into_iter().map(|x| (i, x)));
    }
    Family::new("two objects that differ in one node", v.len() as u64 * 4, move |i| {
        let (w, i) = (i % 4, (i / 4) as usize);
        let (a, b) = (base[v[i].0].clone(), v[i].1.clone());
        let (a, b) = if w % 2 == 0 { (a, b) } else { (b, a) };
        match w / 2 {
            0 => obj(&[("p", obj(&[("t", a)])), ("q", obj(&[("t", b)]))]),
            _ => arr(&[arr(&[obj(&[("p", obj(&[("k", int()), ("t", a)]))])]), arr(&[obj(&[("q", arr(&[obj(&[("t", b), ("k", int())])]))])])]),
        }
    })
}

/// Structural families used by the per-language properties.
pub fn structural(thorough: bool, consts: &[usize]) -> Vec<Family> {
    let u = Universe::new(if thorough { 8 } else { 6 });
    let n = u.total();
    vec![
        Family::new(&format!("all documents with <={} nodes", if thorough { 8 } else { 6 }), n, move |i| u.nth(i)),
        rows(if thorough { 5 } else { 4 }),
        tuples(3, 2),
        tuples(2, if thorough { 4 } else { 3 }),
        long_arrays(if thorough { 40 } else { 26 }, consts),
        long_objects(if thorough { 40 } else { 20 }, consts),
        far_arrays(thorough, consts),
        far_objects(thorough, consts),
        pairs(4),
        deep(if thorough { 60 } else { 24 }),
        near(thorough),
        unequal(if thorough { 20 } else { 15 }),
        sharing(if thorough { 3 } else { 2 }),
        siblings(if thorough { 6 } else { 5 }),
        alike(if thorough { 10 } else { 5 }),
    ]
}

//! Input families. Every family is a finite, fully enumerated set; nothing here is drawn at random
//! at run time (the "mix" patterns are fixed sequences, indexed by a small number).

/// All weak orders (dense rank vectors) of n elements: every input a comparator can tell apart.
pub fn weak_orders(n: usize, f: &mut dyn FnMut(&[u32])) {
    fn rec(v: &mut Vec<u32>, n: usize, count: &mut [u32], max: u32, distinct: u32, f: &mut dyn FnMut(&[u32])) {
        if v.len() == n {
            if n == 0 || distinct == max + 1 {
                f(v);
            }
            return;
        }
        let left = (n - v.len()) as u32;
        for x in 0..n as u32 {
            let m = if v.is_empty() { x } else { max.max(x) };
            let d = distinct + (count[x as usize] == 0) as u32;
            // Ranks still missing below the maximum must fit into the remaining places.
            if m + 1 - d > left - 1 {
                continue;
            }
            count[x as usize] += 1;
            v.push(x);
            rec(v, n, count, m, d, f);
            v.pop();
            count[x as usize] -= 1;
        }
    }
    let mut v = Vec::with_capacity(n);
    let mut count = vec![0; n.max(1)];
    rec(&mut v, n, &mut count, 0, 0, f);
}

/// All vectors over {0..k} of length n.
pub fn words(n: usize, k: u32, f: &mut dyn FnMut(&[u32])) {
    let mut v = vec![0u32; n];
    loop {
        f(&v);
        let mut i = 0;
        loop {
            if i == n {
                return;
            }
            v[i] += 1;
            if v[i] < k {
                break;
            }
            v[i] = 0;
            i += 1;
        }
    }
}

pub fn mix(seed: u64, i: u64) -> u64 {
    let mut z = (seed.wrapping_mul(0x1000).wrapping_add(i)).wrapping_add(0x9E37_79B9_7F4A_7C15u64.wrapping_mul(i.wrapping_add(1)));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// A fixed permutation of 0..n, number `seed`.
pub fn perm(n: usize, seed: u64) -> Vec<u32> {
    let mut v: Vec<u32> = (0..n as u32).collect();
    for i in (1..n).rev() {
        v.swap(i, (mix(seed + 77, i as u64) % (i as u64 + 1)) as usize);
    }
    v
}

pub type Named = (String, Vec<u32>);

/// The base shapes at length n.
pub fn shapes(n: usize) -> Vec<Named> {
    let u = n as u32;
    let mut o: Vec<Named> = Vec::new();
    let mut put = |s: String, v: Vec<u32>| o.push((s, v));
    let gen_ = |f: &dyn Fn(u32) -> u32| -> Vec<u32> { (0..u).map(f).collect() };
    put("asc".into(), gen_(&|i| i));
    put("desc".into(), gen_(&|i| u - i));
    put("const".into(), gen_(&|_| 7));
    put("pairs asc".into(), gen_(&|i| i / 2));
    put("pairs desc".into(), gen_(&|i| (u - i) / 2));
    put("pipe".into(), gen_(&|i| i.min(u - 1 - i)));
    put("valley".into(), gen_(&|i| i.max(u - 1 - i)));
    put("zigzag".into(), gen_(&|i| if i % 2 == 0 { i } else { 2 * u - i }));
    for p in [2u32, 3, 5, 10, 16, 21, 50] {
        if p < u {
            put(format!("saw up {p}"), gen_(&|i| i % p));
            put(format!("saw down {p}"), gen_(&|i| p - i % p));
        }
    }
    put("two runs".into(), gen_(&|i| if i < u / 2 { 2 * i } else { 2 * (i - u / 2) + 1 }));
    put("two desc runs".into(), gen_(&|i| if i < u / 2 { 2 * (u - i) } else { 2 * (u - i) + 1 }));
    put("swapped halves".into(), gen_(&|i| (i + u / 2) % u.max(1)));
    put("rotated by 1".into(), gen_(&|i| (i + 1) % u.max(1)));
    put("rotated by n-1".into(), gen_(&|i| (i + u.max(1) - 1) % u.max(1)));
    put("interleaved".into(), gen_(&|i| if i % 2 == 0 { i / 2 } else { u / 2 + i / 2 }));
    put("desc blocks of 12".into(), gen_(&|i| (i / 12) * 12 + 11 - i % 12));
    put("asc, last smallest".into(), gen_(&|i| if i + 1 == u { 0 } else { i + 1 }));
    put("asc, first largest".into(), gen_(&|i| if i == 0 { u } else { i }));
    put("asc, mid equal".into(), gen_(&|i| if i > u / 4 && i < u / 4 * 3 { u / 2 } else { i }));
    put("few on top".into(), gen_(&|i| if i % 7 == 3 { 1 } else { 0 }));
    put("many on top".into(), gen_(&|i| if i % 9 == 4 { 0 } else { 1 }));
    put("asc low bits".into(), gen_(&|i| i.reverse_bits() >> 16));
    for s in 0..4u64 {
        put(format!("mix {s}"), perm(n, s));
    }
    for (k, s) in [(2u64, 5u64), (3, 6), (8, 7), (2, 8)] {
        put(format!("mix {s} of {k} values"), (0..n).map(|i| (mix(s, i as u64) % k) as u32).collect());
    }
    let r = (n as f64).sqrt() as u64 + 1;
    put("mix of sqrt(n) values".into(), (0..n).map(|i| (mix(9, i as u64) % r) as u32).collect());
    // A sorted array with a shuffled tail and one with shuffled head.
    let t = n - n / 8;
    put("asc, mixed tail".into(), (0..n).map(|i| if i < t { i as u32 * 2 } else { (mix(10, i as u64) % (2 * n as u64)) as u32 }).collect());
    put("mixed head, asc".into(), (0..n).map(|i| if i >= n / 8 { i as u32 * 2 } else { (mix(11, i as u64) % (2 * n as u64)) as u32 }).collect());
    put("desc, mixed tail".into(), (0..n).map(|i| if i < t { (n - i) as u32 * 2 } else { (mix(12, i as u64) % (2 * n as u64)) as u32 }).collect());
    // Medians of three killer.
    put("median killer".into(), {
        let mut v = vec![0u32; n];
        let k = n / 2;
        for i in 0..k {
            v[i] = if i % 2 == 0 { i as u32 + 1 } else { (k + i) as u32 };
        }
        for i in k..n {
            v[i] = 2 * (i - k) as u32 + 2;
        }
        v
    });
    o
}

/// Positions below `n`: the ends, those around powers of two, and a few in between.
pub fn places(n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n.min(4)).chain(n.saturating_sub(4)..n).collect();
    p.extend((2..40).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).filter(|&i| i < n));
    p.extend((1..8).map(|j| j * n / 8).filter(|&i| i < n));
    p.sort_unstable();
    p.dedup();
    p
}

/// The first so many of a list of shapes for lengths where all would take too long.
pub fn long(n: usize, many: usize) -> Vec<Named> {
    let list = ["mix 0", "two runs", "mix 6 of 3 values", "asc, mixed tail", "desc", "const", "saw up 50", "interleaved", "median killer", "rotated by 1", "valley", "swapped halves"];
    let mut all = shapes(n);
    list.iter().take(many).filter_map(|s| all.iter().position(|x| x.0 == *s).map(|i| all.swap_remove(i))).collect()
}

/// Vectors of few-valued step shape: `c` cuts out of `cuts`, values alternate along `vals`.
pub fn steps(n: usize, cuts: &[usize], vals: &[&[u32]], f: &mut dyn FnMut(String, Vec<u32>)) {
    for vs in vals {
        let need = vs.len() - 1;
        let mut pick = Vec::new();
        fn rec(cuts: &[usize], from: usize, need: usize, pick: &mut Vec<usize>, n: usize, vs: &[u32], f: &mut dyn FnMut(String, Vec<u32>)) {
            if pick.len() == need {
                let mut v = vec![0; n];
                let mut seg = 0;
                for (i, x) in v.iter_mut().enumerate() {
                    while seg < need && i >= pick[seg] {
                        seg += 1;
                    }
                    *x = vs[seg];
                }
                f(format!("n={n} steps {vs:?} at {pick:?}"), v);
                return;
            }
            for k in from..cuts.len() {
                pick.push(cuts[k]);
                rec(cuts, k + 1, need, pick, n, vs, f);
                pick.pop();
            }
        }
        rec(cuts, 0, need, &mut pick, n, vs, f);
    }
}

/// How a run of a run-structured input is directed.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dir {
    Up,
    Down,
    Flat,
}
/// How the value ranges of consecutive runs relate.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rel {
    /// Each run starts above the one before (ends up sorted across, if runs ascend).
    Above,
    /// Each run lies below the one before.
    Below,
    /// All runs share one range.
    Mixed,
    /// All runs share few values (many ties).
    Ties,
}
pub const RELS: [Rel; 4] = [Rel::Above, Rel::Below, Rel::Mixed, Rel::Ties];

/// Concatenates runs of the given lengths and directions.
pub fn runs(lens: &[usize], dirs: &[Dir], rel: Rel) -> Vec<u32> {
    let total: usize = lens.iter().sum();
    let big = total as u32 + 5;
    let mut v = Vec::with_capacity(total);
    for (r, (&l, &d)) in lens.iter().zip(dirs).enumerate() {
        let base = match rel {
            Rel::Above => r as u32 * big,
            Rel::Below => (lens.len() - r) as u32 * big,
            Rel::Mixed => r as u32 % 3,
            Rel::Ties => 0,
        };
        for j in 0..l {
            let x = match d {
                Dir::Up => j,
                Dir::Down => l - 1 - j,
                Dir::Flat => l / 2,
            } as u32;
            let x = match rel {
                Rel::Mixed => x * 3,
                Rel::Ties => {
                    if d == Dir::Down {
                        x
                    } else {
                        x * 4 / l.max(1) as u32
                    }
                }
                _ => x,
            };
            v.push(base + x);
        }
    }
    v
}

/// Moves element i to position j (others keep their order).
pub fn moved(v: &[u32], i: usize, j: usize) -> Vec<u32> {
    let mut w = v.to_vec();
    let x = w.remove(i);
    w.insert(j, x);
    w
}

/// McIlroy's adaptive adversary: decides answers so that pivots are always bad. The keys it ends
/// up with are a static input on which the implementation takes the same bad path. It may be
/// limited to a budget of decided elements; the rest then take a given order above them.
pub struct Adversary {
    val: Vec<u32>,
    solid: u32,
    cand: usize,
    gas: u32,
    frozen: usize,
    pub variant: u8,
}

impl Adversary {
    pub fn new(n: usize, variant: u8) -> Adversary {
        Adversary { val: vec![u32::MAX; n], solid: 0, cand: 0, gas: u32::MAX, frozen: 0, variant }
    }
    fn val_of(&self, a: usize, tail: Option<&[u32]>) -> u32 {
        if self.val[a] == self.gas { self.solid + tail.map_or(a as u32, |t| t[a]) } else { self.val[a] }
    }
    /// Three-way answer for elements a and b.
    pub fn bounded(&mut self, a: usize, b: usize, budget: usize, tail: Option<&[u32]>) -> std::cmp::Ordering {
        let rev = self.variant >= 4;
        if a == b {
            return std::cmp::Ordering::Equal;
        }
        let (ga, gb) = (self.val[a] == self.gas, self.val[b] == self.gas);
        if ga && gb && self.frozen < budget {
            let first = match self.variant % 4 {
                0 => a == self.cand,
                1 => b != self.cand,
                2 => a > b,
                _ => a < b,
            };
            let x = if first { a } else { b };
            self.val[x] = self.solid;
            self.solid += 1;
            self.frozen += 1;
        }
        if self.val[a] == self.gas {
            self.cand = a;
        } else if self.val[b] == self.gas {
            self.cand = b;
        }
        let o = self.val_of(a, tail).cmp(&self.val_of(b, tail));
        if rev { o.reverse() } else { o }
    }
    pub fn keys(&self, tail: Option<&[u32]>) -> Vec<u32> {
        let n = self.val.len();
        let v: Vec<u32> = (0..n).map(|a| self.val_of(a, tail)).collect();
        if self.variant >= 4 {
            let m = v.iter().copied().max().unwrap_or(0);
            v.into_iter().map(|x| m - x).collect()
        } else {
            v
        }
    }
}

//! Suite `de`: whole runs of the differential evolution optimiser.  All that
//! is recorded is what the caller can see: the points handed to its
//! comparison function, the answers it gave, and the result.
use conform::*;
use magnesia::optimize::differential_evolution;
use rand::distributions::uniform::{SampleBorrow, SampleUniform, UniformSampler};
use rand::{Rng, RngCore, SeedableRng};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::ops::{Add, Mul, Sub};

// ---------------------------------------------------------------- scalars
const P1: i64 = 46337;
const P2: i64 = 46327;
/// A number of which only two residues are kept (and an approximation that
/// orders it): linear combinations can be told apart exactly.
#[derive(Clone, Copy)]
struct W {
    a: i64,
    b: i64,
    sh: f64,
}
fn inv(x: i64, p: i64) -> i64 {
    let (mut r, mut e, mut b) = (1, p - 2, x.rem_euclid(p));
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}
impl W {
    fn ratio(n: i64, d: i64) -> W {
        W {
            a: n.rem_euclid(P1) * inv(d, P1) % P1,
            b: n.rem_euclid(P2) * inv(d, P2) % P2,
            sh: n as f64 / d as f64,
        }
    }
}
impl Add for W {
    type Output = W;
    fn add(self, o: W) -> W {
        W { a: (self.a + o.a) % P1, b: (self.b + o.b) % P2, sh: self.sh + o.sh }
    }
}
impl Sub for W {
    type Output = W;
    fn sub(self, o: W) -> W {
        W { a: (self.a - o.a).rem_euclid(P1), b: (self.b - o.b).rem_euclid(P2), sh: self.sh - o.sh }
    }
}
impl Mul for W {
    type Output = W;
    fn mul(self, o: W) -> W {
        W { a: self.a * o.a % P1, b: self.b * o.b % P2, sh: self.sh * o.sh }
    }
}
impl PartialEq for W {
    fn eq(&self, o: &W) -> bool {
        self.sh == o.sh
    }
}
impl PartialOrd for W {
    fn partial_cmp(&self, o: &W) -> Option<std::cmp::Ordering> {
        self.sh.partial_cmp(&o.sh)
    }
}
impl From<i8> for W {
    fn from(i: i8) -> W {
        W::ratio(i as i64, 1)
    }
}
impl From<f32> for W {
    fn from(x: f32) -> W {
        let s = 1i64 << 40;
        let n = (x as f64 * s as f64) as i64;
        W { sh: x as f64, ..W::ratio(n, s) }
    }
}
thread_local!(static SAMPLED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
struct WSampler(W, W);
impl UniformSampler for WSampler {
    type X = W;
    fn new<B1, B2>(low: B1, high: B2) -> Self
    where
        B1: SampleBorrow<W> + Sized,
        B2: SampleBorrow<W> + Sized,
    {
        assert!(low.borrow() < high.borrow(), "empty range");
        WSampler(*low.borrow(), *high.borrow())
    }
    fn new_inclusive<B1, B2>(low: B1, high: B2) -> Self
    where
        B1: SampleBorrow<W> + Sized,
        B2: SampleBorrow<W> + Sized,
    {
        WSampler(*low.borrow(), *high.borrow())
    }
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> W {
        let x = Rng64(rng.next_u64() ^ (rng.next_u64() >> 7)).next();
        let (l, h) = (self.0.sh, self.1.sh);
        let u = (x >> 12) as f64 / (1u64 << 52) as f64;
        // never the same number twice in a run, whatever the generator does
        let c = SAMPLED.with(|s| s.replace(s.get() + 1));
        let y = Rng64(Rng64(x).next() ^ Rng64(c).next()).next();
        W { a: (y % P1 as u64) as i64, b: ((y >> 32) % P2 as u64) as i64, sh: (l + (h - l) * u).clamp(l, h) }
    }
}
impl SampleUniform for W {
    type Sampler = WSampler;
}

trait Sx: Copy + PartialOrd + 'static {
    type Key: std::hash::Hash + Eq;
    /// a with self = a + f * (b - c), as its key
    fn donor(&self, _f: &Self, _b: &Self, _c: &Self) -> Option<Self::Key> {
        None
    }
    fn num(j: &J) -> Self;
    fn key(&self) -> Self::Key;
    fn show(&self) -> J;
    fn real(&self) -> f64;
}
fn special(j: &J) -> f64 {
    match j.s("k") {
        "nan" => f64::NAN,
        "inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "-zero" => -0.0,
        "tiny" => 1e-310,
        "-tiny" => -1e-310,
        "exp" => j.i("m") as f64 * 10f64.powi(j.i("e") as i32),
        _ => j.a("v")[0].int() as f64 / j.a("v")[1].int() as f64,
    }
}
impl Sx for W {
    type Key = (i64, i64);
    fn donor(&self, f: &W, b: &W, c: &W) -> Option<(i64, i64)> {
        Some((*self - *f * (*b - *c)).key())
    }
    fn num(j: &J) -> W {
        if j.s("k") == "num" {
            W::ratio(j.a("v")[0].int(), j.a("v")[1].int())
        } else {
            W { a: 0, b: 0, sh: special(j) }
        }
    }
    fn key(&self) -> (i64, i64) {
        (self.a, self.b)
    }
    fn show(&self) -> J {
        J::Arr(vec![J::Int(self.a), J::Int(self.b)])
    }
    fn real(&self) -> f64 {
        self.sh
    }
}
impl Sx for f64 {
    type Key = u64;
    fn num(j: &J) -> f64 {
        special(j)
    }
    fn key(&self) -> u64 {
        (self + 0.0).to_bits()
    }
    fn show(&self) -> J {
        J::st(&format!("{:x}", self.key()))
    }
    fn real(&self) -> f64 {
        *self
    }
}
impl Sx for f32 {
    type Key = u32;
    fn num(j: &J) -> f32 {
        match j.s("k") {
            "tiny" => f32::from_bits(1),
            "-tiny" => -f32::from_bits(1),
            _ => special(j) as f32,
        }
    }
    fn key(&self) -> u32 {
        (self + 0.0).to_bits()
    }
    fn show(&self) -> J {
        J::st(&format!("{:x}", self.key()))
    }
    fn real(&self) -> f64 {
        *self as f64
    }
}

// ---------------------------------------------------------------- randomness
enum Rnd {
    Mix(Rng64),
    Std(Box<rand::rngs::StdRng>),
    /// like Mix, but extreme outputs are frequent
    Spiky(Rng64),
}
impl RngCore for Rnd {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        match self {
            Rnd::Mix(r) => r.next(),
            Rnd::Std(r) => r.next_u64(),
            Rnd::Spiky(r) => match r.next() % 8 {
                0 | 1 => 0,
                2 => u64::MAX,
                _ => r.next(),
            },
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

// ---------------------------------------------------------------- the caller
/// The caller's comparison: every point gets a fitness when it is first seen.
struct Caller<T: Sx, const N: usize> {
    ids: HashMap<Vec<T::Key>, usize>,
    pts: Vec<[T; N]>,
    fit: Vec<f64>,
    cmp: Vec<J>,
    mode: String,
    /// the answers are scripted and need not be an order
    answers: bool,
    script: Vec<i64>,
    made: usize,
    fresh: usize,
    rng: Rng64,
}
impl<T: Sx, const N: usize> Caller<T, N> {
    fn find(&self, x: &[T; N]) -> Option<usize> {
        self.ids.get(&x.iter().map(|c| c.key()).collect::<Vec<_>>()).copied()
    }
    fn id(&mut self, x: &[T; N], other: Option<usize>) -> usize {
        if let Some(i) = self.find(x) {
            return i;
        }
        let n = self.pts.len();
        let script = |k: usize| -> f64 {
            if self.script.is_empty() {
                0.0
            } else {
                self.script[k % self.script.len()] as f64
            }
        };
        let f = match self.mode.as_str() {
            // relative to the point it is compared with: -1 better, 1 worse
            "rel" => match other {
                Some(o) => {
                    self.fresh += 1;
                    self.fit[o] + script(self.fresh - 1)
                }
                None => (self.rng.next() % 5) as f64,
            },
            "rank" => script(n),
            "newest" => -(n as f64),
            "oldest" => n as f64,
            "const" => 0.0,
            "random" => (self.rng.next() % 1000) as f64,
            "coarse" => (self.rng.next() % 3) as f64,
            "sphere" => x.iter().map(|c| c.real() * c.real()).sum(),
            "first" => x[0].real(),
            "-last" => -x[N - 1].real(),
            o => panic!("harness: fitness {o}"),
        };
        self.ids.insert(x.iter().map(|c| c.key()).collect(), n);
        self.pts.push(*x);
        self.fit.push(f);
        n
    }
    fn compare(&mut self, x: &[T; N], y: &[T; N]) -> bool {
        if self.cmp.len() > 200_000 {
            // far beyond any budget: not a terminating run
            std::process::exit(3);
        }
        let (i, j) = if self.mode == "rel" && self.find(x).is_none() {
            let j = self.id(y, None);
            (self.id(x, Some(j)), j)
        } else {
            (self.id(x, None), self.id(y, None))
        };
        let ans = if self.answers {
            self.script[self.made % self.script.len()] == 1
        } else {
            self.fit[i] < self.fit[j]
        };
        self.made += 1;
        self.cmp.push(J::Arr(vec![J::Int(i as i64 + 1), J::Int(j as i64 + 1), J::Bool(ans)]));
        ans
    }
}

/// Proposes donors for every trial (an empty list: there are none); the
/// specification checks them.  Members are numbered as in the specification:
/// by their turns, and those without a turn as they show up afterwards.
fn hints<T: Sx, const N: usize>(c: &Caller<T, N>, np: usize, iters: usize, fw: &T, cr: f32) -> J {
    let cmp: Vec<(usize, usize, bool)> =
        c.cmp.iter().map(|t| (t.arr()[0].int() as usize - 1, t.arr()[1].int() as usize - 1, t.arr()[2] == J::Bool(true))).collect();
    let turns = iters.min(cmp.len());
    let mut pop: Vec<usize> = cmp.iter().take(np.min(turns)).map(|p| p.1).collect();
    let early: HashSet<usize> = cmp[..turns].iter().flat_map(|p| [p.0, p.1]).collect();
    let taken: HashSet<usize> = cmp[..turns].iter().filter(|p| p.2).map(|p| p.0).collect();
    let known: HashSet<usize> = pop.iter().copied().collect();
    for not in [early, taken, known] {
        for p in &cmp[turns..] {
            for q in [p.0, p.1] {
                if pop.len() < np && !not.contains(&q) && !pop.contains(&q) {
                    pop.push(q);
                }
            }
        }
    }
    if pop.is_empty() {
        return J::Arr(vec![]);
    }
    while pop.len() < np {
        pop.push(pop[0]);
    }
    let mut index: Vec<HashMap<T::Key, Vec<usize>>> = (0..N).map(|_| HashMap::new()).collect();
    for k in 0..N {
        for (i, p) in pop.iter().enumerate() {
            index[k].entry(c.pts[*p][k].key()).or_default().push(i);
        }
    }
    let mut out = vec![];
    for t in 0..turns {
        let (x, me) = (&c.pts[cmp[t].0], t % np);
        let old = &c.pts[pop[me]];
        let moved: Vec<bool> = (0..N).map(|k| x[k].key() != old[k].key()).collect();
        let first = moved.iter().position(|m| *m);
        let mut found = None;
        'search: for i in 0..np {
            for j in 0..np {
                if i == j || i == me || j == me {
                    continue;
                }
                let (b, d) = (&c.pts[pop[i]], &c.pts[pop[j]]);
                for k in first.map(|k| k..k + 1).unwrap_or(0..N) {
                    let Some(key) = x[k].donor(fw, &b[k], &d[k]) else { continue };
                    for a in index[k].get(&key).into_iter().flatten() {
                        let rec = |n: usize| x[n].donor(fw, &b[n], &d[n]) == Some(c.pts[pop[*a]][n].key());
                        if [i, j, me].contains(a) || !(0..N).all(|n| !moved[n] || rec(n)) {
                            continue;
                        }
                        // all of them, or just one
                        if (cr == 1.0 && !(0..N).all(rec)) || (cr == 0.0 && (0..N).any(|n| n != k && moved[n])) {
                            continue;
                        }
                        found = Some(vec![*a, i, j]);
                        break 'search;
                    }
                }
            }
        }
        out.push(J::Arr(found.unwrap_or_default().iter().map(|i| J::Int(*i as i64 + 1)).collect()));
        if cmp[t].2 {
            for k in 0..N {
                let (o, w) = (old[k].key(), x[k].key());
                index[k].get_mut(&o).unwrap().retain(|i| *i != me);
                index[k].entry(w).or_default().push(me);
            }
            pop[me] = cmp[t].0;
        }
    }
    J::Arr(out)
}

fn run<T, const N: usize>(e: &J) -> J
where
    T: Sx + SampleUniform + Add<Output = T> + Sub<Output = T> + Mul<Output = T>,
    f32: Into<T>,
    i8: Into<T>,
{
    let seed = e.i("seed") as u64;
    SAMPLED.with(|s| s.set(0));
    let mut rng = match e.s("rng") {
        "mix" => Rnd::Mix(Rng64(seed)),
        "std" => Rnd::Std(Box::new(rand::rngs::StdRng::seed_from_u64(seed))),
        "spiky" => Rnd::Spiky(Rng64(seed)),
        o => panic!("harness: rng {o}"),
    };
    let b = e.a("bounds");
    let bounds: [(T, T); N] = std::array::from_fn(|i| (T::num(&b[i].arr()[0]), T::num(&b[i].arr()[1])));
    let mode = e.s("fit").to_string();
    let caller = RefCell::new(Caller::<T, N> {
        ids: HashMap::new(),
        pts: vec![],
        fit: vec![],
        cmp: vec![],
        answers: mode == "answers",
        mode: if mode == "answers" { "const".into() } else { mode },
        script: e.opt("script").map(|s| s.arr().iter().map(|x| x.int()).collect()).unwrap_or_default(),
        made: 0,
        fresh: 0,
        rng: Rng64(seed + 77),
    });
    let res = guarded(|| {
        differential_evolution(
            &bounds,
            e.u("np"),
            f32::num(e.get("cr")),
            T::num(e.get("fw")),
            e.u("iters"),
            &mut rng,
            |x: &[T; N], y: &[T; N]| caller.borrow_mut().compare(x, y),
        )
    });
    let c = caller.into_inner();
    let mut sorted = c.fit.clone();
    sorted.sort_by(|a, b| a.partial_cmp(b).expect("harness: fitness"));
    sorted.dedup();
    let rank = |f: f64| sorted.iter().position(|x| *x == f).unwrap() as i64;
    let (ok, res) = match &res {
        Ok(r) => (true, c.find(r).map(|i| i as i64 + 1).unwrap_or(0)),
        Err(()) => (false, 0),
    };
    let proposals = e.s("impl") == "w" && e.opt("hints").is_some();
    let hint = if proposals { hints(&c, e.u("np"), e.u("iters"), &T::num(e.get("fw")), f32::num(e.get("cr"))) } else { J::Arr(vec![]) };
    // where in its range each coordinate lies, in eighths
    let bin = |i: usize, x: &T| {
        let (lo, hi) = (bounds[i].0.real(), bounds[i].1.real());
        J::Int(((8.0 * (x.real() - lo) / (hi - lo)).floor() as i64).clamp(0, 7))
    };
    let bins = |p: &[T; N]| J::Arr(p.iter().enumerate().map(|(i, x)| bin(i, x)).collect());
    let bins = if e.opt("spread").is_some() { c.pts.iter().map(bins).collect() } else { vec![] };
    J::obj(vec![
        ("hint", hint),
        ("bins", J::Arr(bins)),
        ("ended", J::st(if ok { "returned" } else { "panic" })),
        ("res", J::Int(res)),
        ("pts", J::Arr(c.pts.iter().map(|p| J::Arr(p.iter().map(|x| x.show()).collect())).collect())),
        (
            "inb",
            J::Arr(
                c.pts
                    .iter()
                    .map(|p| J::Bool((0..N).all(|i| bounds[i].0 <= p[i] && p[i] <= bounds[i].1)))
                    .collect(),
            ),
        ),
        ("rank", J::Arr(c.fit.iter().map(|f| J::Int(rank(*f))).collect())),
        ("cmp", J::Arr(c.cmp)),
    ])
}

struct S;
impl Session for S {
    fn exec(&mut self, e: &J) -> J {
        macro_rules! go {
            ($($n:literal)*) => {
                match (e.s("impl"), e.u("n")) {
                    $( ("w", $n) => run::<W, $n>(e),
                       ("f32", $n) => run::<f32, $n>(e),
                       ("f64", $n) => run::<f64, $n>(e), )*
                    _ => panic!("harness: no such instance"),
                }
            };
        }
        go!(1 2 3 4 5 6 7 8 9 10 12 16 17 32 33 64 65 100)
    }
}

fn main() {
    main_loop(|_| Box::new(S))
}

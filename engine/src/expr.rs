//! Hash-consed bit-vector (and floating-point) terms with a sound simplifier.
//!
//! * bit-slice normal form: shifts by constants, masks, zero extensions, truncations and
//!   disjoint ors become `Concat` of slices, so encode/decode pairs such as varints cancel;
//! * exact tables: a term over variables whose domains have at most `SMALL` valuations is
//!   replaced by its canonical table, so single-byte conditions are decided exactly;
//! * decimal numerals (`Dec`): terms known to be a sum of decimal digits times powers of ten.

use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

/// sum of k * (signed value of atom) + c
#[derive(Clone, Debug)]
pub struct Lin {
    pub t: Vec<(E, i128)>,
    pub c: i128,
}
impl Lin {
    /// self + f * o
    fn combine(&self, o: &Lin, f: i128) -> Option<Lin> {
        let mut t = self.t.clone();
        for &(x, k) in &o.t {
            let k = k.checked_mul(f)?;
            match t.binary_search_by_key(&x, |y| y.0) {
                Ok(i) => {
                    t[i].1 = t[i].1.checked_add(k)?;
                    if t[i].1 == 0 {
                        t.remove(i);
                    }
                }
                Err(i) => {
                    if k != 0 {
                        t.insert(i, (x, k))
                    }
                }
            }
        }
        Some(Lin { t, c: self.c.checked_add(o.c.checked_mul(f)?)? })
    }
}

pub const SMALL: u64 = 256;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    None,
    Const,
    Var,
    Tab,
    Dec,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
    Ite,
    SExt,
    Extract, // imm = lo
    Concat,  // imm = list id
    Look,    // big constant table lookup: imm = bigtable id, k0 = index
    // floating point; values are IEEE bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FCmp,   // imm = predicate bits
    SToF,   // width w float from kid int
    UToF,
    FToS,   // saturating
    FToU,
    FRound, // imm: 0 round half away, 1 floor, 2 ceil, 3 trunc, 4 roundeven
    FExt,
    FTrunc,
    FSqrt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub k: [E; 3],
    pub imm: u64,
}

#[derive(Clone)]
pub struct VarInfo {
    pub name: String,
    pub w: u32,
    pub lo: u128,
    pub hi: u128,
    pub node: E,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let sh = 128 - w;
    ((v << sh) as i128) >> sh
}
fn bitlen(v: u128) -> u32 {
    128 - v.leading_zeros()
}
fn smin(w: u32) -> i128 {
    if w >= 128 {
        i128::MIN
    } else {
        -(1i128 << (w - 1))
    }
}
fn smax(w: u32) -> i128 {
    if w >= 128 {
        i128::MAX
    } else {
        (1i128 << (w - 1)) - 1
    }
}
pub fn pow10(c: u128) -> Option<u32> {
    let mut p = 1u128;
    let mut k = 0;
    loop {
        if p == c {
            return Some(k);
        }
        p = p.checked_mul(10)?;
        k += 1;
        if p > c {
            return None;
        }
    }
}

#[derive(Clone, Copy)]
pub struct Rng {
    pub lo: u128,
    pub hi: u128,
    pub slo: i128,
    pub shi: i128,
}

pub struct Pool {
    linmemo: HashMap<E, Rc<Lin>>,
    pub n: Vec<Node>,
    pub r: Vec<Rng>,
    pub sup: Vec<u32>,
    map: HashMap<Node, E, Bh>,
    cmap: HashMap<(u16, u128), E, Bh>,
    pub sups: Vec<Rc<[u32]>>,
    supprod: Vec<u64>,
    supmap: HashMap<Rc<[u32]>, u32, Bh>,
    supun: HashMap<(u32, u32), u32, Bh>,
    pub vars: Vec<VarInfo>,
    pub tabs: Vec<Rc<[u64]>>,
    tabmap: HashMap<Rc<[u64]>, u32, Bh>,
    pub lists: Vec<Rc<[E]>>,
    listmap: HashMap<Rc<[E]>, u32, Bh>,
    pub big: Vec<Rc<[u64]>>,
    bigmap: HashMap<Rc<[u64]>, u32, Bh>,
    pub decs: HashMap<E, Rc<[E]>, Bh>, // node -> digits (lsb first)
    memo: Vec<u128>,
    memo_gen: Vec<u32>,
    gen: u32,
}

#[derive(Clone, Copy, Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
}
pub type Bh = std::hash::BuildHasherDefault<Fx>;

pub fn eval_op(op: Op, w: u32, imm: u64, kw: [u32; 3], v: [u128; 3]) -> u128 {
    let m = mask(w);
    let [a, b, c] = v;
    let f = |x: u128| f64::from_bits(x as u64);
    let g = |x: u128| f32::from_bits(x as u32);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sx(a, w);
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((x >> s.min(127)) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sx(a, kw[0]) < sx(b, kw[0])) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::SExt => (sx(a, kw[0]) as u128) & m,
        Op::Extract => (a >> imm) & m,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
            if w == 64 {
                let (x, y) = (f(a), f(b));
                (match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    Op::FDiv => x / y,
                    _ => x % y,
                })
                .to_bits() as u128
            } else {
                let (x, y) = (g(a), g(b));
                (match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    Op::FDiv => x / y,
                    _ => x % y,
                })
                .to_bits() as u128
            }
        }
        Op::FCmp => {
            let o = if kw[0] == 64 { f(a).partial_cmp(&f(b)) } else { g(a).partial_cmp(&g(b)) };
            let bit = match o {
                Some(std::cmp::Ordering::Equal) => 1,
                Some(std::cmp::Ordering::Less) => 2,
                Some(std::cmp::Ordering::Greater) => 4,
                None => 8,
            };
            (imm & bit != 0) as u128
        }
        Op::SToF => {
            let x = sx(a, kw[0]);
            if w == 64 {
                (x as f64).to_bits() as u128
            } else {
                (x as f32).to_bits() as u128
            }
        }
        Op::UToF => {
            if w == 64 {
                (a as f64).to_bits() as u128
            } else {
                (a as f32).to_bits() as u128
            }
        }
        Op::FToS => {
            let x = if kw[0] == 64 { f(a) } else { g(a) as f64 };
            let r = if x.is_nan() {
                0
            } else {
                let t = x.trunc();
                let i = t as i128;
                i.clamp(smin(w), smax(w))
            };
            (r as u128) & m
        }
        Op::FToU => {
            let x = if kw[0] == 64 { f(a) } else { g(a) as f64 };
            (x as u128).min(m)
        }
        Op::FRound => {
            if w == 64 {
                let x = f(a);
                (match imm {
                    0 => x.round(),
                    1 => x.floor(),
                    2 => x.ceil(),
                    3 => x.trunc(),
                    _ => x.round_ties_even(),
                })
                .to_bits() as u128
            } else {
                let x = g(a);
                (match imm {
                    0 => x.round(),
                    1 => x.floor(),
                    2 => x.ceil(),
                    3 => x.trunc(),
                    _ => x.round_ties_even(),
                })
                .to_bits() as u128
            }
        }
        Op::FExt => (g(a) as f64).to_bits() as u128,
        Op::FTrunc => (f(a) as f32).to_bits() as u128,
        Op::FSqrt => {
            if w == 64 {
                f(a).sqrt().to_bits() as u128
            } else {
                g(a).sqrt().to_bits() as u128
            }
        }
        _ => panic!("eval_op {:?}", op),
    }
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            linmemo: HashMap::new(),
            n: vec![],
            r: vec![],
            sup: vec![],
            map: Default::default(),
            cmap: Default::default(),
            sups: vec![],
            supprod: vec![],
            supmap: Default::default(),
            supun: Default::default(),
            vars: vec![],
            tabs: vec![],
            tabmap: Default::default(),
            lists: vec![],
            listmap: Default::default(),
            big: vec![],
            bigmap: Default::default(),
            decs: Default::default(),
            memo: vec![],
            memo_gen: vec![],
            gen: 1,
        };
        let e: Rc<[u32]> = Rc::from(vec![]);
        p.sups.push(e.clone());
        p.supprod.push(1);
        p.supmap.insert(e, 0);
        p.push(Node { op: Op::None, w: 0, k: [0; 3], imm: 0 }, Rng { lo: 0, hi: 0, slo: 0, shi: 0 }, 0);
        p
    }
    fn push(&mut self, n: Node, r: Rng, s: u32) -> E {
        self.n.push(n);
        self.r.push(r);
        self.sup.push(s);
        (self.n.len() - 1) as E
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    pub fn op(&self, e: E) -> Op {
        self.n[e as usize].op
    }
    pub fn kid(&self, e: E, i: usize) -> E {
        self.n[e as usize].k[i]
    }
    pub fn lo(&self, e: E) -> u128 {
        self.r[e as usize].lo
    }
    pub fn hi(&self, e: E) -> u128 {
        self.r[e as usize].hi
    }
    pub fn slo(&self, e: E) -> i128 {
        self.r[e as usize].slo
    }
    pub fn shi(&self, e: E) -> i128 {
        self.r[e as usize].shi
    }
    pub fn cval(&self, e: E) -> Option<u128> {
        if self.op(e) == Op::Const {
            Some(self.r[e as usize].lo)
        } else {
            None
        }
    }
    pub fn support(&self, e: E) -> Rc<[u32]> {
        self.sups[self.sup[e as usize] as usize].clone()
    }
    pub fn c(&mut self, w: u32, v: u128) -> E {
        debug_assert!(w > 0 && w <= 4096);
        let v = v & mask(w);
        if let Some(&e) = self.cmap.get(&(w as u16, v)) {
            return e;
        }
        let s = sx(v, w);
        let e = self.push(Node { op: Op::Const, w: w as u16, k: [0; 3], imm: v as u64 }, Rng { lo: v, hi: v, slo: s, shi: s }, 0);
        self.cmap.insert((w as u16, v), e);
        e
    }
    pub fn new_var(&mut self, name: &str, w: u32, lo: u128, hi: u128) -> E {
        let id = self.vars.len() as u32;
        let sup: Rc<[u32]> = Rc::from(vec![id]);
        let si = self.sups.len() as u32;
        self.sups.push(sup.clone());
        self.supprod.push(if hi - lo >= 1 << 32 { u64::MAX } else { (hi - lo + 1) as u64 });
        self.supmap.insert(sup, si);
        let r = self.norm(w, Rng { lo, hi, slo: smin(w), shi: smax(w) });
        let e = self.push(Node { op: Op::Var, w: w as u16, k: [0; 3], imm: id as u64 }, r, si);
        self.vars.push(VarInfo { name: name.to_string(), w, lo, hi, node: e });
        if lo == hi {
            return self.c(w, lo);
        }
        e
    }
    fn norm(&self, w: u32, r: Rng) -> Rng {
        let mut r = r;
        if r.slo >= 0 {
            r.lo = r.lo.max(r.slo as u128);
            r.hi = r.hi.min(r.shi as u128);
        } else if r.shi < 0 {
            r.lo = r.lo.max((r.slo as u128) & mask(w));
            r.hi = r.hi.min((r.shi as u128) & mask(w));
        }
        let h = if w >= 128 { 1u128 << 127 } else { 1u128 << (w - 1) };
        if r.hi < h {
            r.slo = r.slo.max(r.lo as i128);
            r.shi = r.shi.min(r.hi as i128);
        } else if r.lo >= h {
            r.slo = r.slo.max(sx(r.lo, w));
            r.shi = r.shi.min(sx(r.hi, w));
        }
        if r.lo > r.hi || r.slo > r.shi {
            // contradictory static info can only arise from an internal error
            panic!("empty range");
        }
        r
    }
    pub fn sup_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = (a.min(b), a.max(b));
        if let Some(&u) = self.supun.get(&key) {
            return u;
        }
        let (x, y) = (&self.sups[a as usize], &self.sups[b as usize]);
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                v.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j] < x[i] {
                v.push(y[j]);
                j += 1;
            } else {
                v.push(x[i]);
                i += 1;
                j += 1;
            }
        }
        let u = self.intern_sup(v);
        self.supun.insert(key, u);
        u
    }
    fn intern_sup(&mut self, v: Vec<u32>) -> u32 {
        let rc: Rc<[u32]> = Rc::from(v);
        if let Some(&u) = self.supmap.get(&rc) {
            return u;
        }
        let mut prod = 1u64;
        for x in rc.iter() {
            let vi = &self.vars[*x as usize];
            let d = if vi.hi - vi.lo >= 1 << 32 { u64::MAX } else { (vi.hi - vi.lo + 1) as u64 };
            prod = prod.saturating_mul(d);
        }
        let u = self.sups.len() as u32;
        self.sups.push(rc.clone());
        self.supprod.push(prod);
        self.supmap.insert(rc, u);
        u
    }
    pub fn small(&self, sup: u32) -> bool {
        sup != 0 && self.supprod[sup as usize] <= SMALL
    }
    fn intern_tab(&mut self, t: Vec<u64>) -> u32 {
        let rc: Rc<[u64]> = Rc::from(t);
        if let Some(&u) = self.tabmap.get(&rc) {
            return u;
        }
        let u = self.tabs.len() as u32;
        self.tabs.push(rc.clone());
        self.tabmap.insert(rc, u);
        u
    }
    fn intern_list(&mut self, v: Vec<E>) -> u32 {
        let rc: Rc<[E]> = Rc::from(v);
        if let Some(&u) = self.listmap.get(&rc) {
            return u;
        }
        let u = self.lists.len() as u32;
        self.lists.push(rc.clone());
        self.listmap.insert(rc, u);
        u
    }
    pub fn list(&self, e: E) -> Rc<[E]> {
        self.lists[self.n[e as usize].imm as usize].clone()
    }

    // ------------------------------------------------------------ small tables

    /// value of a small-support node as (table getter): returns closure data
    fn tabable(&self, e: E) -> bool {
        match self.op(e) {
            Op::Const | Op::Tab => self.w(e) <= 64,
            Op::Var => self.w(e) <= 64 && self.small(self.sup[e as usize]),
            _ => false,
        }
    }

    fn try_table(&mut self, op: Op, w: u32, kids: &[E], imm: u64) -> Option<E> {
        if w > 64 || kids.len() > 3 {
            return None;
        }
        let mut s = 0;
        for &k in kids {
            if !self.tabable(k) {
                return None;
            }
            s = self.sup_union(s, self.sup[k as usize]);
        }
        if !self.small(s) {
            return None;
        }
        let kw = [
            kids.get(0).map(|k| self.w(*k)).unwrap_or(0),
            kids.get(1).map(|k| self.w(*k)).unwrap_or(0),
            kids.get(2).map(|k| self.w(*k)).unwrap_or(0),
        ];
        let sup = self.sups[s as usize].clone();
        let cols: Vec<Vec<u64>> = kids.iter().map(|&k| self.column(k, &sup)).collect();
        let n = self.supprod[s as usize] as usize;
        let mut t = Vec::with_capacity(n);
        for i in 0..n {
            let mut v = [0u128; 3];
            for (j, c) in cols.iter().enumerate() {
                v[j] = c[i] as u128;
            }
            t.push(eval_op(op, w, imm, kw, v) as u64);
        }
        Some(self.from_table(w, s, t))
    }

    /// the column of values of small node `k` over all valuations of `sup`
    pub fn column(&self, k: E, sup: &[u32]) -> Vec<u64> {
        let n: usize = sup.iter().map(|v| (self.vars[*v as usize].hi - self.vars[*v as usize].lo + 1) as usize).product();
        match self.op(k) {
            Op::Const => vec![self.lo(k) as u64; n],
            _ => {
                let ks = &self.sups[self.sup[k as usize] as usize];
                let tab: Option<&Rc<[u64]>> = if self.op(k) == Op::Tab { Some(&self.tabs[self.n[k as usize].imm as usize]) } else { None };
                let vlo = if tab.is_none() { self.vars[self.n[k as usize].imm as usize].lo as u64 } else { 0 };
                // strides of k's table
                let mut strides = vec![0usize; sup.len()];
                let mut st = 1usize;
                for v in ks.iter() {
                    let pos = sup.iter().position(|x| x == v).unwrap();
                    strides[pos] = st;
                    st *= (self.vars[*v as usize].hi - self.vars[*v as usize].lo + 1) as usize;
                }
                let dims: Vec<usize> = sup.iter().map(|v| (self.vars[*v as usize].hi - self.vars[*v as usize].lo + 1) as usize).collect();
                let mut cnt = vec![0usize; sup.len()];
                let mut out = Vec::with_capacity(n);
                let mut idx = 0usize;
                for _ in 0..n {
                    out.push(match tab {
                        Some(t) => t[idx],
                        None => vlo + idx as u64,
                    });
                    let mut d = 0;
                    while d < cnt.len() {
                        cnt[d] += 1;
                        idx += strides[d];
                        if cnt[d] < dims[d] {
                            break;
                        }
                        idx -= strides[d] * dims[d];
                        cnt[d] = 0;
                        d += 1;
                    }
                }
                out
            }
        }
    }

    fn from_table(&mut self, w: u32, s: u32, t: Vec<u64>) -> E {
        if t.iter().all(|x| *x == t[0]) {
            return self.c(w, t[0] as u128);
        }
        let sup = self.sups[s as usize].clone();
        let mut sup_v: Vec<u32> = sup.to_vec();
        let mut t = t;
        if sup_v.len() > 1 {
            let mut i = 0;
            while i < sup_v.len() {
                // does t depend on var i?
                let dim = |v: u32| (self.vars[v as usize].hi - self.vars[v as usize].lo + 1) as usize;
                let stride: usize = sup_v[..i].iter().map(|v| dim(*v)).product();
                let d = dim(sup_v[i]);
                let mut dep = false;
                'o: for base in 0..t.len() / d {
                    let lowp = base % stride;
                    let highp = base / stride;
                    let b0 = highp * stride * d + lowp;
                    for k in 1..d {
                        if t[b0 + k * stride] != t[b0] {
                            dep = true;
                            break 'o;
                        }
                    }
                }
                if !dep {
                    let mut nt = Vec::with_capacity(t.len() / d);
                    for base in 0..t.len() / d {
                        let lowp = base % stride;
                        let highp = base / stride;
                        nt.push(t[highp * stride * d + lowp]);
                    }
                    t = nt;
                    sup_v.remove(i);
                } else {
                    i += 1;
                }
            }
        }
        if sup_v.len() == 1 {
            let vi = &self.vars[sup_v[0] as usize];
            if vi.w == w && t.iter().enumerate().all(|(i, x)| *x as u128 == vi.lo + i as u128) {
                return vi.node;
            }
        }
        let s = self.intern_sup(sup_v);
        let lo = *t.iter().min().unwrap() as u128;
        let hi = *t.iter().max().unwrap() as u128;
        let slo = t.iter().map(|x| sx(*x as u128, w)).min().unwrap();
        let shi = t.iter().map(|x| sx(*x as u128, w)).max().unwrap();
        let tid = self.intern_tab(t);
        let node = Node { op: Op::Tab, w: w as u16, k: [s, 0, 0], imm: tid as u64 };
        if let Some(&e) = self.map.get(&node) {
            return e;
        }
        let e = self.push(node, Rng { lo, hi, slo, shi }, s);
        self.map.insert(node, e);
        e
    }

    // ------------------------------------------------------------ interning

    fn mk(&mut self, op: Op, w: u32, kids: &[E], imm: u64) -> E {
        let mut k = [0; 3];
        k[..kids.len()].copy_from_slice(kids);
        let node = Node { op, w: w as u16, k, imm };
        if let Some(&e) = self.map.get(&node) {
            return e;
        }
        let mut s = 0;
        for &x in kids {
            s = self.sup_union(s, self.sup[x as usize]);
        }
        let r = self.range(op, w, &k, imm);
        let r = self.norm(w, r);
        if r.lo == r.hi {
            return self.c(w, r.lo);
        }
        let e = self.push(node, r, s);
        self.map.insert(node, e);
        e
    }

    fn range(&self, op: Op, w: u32, k: &[E; 3], imm: u64) -> Rng {
        let m = mask(w);
        let full = Rng { lo: 0, hi: m, slo: smin(w), shi: smax(w) };
        let ra = self.r[k[0] as usize];
        let rb = self.r[k[1] as usize];
        let rc = self.r[k[2] as usize];
        let mut o = full;
        match op {
            Op::Add => {
                if w < 127 {
                    let (l, h) = (ra.lo + rb.lo, ra.hi + rb.hi);
                    if h <= m {
                        o.lo = l;
                        o.hi = h;
                    } else if l > m {
                        o.lo = l - m - 1;
                        o.hi = h - m - 1;
                    }
                    let (l, h) = (ra.slo + rb.slo, ra.shi + rb.shi);
                    if l >= full.slo && h <= full.shi {
                        o.slo = l;
                        o.shi = h;
                    }
                }
            }
            Op::Sub => {
                if w < 127 {
                    if ra.lo >= rb.hi {
                        o.lo = ra.lo - rb.hi;
                        o.hi = ra.hi - rb.lo;
                    } else if ra.hi < rb.lo {
                        o.lo = m + 1 + ra.lo - rb.hi;
                        o.hi = m + 1 + ra.hi - rb.lo;
                    }
                    let (l, h) = (ra.slo - rb.shi, ra.shi - rb.slo);
                    if l >= full.slo && h <= full.shi {
                        o.slo = l;
                        o.shi = h;
                    }
                }
            }
            Op::Mul => {
                if let Some(h) = ra.hi.checked_mul(rb.hi) {
                    if h <= m {
                        o.lo = ra.lo * rb.lo;
                        o.hi = h;
                    }
                }
                let ps = [ra.slo.checked_mul(rb.slo), ra.slo.checked_mul(rb.shi), ra.shi.checked_mul(rb.slo), ra.shi.checked_mul(rb.shi)];
                if ps.iter().all(|x| x.is_some()) {
                    let l = ps.iter().map(|x| x.unwrap()).min().unwrap();
                    let h = ps.iter().map(|x| x.unwrap()).max().unwrap();
                    if l >= full.slo && h <= full.shi {
                        o.slo = l;
                        o.shi = h;
                    }
                }
            }
            Op::UDiv => {
                if rb.lo > 0 {
                    o.lo = ra.lo / rb.hi;
                    o.hi = ra.hi / rb.lo;
                }
            }
            Op::URem => {
                if rb.lo > 0 {
                    o.lo = 0;
                    o.hi = (rb.hi - 1).min(ra.hi);
                } else {
                    o.hi = ra.hi.max(rb.hi);
                }
            }
            Op::SDiv => {
                if rb.slo > 0 {
                    let c = [ra.slo / rb.slo, ra.slo / rb.shi, ra.shi / rb.slo, ra.shi / rb.shi];
                    o.slo = *c.iter().min().unwrap();
                    o.shi = *c.iter().max().unwrap();
                }
            }
            Op::SRem => {
                if rb.slo > 0 {
                    let mx = rb.shi - 1;
                    o.slo = if ra.slo >= 0 { 0 } else { (-mx).max(ra.slo) };
                    o.shi = if ra.shi <= 0 { 0 } else { mx.min(ra.shi) };
                }
            }
            Op::And => {
                o.hi = ra.hi.min(rb.hi);
            }
            Op::Or => {
                o.lo = ra.lo.max(rb.lo);
                o.hi = mask(bitlen(ra.hi | rb.hi)).min(m);
            }
            Op::Xor => {
                o.hi = mask(bitlen(ra.hi | rb.hi)).min(m);
            }
            Op::Shl => {}
            Op::LShr => {
                o.hi = ra.hi;
            }
            Op::AShr => {
                if rb.lo == rb.hi && rb.lo < w as u128 {
                    o.slo = ra.slo >> rb.lo;
                    o.shi = ra.shi >> rb.lo;
                } else {
                    o.slo = ra.slo.min(0);
                    o.shi = ra.shi.max(0);
                }
            }
            Op::Ite => {
                o.lo = rb.lo.min(rc.lo);
                o.hi = rb.hi.max(rc.hi);
                o.slo = rb.slo.min(rc.slo);
                o.shi = rb.shi.max(rc.shi);
            }
            Op::SExt => {
                o.slo = ra.slo;
                o.shi = ra.shi;
            }
            Op::Extract => {
                let (l, h) = (ra.lo >> imm, ra.hi >> imm);
                if w >= 128 || (l >> w) == (h >> w) {
                    o.lo = l & m;
                    o.hi = h & m;
                }
                if imm == 0 && ra.slo >= full.slo && ra.shi <= full.shi {
                    o.slo = ra.slo;
                    o.shi = ra.shi;
                }
            }
            Op::Look => {
                let t = &self.big[imm as usize];
                o.lo = *t.iter().min().unwrap() as u128;
                o.hi = *t.iter().max().unwrap() as u128;
            }
            _ => {}
        }
        o
    }

    fn fold(&mut self, op: Op, w: u32, kids: &[E], imm: u64) -> Option<E> {
        let mut v = [0u128; 3];
        let mut kw = [0u32; 3];
        let mut allc = true;
        for (i, &k) in kids.iter().enumerate() {
            kw[i] = self.w(k);
            match self.cval(k) {
                Some(x) => v[i] = x,
                None => {
                    allc = false;
                    break;
                }
            }
        }
        if allc {
            let r = eval_op(op, w, imm, kw, v);
            return Some(self.c(w, r));
        }
        self.try_table(op, w, kids, imm)
    }

    // ------------------------------------------------------------ decimals

    pub fn as_dec(&self, e: E) -> Option<Rc<[E]>> {
        if let Some(d) = self.decs.get(&e) {
            return Some(d.clone());
        }
        // identity of a single digit variable (possibly widened)
        match self.op(e) {
            Op::Var => {
                let vi = &self.vars[self.n[e as usize].imm as usize];
                if vi.w == 8 && vi.hi <= 9 {
                    return Some(Rc::from(vec![e]));
                }
                None
            }
            Op::Tab => {
                let sup = &self.sups[self.sup[e as usize] as usize];
                if sup.len() == 1 {
                    let vi = &self.vars[sup[0] as usize];
                    if vi.w == 8 && vi.hi <= 9 {
                        let t = &self.tabs[self.n[e as usize].imm as usize];
                        if t.iter().enumerate().all(|(i, x)| *x as u128 == vi.lo + i as u128) {
                            return Some(Rc::from(vec![vi.node]));
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn has_dec(&self) -> bool {
        !self.decs.is_empty()
    }

    /// digits lsb first, each an 8-bit term with value 0..=9
    pub fn mk_dec(&mut self, digits: &[E], w: u32) -> E {
        let mut n = digits.len();
        while n > 1 && self.cval(digits[n - 1]) == Some(0) {
            n -= 1;
        }
        let d: Vec<E> = digits[..n].to_vec();
        let mut lo = 0u128;
        let mut hi = 0u128;
        let mut s = 0;
        let mut p = 1u128;
        for &x in &d {
            lo += p * self.lo(x);
            hi += p * self.hi(x);
            p = p.wrapping_mul(10);
            s = self.sup_union(s, self.sup[x as usize]);
        }
        assert!(hi <= mask(w), "dec too wide");
        let rc: Rc<[E]> = Rc::from(d.clone());
        if s == 0 {
            return self.c(w, lo);
        }
        if self.small(s) && w <= 64 && d.iter().all(|x| self.tabable(*x)) {
            let sup = self.sups[s as usize].clone();
            let nn = self.supprod[s as usize] as usize;
            let mut t = vec![0u64; nn];
            let mut p = 1u64;
            for &x in &d {
                let c = self.column(x, &sup);
                for i in 0..nn {
                    t[i] += p * c[i];
                }
                p = p.wrapping_mul(10);
            }
            let e = self.from_table(w, s, t);
            self.decs.insert(e, rc);
            return e;
        }
        let l = self.intern_list(d);
        let node = Node { op: Op::Dec, w: w as u16, k: [0; 3], imm: l as u64 };
        if let Some(&e) = self.map.get(&node) {
            return e;
        }
        let r = self.norm(w, Rng { lo, hi, slo: smin(w), shi: smax(w) });
        let e = self.push(node, r, s);
        self.map.insert(node, e);
        self.decs.insert(e, rc);
        e
    }

    /// merge two numerals digit-wise when at each position at most one is non-zero
    fn dec_merge(&mut self, a: &[E], b: &[E], w: u32) -> Option<E> {
        let n = a.len().max(b.len());
        let z = self.c(8, 0);
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let x = a.get(i).copied().unwrap_or(z);
            let y = b.get(i).copied().unwrap_or(z);
            if x == z {
                v.push(y)
            } else if y == z {
                v.push(x)
            } else {
                return None;
            }
        }
        let mut hi = 0u128;
        let mut p = 1u128;
        for &x in &v {
            hi = hi.checked_add(p.checked_mul(self.hi(x))?)?;
            p = p.checked_mul(10)?;
        }
        if hi > mask(w) {
            return None;
        }
        Some(self.mk_dec(&v, w))
    }

    fn dec_digits(&mut self, e: E) -> Vec<E> {
        if let Some(c) = self.cval(e) {
            return self.dec_of_const(c);
        }
        self.as_dec(e).unwrap().to_vec()
    }
    fn dec_of_const(&mut self, c: u128) -> Vec<E> {
        let mut v = vec![];
        let mut c = c;
        loop {
            v.push(self.c(8, c % 10));
            c /= 10;
            if c == 0 {
                break;
            }
        }
        v
    }

    // ------------------------------------------------------------ slices

    /// bit-slices of e, lsb first
    fn parts(&mut self, e: E) -> Vec<E> {
        if self.op(e) == Op::Concat {
            return self.list(e).to_vec();
        }
        let w = self.w(e);
        if self.op(e) != Op::Const {
            let b = bitlen(self.hi(e));
            if b < w {
                let lowpart = self.extract(e, 0, b);
                let z = self.c(w - b, 0);
                return vec![lowpart, z];
            }
        }
        vec![e]
    }

    /// concatenation, lsb first
    pub fn concat(&mut self, ps: &[E]) -> E {
        let mut flat: Vec<E> = Vec::with_capacity(ps.len());
        for &p in ps {
            if self.op(p) == Op::Concat {
                let l = self.list(p);
                for &q in l.iter() {
                    self.push_part(&mut flat, q);
                }
            } else {
                self.push_part(&mut flat, p);
            }
        }
        if flat.len() == 1 {
            return flat[0];
        }
        let w: u32 = flat.iter().map(|p| self.w(*p)).sum();
        if flat.len() == 2 && w <= 128 && self.has_dec() {
            let f = flat[0];
            let fw = self.w(f);
            match self.cval(flat[1]) {
                Some(0) => {
                    if let Some(d) = self.as_dec(f) {
                        return self.mk_dec(&d, w);
                    }
                }
                Some(c) if c == mask(w - fw) && self.op(f) == Op::Sub && self.cval(self.kid(f, 0)) == Some(0) => {
                    // sign bits of a negative numeral
                    let b = self.kid(f, 1);
                    if self.lo(b) >= 1 {
                        if let Some(d) = self.as_dec(b) {
                            let y = self.mk_dec(&d, w);
                            let z = self.c(w, 0);
                            return self.sub(z, y);
                        }
                    }
                }
                _ => {}
            }
        }
        // [Extract(e,0,k), 0...] with hi(e) < 2^k, same width
        if flat.len() == 2 && self.cval(flat[1]) == Some(0) {
            let f = flat[0];
            if self.op(f) == Op::Extract && self.n[f as usize].imm == 0 {
                let b = self.kid(f, 0);
                if self.w(b) == w && self.hi(b) <= mask(self.w(f)) {
                    return b;
                }
            }
        }
        // all small?
        if w <= 64 {
            let mut s = 0;
            let mut ok = true;
            for &p in &flat {
                if !self.tabable(p) {
                    ok = false;
                    break;
                }
                s = self.sup_union(s, self.sup[p as usize]);
            }
            if ok && self.small(s) {
                let sup = self.sups[s as usize].clone();
                let n = self.supprod[s as usize] as usize;
                let mut t = vec![0u64; n];
                let mut sh = 0;
                for &p in &flat {
                    let c = self.column(p, &sup);
                    for i in 0..n {
                        t[i] |= c[i] << sh;
                    }
                    sh += self.w(p);
                }
                return self.from_table(w, s, t);
            }
        }
        let l = self.intern_list(flat.clone());
        let node = Node { op: Op::Concat, w: w as u16, k: [0; 3], imm: l as u64 };
        if let Some(&e) = self.map.get(&node) {
            return e;
        }
        let mut lo = 0u128;
        let mut hi = 0u128;
        let mut sh = 0;
        let mut s = 0;
        for &p in &flat {
            if sh < 128 {
                lo |= self.lo(p) << sh;
                hi |= self.hi(p) << sh;
            }
            sh += self.w(p);
            s = self.sup_union(s, self.sup[p as usize]);
        }
        let mut r = Rng { lo, hi, slo: smin(w), shi: smax(w) };
        if w > 128 {
            r = Rng { lo: 0, hi: !0, slo: i128::MIN, shi: i128::MAX };
        }
        let r = if w <= 128 { self.norm(w, r) } else { r };
        let e = self.push(node, r, s);
        self.map.insert(node, e);
        e
    }

    fn push_part(&mut self, flat: &mut Vec<E>, p: E) {
        if let Some(&l) = flat.last() {
            let (wl, wp) = (self.w(l), self.w(p));
            if wl + wp <= 128 {
                if let (Some(a), Some(b)) = (self.cval(l), self.cval(p)) {
                    let m = self.c(wl + wp, a | (b << wl));
                    *flat.last_mut().unwrap() = m;
                    return;
                }
            }
            // adjacent slices of the same base
            let (bl, lol) = self.slice_of(l);
            let (bp, lop) = self.slice_of(p);
            if bl == bp && lop == lol + wl {
                let m = self.extract(bl, lol, wl + wp);
                *flat.last_mut().unwrap() = m;
                return;
            }
            // same small support
            if wl + wp <= 64 && self.op(l) != Op::Const && self.op(p) != Op::Const && self.sup[l as usize] == self.sup[p as usize] && self.tabable(l) && self.tabable(p) {
                let s = self.sup[l as usize];
                let sup = self.sups[s as usize].clone();
                let a = self.column(l, &sup);
                let b = self.column(p, &sup);
                let t = a.iter().zip(b.iter()).map(|(x, y)| x | (y << wl)).collect();
                let m = self.from_table(wl + wp, s, t);
                *flat.last_mut().unwrap() = m;
                return;
            }
        }
        flat.push(p);
    }

    fn slice_of(&self, e: E) -> (E, u32) {
        if self.op(e) == Op::Extract {
            (self.kid(e, 0), self.n[e as usize].imm as u32)
        } else {
            (e, 0)
        }
    }

    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let ew = self.w(e);
        debug_assert!(lo + w <= ew, "extract {} {} of {}", lo, w, ew);
        if lo == 0 && w == ew {
            return e;
        }
        if ew <= 128 {
            if let Some(v) = self.cval(e) {
                return self.c(w, v >> lo);
            }
            if lo >= bitlen(self.hi(e)) {
                return self.c(w, 0);
            }
        }
        if let Some(t) = self.try_table(Op::Extract, w, &[e], lo as u64) {
            if lo == 0 {
                if let Some(d) = self.decs.get(&e).cloned() {
                    if self.hi(e) <= mask(w) {
                        self.decs.entry(t).or_insert(d);
                    }
                }
            }
            return t;
        }
        match self.op(e) {
            Op::Extract => {
                let b = self.kid(e, 0);
                let l = self.n[e as usize].imm as u32;
                return self.extract(b, l + lo, w);
            }
            Op::Concat => {
                let l = self.list(e);
                let mut out = vec![];
                let mut pos = 0;
                for &p in l.iter() {
                    let pw = self.w(p);
                    let a = lo.max(pos);
                    let b = (lo + w).min(pos + pw);
                    if a < b {
                        let x = self.extract(p, a - pos, b - a);
                        out.push(x);
                    }
                    pos += pw;
                }
                return self.concat(&out);
            }
            Op::Dec if lo == 0 && self.hi(e) <= mask(w) => {
                let d = self.as_dec(e).unwrap();
                return self.mk_dec(&d, w);
            }
            Op::SExt => {
                let b = self.kid(e, 0);
                let bw = self.w(b);
                if lo + w <= bw {
                    return self.extract(b, lo, w);
                }
                let from = lo.min(bw - 1);
                let x = self.extract(b, from, bw - from);
                return self.sext(x, w);
            }
            Op::Ite => {
                let (c, a, b) = (self.kid(e, 0), self.kid(e, 1), self.kid(e, 2));
                let push = |s: &Self, x: E| matches!(s.op(x), Op::Const | Op::Concat | Op::Tab | Op::Ite | Op::Extract);
                if push(self, a) && push(self, b) {
                    let x = self.extract(a, lo, w);
                    let y = self.extract(b, lo, w);
                    return self.ite(c, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let (a, b) = (self.kid(e, 0), self.kid(e, 1));
                let x = self.extract(a, lo, w);
                let y = self.extract(b, lo, w);
                return match self.op(e) {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Sub if lo == 0 => {
                // keep sign-magnitude numerals
                let (a, b) = (self.kid(e, 0), self.kid(e, 1));
                if self.cval(a).is_some() && self.as_dec(b).is_some() && self.hi(b) <= mask(w) {
                    let x = self.extract(a, 0, w);
                    let y = self.extract(b, 0, w);
                    return self.sub(x, y);
                }
            }
            _ => {}
        }
        self.mk(Op::Extract, w, &[e], lo as u64)
    }

    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        if let Some(d) = self.decs.get(&e).cloned() {
            return self.mk_dec(&d, w);
        }
        let z = self.c(w - ew, 0);
        self.concat(&[e, z])
    }
    pub fn trunc(&mut self, e: E, w: u32) -> E {
        self.extract(e, 0, w)
    }
    /// zero-extend or truncate
    pub fn resize(&mut self, e: E, w: u32) -> E {
        if self.w(e) <= w {
            self.zext(e, w)
        } else {
            self.extract(e, 0, w)
        }
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        if let Some(r) = self.fold(Op::SExt, w, &[e], 0) {
            return r;
        }
        if self.slo(e) >= 0 {
            return self.zext(e, w);
        }
        if self.op(e) == Op::SExt {
            let k = self.kid(e, 0);
            return self.mk(Op::SExt, w, &[k], 0);
        }
        if self.op(e) == Op::Sub {
            // 0 - dec, no overflow
            let (a, b) = (self.kid(e, 0), self.kid(e, 1));
            if let (Some(c), Some(d)) = (self.cval(a), self.as_dec(b)) {
                let c = sx(c, ew);
                if self.slo(b) >= 0 && c - self.shi(b) >= smin(ew) {
                    let x = self.c(w, c as u128);
                    let y = self.mk_dec(&d, w);
                    return self.sub(x, y);
                }
            }
        }
        self.mk(Op::SExt, w, &[e], 0)
    }

    /// merge two terms bitwise when at each bit at most one is possibly non-zero
    fn merge_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let pa = self.parts(a);
        let pb = self.parts(b);
        if pa.len() == 1 && pb.len() == 1 {
            return None;
        }
        let (mut i, mut j) = (0, 0);
        let (mut oi, mut oj) = (0u32, 0u32);
        let mut out = vec![];
        while i < pa.len() && j < pb.len() {
            let wa = self.w(pa[i]) - oi;
            let wb = self.w(pb[j]) - oj;
            let n = wa.min(wb);
            let x = self.extract(pa[i], oi, n);
            let y = self.extract(pb[j], oj, n);
            if self.cval(x) == Some(0) {
                out.push(y);
            } else if self.cval(y) == Some(0) {
                out.push(x);
            } else {
                return None;
            }
            oi += n;
            oj += n;
            if oi == self.w(pa[i]) {
                i += 1;
                oi = 0;
            }
            if oj == self.w(pb[j]) {
                j += 1;
                oj = 0;
            }
        }
        Some(self.concat(&out))
    }

    /// split a constant mask into runs (lsb first): (bit, len)
    fn runs(m: u128, w: u32) -> Vec<(bool, u32)> {
        let mut v = vec![];
        let mut i = 0;
        while i < w {
            let b = (m >> i) & 1 == 1;
            let mut j = i;
            while j < w && ((m >> j) & 1 == 1) == b {
                j += 1;
            }
            v.push((b, j - i));
            i = j;
        }
        v
    }

    // ------------------------------------------------------------ operations

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if self.cval(b) == Some(0) {
            return a;
        }
        if self.cval(a) == Some(0) {
            return b;
        }
        if self.has_dec() {
            if let Some(da) = self.as_dec(a) {
                if let Some(c) = self.cval(b) {
                    if c <= mask(w) / 2 {
                        let db = self.dec_of_const(c);
                        if let Some(r) = self.dec_merge(&da, &db, w) {
                            return r;
                        }
                    }
                } else if let Some(db) = self.as_dec(b) {
                    if let Some(r) = self.dec_merge(&da, &db, w) {
                        return r;
                    }
                }
            }
        }
        if self.has_dec() && w >= 32 && w <= 64 {
            // numeral plus a table of multiples of a higher power of ten
            for (x, y) in [(a, b), (b, a)] {
                if self.op(x) != Op::Dec || self.op(y) != Op::Tab || self.as_dec(y).is_some() {
                    continue;
                }
                let da = self.as_dec(x).unwrap();
                let t = self.tabs[self.n[y as usize].imm as usize].clone();
                let p = 10u64.checked_pow(da.len() as u32);
                if p.is_none_or(|p| t.iter().any(|v| v % p != 0)) {
                    continue;
                }
                let s = self.sup[y as usize];
                let mut db = vec![];
                let mut t: Vec<u64> = t.to_vec();
                while t.iter().any(|v| *v != 0) {
                    let d = self.from_table(8, s, t.iter().map(|v| v % 10).collect());
                    db.push(d);
                    for v in t.iter_mut() {
                        *v /= 10;
                    }
                }
                if let Some(r) = self.dec_merge(&da, &db, w) {
                    return r;
                }
            }
        }
        if let Some(r) = self.fold(Op::Add, w, &[a, b], 0) {
            return r;
        }
        if let Some(c2) = self.cval(b) {
            if self.op(a) == Op::Add {
                if let Some(c1) = self.cval(self.kid(a, 1)) {
                    let c = self.c(w, c1.wrapping_add(c2));
                    let x = self.kid(a, 0);
                    return self.add(x, c);
                }
            }
            if self.op(a) == Op::Sub {
                if let Some(c1) = self.cval(self.kid(a, 0)) {
                    let c = self.c(w, c1.wrapping_add(c2));
                    let x = self.kid(a, 1);
                    return self.sub(c, x);
                }
            }
        } else {
            // a + (0 - b)
            if self.op(b) == Op::Sub && self.cval(self.kid(b, 0)) == Some(0) {
                let y = self.kid(b, 1);
                return self.sub(a, y);
            }
            if self.op(a) == Op::Sub && self.cval(self.kid(a, 0)) == Some(0) {
                let y = self.kid(a, 1);
                return self.sub(b, y);
            }
            if self.op(a) == Op::Sub && self.kid(a, 1) == b {
                return self.kid(a, 0);
            }
            if self.op(b) == Op::Sub && self.kid(b, 1) == a {
                return self.kid(b, 0);
            }
        }
        if let Some(r) = self.merge_disjoint(a, b) {
            return r;
        }
        self.mk(Op::Add, w, &[a, b], 0)
    }

    pub fn neg(&mut self, a: E) -> E {
        let z = self.c(self.w(a), 0);
        self.sub(z, a)
    }

    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(w, 0);
        }
        if self.cval(b) == Some(0) {
            return a;
        }
        if self.has_dec() {
            if let (Some(da), Some(db)) = (self.as_dec(a), self.as_dec(b)) {
                // remove equal digits
                let n = da.len().max(db.len());
                let z = self.c(8, 0);
                let mut v = vec![];
                let mut ok = true;
                for i in 0..n {
                    let x = da.get(i).copied().unwrap_or(z);
                    let y = db.get(i).copied().unwrap_or(z);
                    if x == y {
                        v.push(z)
                    } else if y == z {
                        v.push(x)
                    } else {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    return self.mk_dec(&v, w);
                }
            }
        }
        if let Some(r) = self.fold(Op::Sub, w, &[a, b], 0) {
            return r;
        }
        if let Some(c) = self.cval(b) {
            let nc = self.c(w, (!c).wrapping_add(1));
            return self.add(a, nc);
        }
        if w > 1 && w <= 128 && self.cval(a) == Some(0) && self.hi(b) == 1 {
            // all bits or none
            let x = self.extract(b, 0, 1);
            return self.sext(x, w);
        }
        if let Some(c1) = self.cval(a) {
            if self.op(b) == Op::Sub {
                if let Some(c2) = self.cval(self.kid(b, 0)) {
                    let c = self.c(w, c1.wrapping_sub(c2));
                    let x = self.kid(b, 1);
                    return self.add(x, c);
                }
                if c1 == 0 {
                    let (x, y) = (self.kid(b, 0), self.kid(b, 1));
                    return self.sub(y, x);
                }
            }
            if self.op(b) == Op::Add {
                if let Some(c2) = self.cval(self.kid(b, 1)) {
                    let c = self.c(w, c1.wrapping_sub(c2));
                    let x = self.kid(b, 0);
                    return self.sub(c, x);
                }
            }
        }
        if self.op(a) == Op::Add {
            if self.kid(a, 1) == b {
                return self.kid(a, 0);
            }
            if self.kid(a, 0) == b {
                return self.kid(a, 1);
            }
        }
        if self.op(a) == Op::Sub && self.cval(self.kid(a, 0)) == Some(0) {
            let x = self.kid(a, 1);
            let s = self.add(x, b);
            return self.neg(s);
        }
        self.mk(Op::Sub, w, &[a, b], 0)
    }

    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(c) = self.cval(b) {
            if c == 0 {
                return b;
            }
            if c == 1 {
                return a;
            }
            if self.has_dec() {
                if let (Some(d), Some(k)) = (self.as_dec(a), pow10(c)) {
                    if let Some(h) = self.hi(a).checked_mul(c) {
                        if h <= mask(w) {
                            let z = self.c(8, 0);
                            let mut v = vec![z; k as usize];
                            v.extend(d.iter());
                            return self.mk_dec(&v, w);
                        }
                    }
                }
            }
        }
        if let Some(r) = self.fold(Op::Mul, w, &[a, b], 0) {
            return r;
        }
        if let Some(c) = self.cval(b) {
            if c.is_power_of_two() {
                let s = self.c(w, c.trailing_zeros() as u128);
                return self.shl(a, s);
            }
            if self.op(a) == Op::Sub && self.cval(self.kid(a, 0)) == Some(0) {
                let x = self.kid(a, 1);
                let y = self.mul(x, b);
                return self.neg(y);
            }
            if self.op(a) == Op::Mul {
                if let Some(c1) = self.cval(self.kid(a, 1)) {
                    let c = self.c(w, c1.wrapping_mul(c));
                    let x = self.kid(a, 0);
                    return self.mul(x, c);
                }
            }
        }
        self.mk(Op::Mul, w, &[a, b], 0)
    }

    /// if e == x*c + y with 0<=y<c and no wrap-around, return (x, y)
    fn div_parts(&mut self, e: E, c: u128) -> Option<(E, E)> {
        let w = self.w(e);
        let lim = mask(w);
        let is_mul = |s: &Self, m: E| -> Option<E> {
            if s.op(m) == Op::Mul && s.cval(s.kid(m, 1)) == Some(c) {
                let x = s.kid(m, 0);
                if s.hi(x).checked_mul(c).map(|h| h <= lim) == Some(true) {
                    return Some(x);
                }
            }
            None
        };
        if let Some(x) = is_mul(self, e) {
            let z = self.c(w, 0);
            return Some((x, z));
        }
        if self.op(e) == Op::Add {
            let (p, q) = (self.kid(e, 0), self.kid(e, 1));
            for (m, y) in [(p, q), (q, p)] {
                if let Some(x) = is_mul(self, m) {
                    if self.hi(y) < c && self.hi(x) * c + (c - 1) <= lim {
                        return Some((x, y));
                    }
                }
            }
        }
        None
    }

    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cval(b) {
            if c == 1 {
                return a;
            }
            if self.has_dec() {
                if let (Some(d), Some(k)) = (self.as_dec(a), pow10(c)) {
                    if (k as usize) >= d.len() {
                        return self.c(w, 0);
                    }
                    return self.mk_dec(&d[k as usize..], w);
                }
            }
        }
        if let Some(r) = self.fold(Op::UDiv, w, &[a, b], 0) {
            return r;
        }
        if self.hi(a) < self.lo(b) {
            return self.c(w, 0);
        }
        if let Some(c) = self.cval(b) {
            if c.is_power_of_two() {
                let s = self.c(w, c.trailing_zeros() as u128);
                return self.lshr(a, s);
            }
            if c != 0 {
                if let Some((x, _)) = self.div_parts(a, c) {
                    return x;
                }
                if self.slo(a) >= 0 && self.slo(b) > 0 {
                    if let Some((q, _)) = self.lin_div(a, c as i128) {
                        return q;
                    }
                }
                // (x / c1) / c = x / (c1*c)
                if self.op(a) == Op::UDiv {
                    if let Some(c1) = self.cval(self.kid(a, 1)) {
                        if let Some(cc) = c1.checked_mul(c) {
                            if cc <= mask(w) {
                                let x = self.kid(a, 0);
                                let k = self.c(w, cc);
                                return self.udiv(x, k);
                            }
                        }
                    }
                }
            }
        }
        self.mk(Op::UDiv, w, &[a, b], 0)
    }

    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cval(b) {
            if self.has_dec() {
                if let (Some(d), Some(k)) = (self.as_dec(a), pow10(c)) {
                    if k == 0 {
                        return self.c(w, 0);
                    }
                    let n = (k as usize).min(d.len());
                    return self.mk_dec(&d[..n], w);
                }
            }
        }
        if let Some(r) = self.fold(Op::URem, w, &[a, b], 0) {
            return r;
        }
        if self.hi(a) < self.lo(b) {
            return a;
        }
        if let Some(c) = self.cval(b) {
            if c.is_power_of_two() {
                let m = self.c(w, c - 1);
                return self.and(a, m);
            }
            if c != 0 {
                if let Some((_, y)) = self.div_parts(a, c) {
                    return y;
                }
                if self.slo(a) >= 0 && self.slo(b) > 0 {
                    if let Some((_, y)) = self.lin_div(a, c as i128) {
                        return y;
                    }
                }
            }
        }
        self.mk(Op::URem, w, &[a, b], 0)
    }

    // ------------------------------------------------------------ linear forms

    /// signed value of e as an exact sum of coefficient * (signed value of atom) + constant
    pub fn lin(&mut self, e: E) -> Rc<Lin> {
        if let Some(l) = self.linmemo.get(&e) {
            return l.clone();
        }
        let n = self.n[e as usize];
        let w = n.w as u32;
        let mut r: Option<Lin> = None;
        if w <= 64 {
            match n.op {
                Op::Const => r = Some(Lin { t: vec![], c: self.slo(e) }),
                Op::Add | Op::Sub => {
                    let (a, b) = (self.lin(n.k[0]), self.lin(n.k[1]));
                    r = a.combine(&b, if n.op == Op::Add { 1 } else { -1 });
                }
                Op::Mul => {
                    if self.cval(n.k[1]).is_some() {
                        let a = self.lin(n.k[0]);
                        let z = Lin { t: vec![], c: 0 };
                        r = z.combine(&a, self.slo(n.k[1]));
                    }
                }
                Op::SExt => r = Some((*self.lin(n.k[0])).clone()),
                Op::Extract if n.imm == 0 => r = Some((*self.lin(n.k[0])).clone()),
                Op::Concat => {
                    let l = self.lists[n.imm as usize].clone();
                    if l.len() == 2 && self.cval(l[1]) == Some(0) && self.slo(l[0]) >= 0 {
                        r = Some((*self.lin(l[0])).clone());
                    }
                }
                Op::Tab => {
                    // affine in each of its variables?
                    let sup = self.sups[n.k[0] as usize].clone();
                    let t = self.tabs[n.imm as usize].clone();
                    let sv = |i: usize| sx(t[i] as u128, w);
                    let mut l = Lin { t: vec![], c: sv(0) };
                    let mut ok = true;
                    let mut st = 1;
                    let mut dims = vec![];
                    for v in sup.iter() {
                        let v = &self.vars[*v as usize];
                        let d = (v.hi - v.lo + 1) as usize;
                        if v.w > 64 || v.hi >= 1u128 << (v.w - 1) || d < 2 {
                            ok = false;
                            break;
                        }
                        let k = sv(st) - sv(0);
                        dims.push((d, k));
                        l.c -= k * v.lo as i128;
                        if k != 0 {
                            l.t.push((v.node, k));
                        }
                        st *= d;
                    }
                    if ok {
                        for i in 0..t.len() {
                            let (mut x, mut y) = (i, sv(0));
                            for &(d, k) in &dims {
                                y += (x % d) as i128 * k;
                                x /= d;
                            }
                            if y != sv(i) {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        l.t.sort();
                        r = Some(l);
                    }
                }
                _ => {}
            }
            // exact only if the sum cannot leave the signed range
            if let Some(l) = &r {
                let (lo, hi) = self.lin_range(l);
                if l.t.len() > 16 || lo < smin(w) || hi > smax(w) {
                    r = None;
                }
            }
        }
        let l = Rc::new(r.unwrap_or(Lin { t: vec![(e, 1)], c: 0 }));
        self.linmemo.insert(e, l.clone());
        l
    }
    pub fn lin_range(&self, l: &Lin) -> (i128, i128) {
        let (mut lo, mut hi) = (l.c, l.c);
        for &(x, k) in &l.t {
            let (a, b) = (self.slo(x).saturating_mul(k), self.shi(x).saturating_mul(k));
            lo = lo.saturating_add(a.min(b));
            hi = hi.saturating_add(a.max(b));
        }
        (lo, hi)
    }
    fn lin_build(&mut self, w: u32, l: &Lin) -> E {
        let mut r = None;
        for &(x, k) in &l.t {
            let x = if self.w(x) < w { self.sext(x, w) } else { self.trunc(x, w) };
            let kc = self.c(w, (k as u128) & mask(w));
            let m = self.mul(x, kc);
            r = Some(match r {
                None => m,
                Some(r) => self.add(r, m),
            });
        }
        let c = self.c(w, (l.c as u128) & mask(w));
        match r {
            None => c,
            Some(r) => self.add(r, c),
        }
    }
    /// e = q*d + y with 0 <= y < d (floor division), when the form of e shows it
    fn lin_div(&mut self, e: E, d: i128) -> Option<(E, E)> {
        let w = self.w(e);
        if w > 64 || d <= 1 || !matches!(self.op(e), Op::Add | Op::Sub | Op::Mul | Op::SExt | Op::Extract | Op::Concat) {
            return None;
        }
        let l = self.lin(e);
        if l.t.len() == 1 && l.t[0].0 == e {
            return None;
        }
        let mut q = Lin { t: vec![], c: l.c.div_euclid(d) };
        let mut y = Lin { t: vec![], c: l.c.rem_euclid(d) };
        for &(x, k) in &l.t {
            if k % d == 0 {
                q.t.push((x, k / d));
            } else {
                y.t.push((x, k));
            }
        }
        if q.t.is_empty() && y.t.len() == l.t.len() && l.c == y.c {
            // nothing gained unless the range already decides
            return None;
        }
        let (lo, hi) = self.lin_range(&y);
        let s = lo.div_euclid(d);
        if s != hi.div_euclid(d) {
            return None;
        }
        y.c -= s * d;
        q.c += s;
        let q = self.lin_build(w, &q);
        let y = self.lin_build(w, &y);
        Some((q, y))
    }
    /// truncating signed quotient and remainder
    fn lin_sdiv(&mut self, a: E, b: E) -> Option<(E, E)> {
        let w = self.w(a);
        self.cval(b)?;
        let d = self.slo(b);
        let (lo, hi) = {
            let l = if w <= 64 { self.lin(a) } else { return None };
            let (x, y) = self.lin_range(&l);
            (x.max(self.slo(a)), y.min(self.shi(a)))
        };
        let (q, y) = self.lin_div(a, d)?;
        if lo >= 0 {
            return Some((q, y));
        }
        if hi < 0 {
            let z = self.c(w, 0);
            let one = self.c(w, 1);
            let dd = self.c(w, d as u128);
            let exact = self.eq(y, z);
            let q1 = self.add(q, one);
            let y1 = self.sub(y, dd);
            let qq = self.ite(exact, q, q1);
            let yy = self.ite(exact, z, y1);
            return Some((qq, yy));
        }
        None
    }

    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::SDiv, w, &[a, b], 0) {
            return r;
        }
        if let Some((q, _)) = self.lin_sdiv(a, b) {
            return q;
        }
        if self.slo(a) >= 0 && self.slo(b) >= 0 {
            return self.udiv(a, b);
        }
        if self.op(a) == Op::Sub && self.cval(self.kid(a, 0)) == Some(0) {
            let x = self.kid(a, 1);
            if self.slo(x) >= 0 && self.slo(b) > 0 {
                let q = self.udiv(x, b);
                return self.neg(q);
            }
        }
        self.mk(Op::SDiv, w, &[a, b], 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::SRem, w, &[a, b], 0) {
            return r;
        }
        if let Some((_, y)) = self.lin_sdiv(a, b) {
            return y;
        }
        if self.slo(a) >= 0 && self.slo(b) >= 0 {
            return self.urem(a, b);
        }
        if self.op(a) == Op::Sub && self.cval(self.kid(a, 0)) == Some(0) {
            let x = self.kid(a, 1);
            if self.slo(x) >= 0 && self.slo(b) > 0 {
                let q = self.urem(x, b);
                return self.neg(q);
            }
        }
        self.mk(Op::SRem, w, &[a, b], 0)
    }

    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.c(w, 0);
            }
            let s = s as u32;
            if let Some(r) = self.fold(Op::Shl, w, &[a, b], 0) {
                return r;
            }
            let z = self.c(s, 0);
            let l = self.extract(a, 0, w - s);
            return self.concat(&[z, l]);
        }
        if let Some(r) = self.fold(Op::Shl, w, &[a, b], 0) {
            return r;
        }
        self.mk(Op::Shl, w, &[a, b], 0)
    }
    /// (x * m) >> s where m is a rounded-up 2^s / d and x small enough: x / d
    fn reciprocal(&mut self, a: E, s: u32) -> Option<E> {
        let w = self.w(a);
        if self.op(a) != Op::Mul || w > 64 {
            return None;
        }
        let (mut x, mut m) = (self.kid(a, 0), self.kid(a, 1));
        if self.cval(x).is_some() {
            std::mem::swap(&mut x, &mut m);
        }
        let m = self.cval(m)?;
        if m < 2 || m.is_power_of_two() || m >> s != 0 {
            return None;
        }
        let (p, hi) = (1u128 << s, self.hi(x));
        let d = p.div_ceil(m);
        // hi, m < 2^64 and d < 2^63, so nothing wraps
        if d < 2 || hi * m > mask(w) || (d * m - p).checked_mul(hi)? >= p {
            return None;
        }
        let k = self.c(w, d);
        Some(self.udiv(x, k))
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.c(w, 0);
            }
            let s = s as u32;
            if let Some(r) = self.fold(Op::LShr, w, &[a, b], 0) {
                return r;
            }
            if let Some(q) = self.reciprocal(a, s) {
                return q;
            }
            let h = self.extract(a, s, w - s);
            return self.zext(h, w);
        }
        if let Some(r) = self.fold(Op::LShr, w, &[a, b], 0) {
            return r;
        }
        self.mk(Op::LShr, w, &[a, b], 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cval(b) {
            if s == 0 {
                return a;
            }
            if self.slo(a) >= 0 {
                return self.lshr(a, b);
            }
            if let Some(r) = self.fold(Op::AShr, w, &[a, b], 0) {
                return r;
            }
            let s = (s.min(w as u128 - 1)) as u32;
            let h = self.extract(a, s, w - s);
            return self.sext(h, w);
        }
        if let Some(r) = self.fold(Op::AShr, w, &[a, b], 0) {
            return r;
        }
        self.mk(Op::AShr, w, &[a, b], 0)
    }

    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(m) = self.cval(b) {
            if m == 0 {
                return b;
            }
            if m == mask(w) || w <= 128 && (mask(bitlen(self.hi(a))) & !m) == 0 {
                return a;
            }
        }
        if let Some(r) = self.fold(Op::And, w, &[a, b], 0) {
            return r;
        }
        if let Some(m) = self.cval(b) {
            let rs = Self::runs(m, w);
            let mut out = vec![];
            let mut pos = 0;
            for (bit, n) in rs {
                if bit {
                    let x = self.extract(a, pos, n);
                    out.push(x);
                } else {
                    let z = self.c(n, 0);
                    out.push(z);
                }
                pos += n;
            }
            return self.concat(&out);
        }
        if w == 1 {
            if self.is_not(a, b) {
                return self.c(1, 0);
            }
        } else if let Some(r) = self.bitwise_parts(Op::And, a, b) {
            return r;
        }
        self.mk(Op::And, w, &[a, b], 0)
    }

    fn is_not(&self, a: E, b: E) -> bool {
        (self.op(a) == Op::Xor && self.kid(a, 0) == b && self.cval(self.kid(a, 1)) == Some(1))
            || (self.op(b) == Op::Xor && self.kid(b, 0) == a && self.cval(self.kid(b, 1)) == Some(1))
    }

    /// both are concats with the same boundaries: apply piecewise
    fn bitwise_parts(&mut self, op: Op, a: E, b: E) -> Option<E> {
        if self.op(a) != Op::Concat && self.op(b) != Op::Concat {
            return None;
        }
        let pa = self.parts(a);
        let pb = self.parts(b);
        if pa.len() + pb.len() > 40 {
            return None;
        }
        let (mut i, mut j) = (0, 0);
        let (mut oi, mut oj) = (0u32, 0u32);
        let mut out = vec![];
        while i < pa.len() && j < pb.len() {
            let n = (self.w(pa[i]) - oi).min(self.w(pb[j]) - oj);
            let x = self.extract(pa[i], oi, n);
            let y = self.extract(pb[j], oj, n);
            let r = match op {
                Op::And => self.and(x, y),
                Op::Or => self.or(x, y),
                _ => self.xor(x, y),
            };
            out.push(r);
            oi += n;
            oj += n;
            if oi == self.w(pa[i]) {
                i += 1;
                oi = 0;
            }
            if oj == self.w(pb[j]) {
                j += 1;
                oj = 0;
            }
        }
        if out.len() == 1 {
            return None;
        }
        Some(self.concat(&out))
    }

    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(m) = self.cval(b) {
            if m == 0 {
                return a;
            }
            if m == mask(w) {
                return b;
            }
        }
        if let Some(r) = self.fold(Op::Or, w, &[a, b], 0) {
            return r;
        }
        if let Some(m) = self.cval(b) {
            let rs = Self::runs(m, w);
            let mut out = vec![];
            let mut pos = 0;
            for (bit, n) in rs {
                if bit {
                    let z = self.c(n, mask(n));
                    out.push(z);
                } else {
                    let x = self.extract(a, pos, n);
                    out.push(x);
                }
                pos += n;
            }
            return self.concat(&out);
        }
        if w == 1 {
            if self.is_not(a, b) {
                return self.c(1, 1);
            }
        } else {
            if let Some(r) = self.merge_disjoint(a, b) {
                return r;
            }
            if let Some(r) = self.bitwise_parts(Op::Or, a, b) {
                return r;
            }
        }
        self.mk(Op::Or, w, &[a, b], 0)
    }

    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(w, 0);
        }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if self.cval(b) == Some(0) {
            return a;
        }
        for (x, y) in [(a, b), (b, a)] {
            if self.op(x) == Op::Xor {
                if self.kid(x, 0) == y {
                    return self.kid(x, 1);
                }
                if self.kid(x, 1) == y {
                    return self.kid(x, 0);
                }
            }
        }
        if let Some(r) = self.fold(Op::Xor, w, &[a, b], 0) {
            return r;
        }
        if let Some(m) = self.cval(b) {
            if self.op(a) == Op::Xor {
                if let Some(c) = self.cval(self.kid(a, 1)) {
                    let k = self.c(w, c ^ m);
                    let x = self.kid(a, 0);
                    return self.xor(x, k);
                }
            }
            if w > 1 && (self.op(a) == Op::Concat || m != mask(w)) {
                let rs = Self::runs(m, w);
                if rs.len() > 1 || self.op(a) == Op::Concat {
                    if let Some(r) = self.bitwise_parts_runs(a, &rs) {
                        return r;
                    }
                }
            }
        } else if w > 1 {
            if let Some(r) = self.bitwise_parts(Op::Xor, a, b) {
                return r;
            }
        }
        self.mk(Op::Xor, w, &[a, b], 0)
    }
    fn bitwise_parts_runs(&mut self, a: E, rs: &[(bool, u32)]) -> Option<E> {
        let pa = self.parts(a);
        if pa.len() == 1 && rs.len() == 1 {
            return None;
        }
        let mut out = vec![];
        let (mut i, mut oi) = (0usize, 0u32);
        for &(bit, n) in rs {
            let mut left = n;
            while left > 0 {
                let m = (self.w(pa[i]) - oi).min(left);
                let x = self.extract(pa[i], oi, m);
                if bit {
                    let ones = self.c(m, mask(m));
                    let y = if let Some(v) = self.cval(x) {
                        self.c(m, !v)
                    } else if let Some(r) = self.try_table(Op::Xor, m, &[x, ones], 0) {
                        r
                    } else {
                        self.mk(Op::Xor, m, &[x, ones], 0)
                    };
                    out.push(y);
                } else {
                    out.push(x);
                }
                oi += m;
                left -= m;
                if oi == self.w(pa[i]) {
                    i += 1;
                    oi = 0;
                }
            }
        }
        Some(self.concat(&out))
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let o = self.c(w, mask(w));
        self.xor(a, o)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.c(1, 1);
        }
        let (a, b) = if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if w <= 128 && (self.hi(a) < self.lo(b) || self.hi(b) < self.lo(a) || self.shi(a) < self.slo(b) || self.shi(b) < self.slo(a)) {
            return self.c(1, 0);
        }
        if let Some(r) = self.fold(Op::Eq, 1, &[a, b], 0) {
            return r;
        }
        if w == 1 {
            if let Some(c) = self.cval(b) {
                return if c == 1 { a } else { self.not(a) };
            }
        }
        if w <= 64 && w >= 16 && self.cval(b).is_none() && (matches!(self.op(a), Op::Add | Op::Sub) || matches!(self.op(b), Op::Add | Op::Sub)) {
            let (la, lb) = (self.lin(a), self.lin(b));
            if let Some(d) = la.combine(&lb, -1) {
                let (lo, hi) = self.lin_range(&d);
                if lo > 0 || hi < 0 {
                    return self.c(1, 0);
                }
                if lo == 0 && hi == 0 {
                    return self.c(1, 1);
                }
            }
        }
        if let Some(c2) = self.cval(b) {
            match self.op(a) {
                Op::Add => {
                    if let Some(c1) = self.cval(self.kid(a, 1)) {
                        let c = self.c(w, c2.wrapping_sub(c1));
                        let x = self.kid(a, 0);
                        return self.eq(x, c);
                    }
                }
                Op::Sub => {
                    if let Some(c1) = self.cval(self.kid(a, 0)) {
                        let c = self.c(w, c1.wrapping_sub(c2));
                        let x = self.kid(a, 1);
                        return self.eq(x, c);
                    }
                    if c2 == 0 {
                        let (x, y) = (self.kid(a, 0), self.kid(a, 1));
                        return self.eq(x, y);
                    }
                }
                Op::Xor => {
                    if let Some(c1) = self.cval(self.kid(a, 1)) {
                        let c = self.c(w, c1 ^ c2);
                        let x = self.kid(a, 0);
                        return self.eq(x, c);
                    }
                    if c2 == 0 {
                        let (x, y) = (self.kid(a, 0), self.kid(a, 1));
                        return self.eq(x, y);
                    }
                }
                Op::Ite => {
                    let (c, x, y) = (self.kid(a, 0), self.kid(a, 1), self.kid(a, 2));
                    if self.cval(x).is_some() || self.cval(y).is_some() {
                        let p = self.eq(x, b);
                        let q = self.eq(y, b);
                        return self.ite(c, p, q);
                    }
                }
                Op::SExt => {
                    let x = self.kid(a, 0);
                    let xw = self.w(x);
                    let c = self.c(xw, c2);
                    // c2 is in range of x's signed range (checked above by slo/shi)
                    return self.eq(x, c);
                }
                Op::Dec => {
                    let d = self.as_dec(a).unwrap();
                    let mut c = c2;
                    let mut r = self.c(1, 1);
                    for &x in d.iter() {
                        let k = self.c(8, c % 10);
                        c /= 10;
                        let q = self.eq(x, k);
                        r = self.and(r, q);
                    }
                    if c != 0 {
                        return self.c(1, 0);
                    }
                    return r;
                }
                _ => {}
            }
        }
        if self.op(a) == Op::Sub && self.op(b) == Op::Sub && self.kid(a, 0) == self.kid(b, 0) {
            let (x, y) = (self.kid(a, 1), self.kid(b, 1));
            return self.eq(x, y);
        }
        if self.op(a) == Op::Add && self.op(b) == Op::Add {
            for i in 0..2 {
                for j in 0..2 {
                    if self.kid(a, i) == self.kid(b, j) {
                        let (x, y) = (self.kid(a, 1 - i), self.kid(b, 1 - j));
                        return self.eq(x, y);
                    }
                }
            }
        }
        if self.op(a) == Op::SExt && self.op(b) == Op::SExt && self.w(self.kid(a, 0)) == self.w(self.kid(b, 0)) {
            let (x, y) = (self.kid(a, 0), self.kid(b, 0));
            return self.eq(x, y);
        }
        if self.has_dec() {
            if let (Some(da), Some(db)) = (self.as_dec(a), self.as_dec(b)) {
                let n = da.len().max(db.len());
                let z = self.c(8, 0);
                let mut r = self.c(1, 1);
                for i in 0..n {
                    let x = da.get(i).copied().unwrap_or(z);
                    let y = db.get(i).copied().unwrap_or(z);
                    let q = self.eq(x, y);
                    r = self.and(r, q);
                }
                return r;
            }
        }
        if self.op(a) == Op::Concat || self.op(b) == Op::Concat {
            let pa = self.parts(a);
            let pb = self.parts(b);
            if pa.len() + pb.len() <= 64 {
                let (mut i, mut j) = (0, 0);
                let (mut oi, mut oj) = (0u32, 0u32);
                let mut r = self.c(1, 1);
                while i < pa.len() && j < pb.len() {
                    let n = (self.w(pa[i]) - oi).min(self.w(pb[j]) - oj);
                    let x = self.extract(pa[i], oi, n);
                    let y = self.extract(pb[j], oj, n);
                    let q = if n == w { self.mk(Op::Eq, 1, &[x, y], 0) } else { self.eq(x, y) };
                    r = self.and(r, q);
                    if self.cval(r) == Some(0) {
                        return r;
                    }
                    oi += n;
                    oj += n;
                    if oi == self.w(pa[i]) {
                        i += 1;
                        oi = 0;
                    }
                    if oj == self.w(pb[j]) {
                        j += 1;
                        oj = 0;
                    }
                }
                return r;
            }
        }
        self.mk(Op::Eq, 1, &[a, b], 0)
    }
    pub fn raw_eq(&mut self, a: E, b: E) -> E {
        self.mk(Op::Eq, 1, &[a, b], 0)
    }
    pub fn raw_not(&mut self, a: E) -> E {
        let o = self.c(1, 1);
        self.mk(Op::Xor, 1, &[a, o], 0)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(1, 0);
        }
        if self.hi(a) < self.lo(b) {
            return self.c(1, 1);
        }
        if self.lo(a) >= self.hi(b) {
            return self.c(1, 0);
        }
        if let Some(r) = self.fold(Op::Ult, 1, &[a, b], 0) {
            return r;
        }
        if self.cval(b) == Some(1) {
            let z = self.c(w, 0);
            return self.eq(a, z);
        }
        if self.cval(a) == Some(0) {
            return self.ne(b, a);
        }
        if self.op(a) == Op::Dec && (self.op(b) == Op::Dec || self.cval(b).is_some()) || self.op(b) == Op::Dec && self.cval(a).is_some() {
            // numerals compare digit by digit; equal digits do not matter
            let (da, db) = (self.dec_digits(a), self.dec_digits(b));
            let z = self.c(8, 0);
            let n = da.len().max(db.len());
            let (mut va, mut vb) = (vec![], vec![]);
            for i in 0..n {
                let (x, y) = (da.get(i).copied().unwrap_or(z), db.get(i).copied().unwrap_or(z));
                if x != y {
                    va.push(x);
                    vb.push(y);
                }
            }
            if va.len() < n {
                if va.is_empty() {
                    return self.c(1, 0);
                }
                let ww = if va.len() < 19 { 64 } else { 128 };
                let x = self.mk_dec(&va, ww);
                let y = self.mk_dec(&vb, ww);
                return self.ult(x, y);
            }
        }
        let n = bitlen(self.hi(a)).max(bitlen(self.hi(b)));
        if n < w && n > 0 {
            let x = self.extract(a, 0, n);
            let y = self.extract(b, 0, n);
            return self.ult(x, y);
        }
        if let Some(k) = self.cval(b) {
            // high-bits test: a < 2^j
            if k.is_power_of_two() {
                let j = k.trailing_zeros();
                let h = self.extract(a, j, w - j);
                let z = self.c(w - j, 0);
                return self.eq(h, z);
            }
        }
        self.mk(Op::Ult, 1, &[a, b], 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let r = self.ult(b, a);
        self.not(r)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(1, 0);
        }
        if self.shi(a) < self.slo(b) {
            return self.c(1, 1);
        }
        if self.slo(a) >= self.shi(b) {
            return self.c(1, 0);
        }
        if let Some(r) = self.fold(Op::Slt, 1, &[a, b], 0) {
            return r;
        }
        if self.slo(a) >= 0 && self.slo(b) >= 0 {
            return self.ult(a, b);
        }
        if self.shi(a) < 0 && self.shi(b) < 0 {
            return self.ult(a, b);
        }
        if self.cval(b) == Some(0) && w <= 128 {
            let t = self.extract(a, w - 1, 1);
            return t;
        }
        // strip equal sign extensions
        if self.op(a) == Op::SExt {
            let x = self.kid(a, 0);
            let xw = self.w(x);
            if self.slo(b) >= smin(xw) && self.shi(b) <= smax(xw) {
                let y = self.extract(b, 0, xw);
                return self.slt(x, y);
            }
        } else if self.op(b) == Op::SExt {
            let x = self.kid(b, 0);
            let xw = self.w(x);
            if self.slo(a) >= smin(xw) && self.shi(a) <= smax(xw) {
                let y = self.extract(a, 0, xw);
                return self.slt(y, x);
            }
        }
        self.mk(Op::Slt, 1, &[a, b], 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let r = self.slt(b, a);
        self.not(r)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cval(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let Some(r) = self.fold(Op::Ite, w, &[c, a, b], 0) {
            return r;
        }
        if self.op(c) == Op::Xor && self.cval(self.kid(c, 1)) == Some(1) {
            let nc = self.kid(c, 0);
            return self.ite(nc, b, a);
        }
        if self.op(a) == Op::Ite && self.kid(a, 0) == c {
            let x = self.kid(a, 1);
            return self.ite(c, x, b);
        }
        if self.op(b) == Op::Ite && self.kid(b, 0) == c {
            let x = self.kid(b, 2);
            return self.ite(c, a, x);
        }
        self.mk(Op::Ite, w, &[c, a, b], 0)
    }

    /// lookup table[idx]; idx must be < table length on the current path
    pub fn look(&mut self, table: Vec<u64>, w: u32, idx: E) -> E {
        if let Some(i) = self.cval(idx) {
            return self.c(w, table[i as usize] as u128);
        }
        if table.iter().all(|x| *x == table[0]) {
            return self.c(w, table[0] as u128);
        }
        if self.tabable(idx) {
            let s = self.sup[idx as usize];
            let sup = self.sups[s as usize].clone();
            let col = self.column(idx, &sup);
            let t = col.iter().map(|i| table.get(*i as usize).copied().unwrap_or(0)).collect();
            return self.from_table(w, s, t);
        }
        let rc: Rc<[u64]> = Rc::from(table);
        let id = match self.bigmap.get(&rc) {
            Some(&i) => i,
            None => {
                let i = self.big.len() as u32;
                self.big.push(rc.clone());
                self.bigmap.insert(rc, i);
                i
            }
        };
        self.mk(Op::Look, w, &[idx], id as u64)
    }

    pub fn fop(&mut self, op: Op, w: u32, kids: &[E], imm: u64) -> E {
        if let Some(r) = self.fold(op, w, kids, imm) {
            return r;
        }
        match op {
            Op::FToS => {
                let k = kids[0];
                if self.op(k) == Op::SToF {
                    let x = self.kid(k, 0);
                    if self.slo(x) > -(1 << 53) && self.shi(x) < (1 << 53) && self.w(k) == 64 {
                        if self.slo(x) >= smin(w) && self.shi(x) <= smax(w) {
                            return if self.w(x) >= w { self.extract(x, 0, w) } else { self.sext(x, w) };
                        }
                    }
                }
            }
            Op::FRound => {
                let k = kids[0];
                if matches!(self.op(k), Op::SToF | Op::UToF | Op::FRound) {
                    return k;
                }
            }
            _ => {}
        }
        self.mk(op, w, kids, imm)
    }

    // ------------------------------------------------------------ evaluation

    pub fn new_gen(&mut self) {
        self.gen += 1;
        if self.memo.len() < self.n.len() {
            let l = self.n.len() + 1024;
            self.memo.resize(l, 0);
            self.memo_gen.resize(l, 0);
        }
    }

    /// evaluate under a model (values by variable id); call new_gen() when the model changes
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        if self.memo.len() < self.n.len() {
            let l = self.n.len() + 1024;
            self.memo.resize(l, 0);
            self.memo_gen.resize(l, 0);
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u128]) -> u128 {
        let i = e as usize;
        let n = self.n[i];
        match n.op {
            Op::Const => return self.r[i].lo,
            Op::Var => return model[n.imm as usize],
            _ => {}
        }
        if self.memo_gen[i] == self.gen {
            return self.memo[i];
        }
        let v = match n.op {
            Op::Tab => {
                let sup = self.sups[n.k[0] as usize].clone();
                let mut idx = 0usize;
                let mut st = 1usize;
                for v in sup.iter() {
                    let vi = &self.vars[*v as usize];
                    idx += (model[*v as usize].wrapping_sub(vi.lo) as usize) * st;
                    st *= (vi.hi - vi.lo + 1) as usize;
                }
                self.tabs[n.imm as usize][idx] as u128
            }
            Op::Dec => {
                let l = self.lists[n.imm as usize].clone();
                let mut p = 1u128;
                let mut s = 0u128;
                for &d in l.iter() {
                    s = s.wrapping_add(p.wrapping_mul(self.ev(d, model)));
                    p = p.wrapping_mul(10);
                }
                s & mask(n.w as u32)
            }
            Op::Concat => {
                let l = self.lists[n.imm as usize].clone();
                let mut s = 0u128;
                let mut sh = 0;
                for &d in l.iter() {
                    let x = self.ev(d, model);
                    if sh < 128 {
                        s |= x << sh;
                    }
                    sh += self.w(d);
                }
                s
            }
            Op::Look => {
                let x = self.ev(n.k[0], model);
                self.big[n.imm as usize].get(x as usize).copied().unwrap_or(0) as u128
            }
            Op::Ite => {
                if self.ev(n.k[0], model) != 0 {
                    self.ev(n.k[1], model)
                } else {
                    self.ev(n.k[2], model)
                }
            }
            _ => {
                let mut v = [0u128; 3];
                let mut kw = [0u32; 3];
                for j in 0..3 {
                    if n.k[j] != 0 {
                        v[j] = self.ev(n.k[j], model);
                        kw[j] = self.w(n.k[j]);
                    }
                }
                eval_op(n.op, n.w as u32, n.imm, kw, v)
            }
        };
        self.memo[i] = v;
        self.memo_gen[i] = self.gen;
        v
    }

    pub fn show(&self, e: E) -> String {
        let n = self.n[e as usize];
        let s = match n.op {
            Op::Const => format!("{}:{}", self.r[e as usize].lo, n.w),
            Op::Var => self.vars[n.imm as usize].name.clone(),
            Op::Tab => format!("T{}({})", n.imm, self.support(e).iter().map(|v| self.vars[*v as usize].name.clone()).collect::<Vec<_>>().join(",")),
            Op::Dec | Op::Concat => format!("{:?}[{}]", n.op, self.lists[n.imm as usize].iter().map(|x| self.show(*x)).collect::<Vec<_>>().join(" ")),
            _ => format!("({:?}{}.{} {})", n.op, n.w, n.imm, n.k.iter().filter(|k| **k != 0).map(|x| self.show(*x)).collect::<Vec<_>>().join(" ")),
        };
        if s.len() > 2000 {
            let mut c = 2000;
            while !s.is_char_boundary(c) {
                c -= 1;
            }
            format!("{}...", &s[..c])
        } else {
            s
        }
    }
}

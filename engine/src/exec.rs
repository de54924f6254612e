//! Symbolic interpreter for LLVM IR.

use crate::expr::*;
use crate::ll::{self, BinOp, CastOp, Cv, Func, Module, Opd, Pred, Ty, TyId, I};
use crate::solver::{Res, Z3};
use crate::sys::Sys;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::Ordering::{Relaxed, SeqCst};

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(E),
    A(Rc<Vec<V>>),
}

pub enum Stop {
    Ok,
    Assume,
    PanicOk,
    Violation,
    Inc(String),
}
pub type R<T> = Result<T, Box<Stop>>;

fn inc<T>(s: impl Into<String>) -> R<T> {
    Err(Box::new(Stop::Inc(s.into())))
}

pub struct CFunc {
    pub f: Func,
    pub k: Vec<V>,
    pub id: u32,
}

type NatFn = fn(&mut Exec, &[V], &ll::Call) -> R<V>;

#[derive(Clone, Copy)]
enum Target {
    Fn(u32),
    Nat(NatFn),
    Panic,
    /// symbolic data at *arg reaches the stand-in `to`, concrete data the real function
    Redir { real: u32, to: u32, kind: u8 },
    Bad(u32),
}

struct Frame {
    f: &'static CFunc,
    blk: u32,
    pc: u32,
    base: u32,
    nstack: u32,
    d: Option<u32>,
    normal: Option<u32>,
}

#[derive(Default)]
struct Obj {
    data: Vec<u8>,
    sym: Option<Vec<E>>,
    konst: bool,
    freed: bool,
}

enum Input {
    U64(String, V),
    Bytes(String, Vec<V>),
}

pub struct Cfg {
    pub tier: u64,
    pub rlimit: u32,
    pub path_limit: u64,
    pub deadline: std::time::Instant,
    pub start: std::time::Instant,
    /// how long to go on after the first violation (None: as long as there is time)
    pub grace_ms: Option<u64>,
    pub seed: u64,
    pub samples: u64,
    pub max_paths: u64,
}

const FN_ID: u32 = 0x2000_0000;
const EXT_ID: u32 = 0x3000_0000;
const ST_ID: u32 = 0x4000_0000;

pub struct Exec {
    pub m: Module,
    pub p: Pool,
    pub z: Z3,
    pub sys: Sys,
    pub cfg: Cfg,
    pub entry: String,
    pub entry_idx: usize,
    funcs: Vec<Option<&'static CFunc>>,
    targets: Vec<Target>,
    tmap: HashMap<Rc<str>, u32>,
    gaddr: HashMap<Rc<str>, u64>,
    ext_names: Vec<Rc<str>>,
    regs: Vec<V>,
    frames: Vec<Frame>,
    heap: Vec<Obj>,
    stack: Vec<Obj>,
    nstack: usize,
    // path state
    model: Vec<u128>,
    cons: Vec<E>,
    /// byte terms of stored values -> the value
    whole: HashMap<Box<[E]>, E, Bh>,
    conset: HashSet<E, Bh>,
    dom: HashMap<u32, [u64; 4]>,
    multi: Vec<bool>,
    qcache: HashMap<(E, u64), Option<Vec<(u32, u128)>>, Bh>,
    inputs: Vec<Input>,
    obs: Vec<Vec<V>>,
    allow_panic: bool,
    instrs: u64,
    instr_flushed: u64,
    hang_at: u64,
    path_violations: u32,
    incomplete: Option<String>,
    path_hash: u64,
    tmp: Vec<V>,
    /// files made by the harness: path, address, length; open ones: file, position
    pub files: Vec<(String, u64, u64)>,
    pub fds: Vec<(usize, u64)>,
    errno: u64,
    trace: bool,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

fn cint(v: &V) -> Option<u128> {
    match v {
        V::C(x) => Some(*x),
        _ => None,
    }
}

impl Exec {
    pub fn new(m: Module, sys: Sys, cfg: Cfg) -> Exec {
        let nf = m.func_src.len();
        let mut e = Exec {
            m,
            p: Pool::new(),
            z: Z3::new(),
            sys,
            cfg,
            entry: String::new(),
            entry_idx: 0,
            funcs: vec![None; nf],
            targets: vec![],
            tmap: HashMap::new(),
            gaddr: HashMap::new(),
            ext_names: vec![],
            regs: vec![V::C(0); 4096],
            frames: vec![],
            heap: vec![],
            stack: vec![],
            nstack: 0,
            model: vec![],
            cons: vec![],
            whole: Default::default(),
            conset: Default::default(),
            dom: HashMap::new(),
            multi: vec![],
            qcache: Default::default(),
            inputs: vec![],
            obs: vec![],
            allow_panic: false,
            instrs: 0,
            instr_flushed: 0,
            hang_at: u64::MAX,
            path_violations: 0,
            incomplete: None,
            path_hash: 0,
            tmp: vec![],
            errno: 0,
            files: vec![],
            fds: vec![],
            trace: std::env::var("VF_TRACE").is_ok(),
        };
        e.init_globals();
        e
    }

    fn init_globals(&mut self) {
        let n = self.m.globals.len();
        for i in 0..n {
            let (name, sz) = {
                let g = &self.m.globals[i];
                (g.name.clone(), self.m.types.layout(g.ty).size as usize)
            };
            self.heap.push(Obj { data: vec![0; sz], sym: None, konst: false, freed: false });
            let id = self.heap.len() as u64;
            self.gaddr.insert(name, id << 32);
        }
        for (i, f) in self.m.func_src.iter().enumerate() {
            self.gaddr.insert(f.0.clone(), ((FN_ID + i as u32) as u64) << 32);
        }
        let decl = self.m.declares.clone();
        for (i, d) in decl.iter().enumerate() {
            self.gaddr.entry(d.clone()).or_insert(((EXT_ID + i as u32) as u64) << 32);
        }
        self.ext_names = decl;
        let al = self.m.aliases.clone();
        for (a, t) in al {
            if let Some(&x) = self.gaddr.get(&t) {
                self.gaddr.insert(a, x);
            }
        }
        let globals = std::mem::take(&mut self.m.globals);
        for (i, g) in globals.iter().enumerate() {
            if let Some(c) = &g.init {
                let mut buf = std::mem::take(&mut self.heap[i].data);
                self.write_cv(&mut buf, 0, g.ty, c);
                self.heap[i].data = buf;
            }
            self.heap[i].konst = g.constant;
        }
        self.m.globals = globals;
    }

    fn cv_int(&self, c: &Cv) -> u128 {
        match c {
            Cv::Int(v) => *v,
            Cv::Zero => 0,
            Cv::Global(g) => match self.gaddr.get(g) {
                Some(a) => *a as u128,
                None => panic!("unknown global {}", g),
            },
            Cv::AddOff(b, o) => (self.cv_int(b) as u64).wrapping_add(*o as u64) as u128,
            Cv::Bin(op, a, b) => {
                let (x, y) = (self.cv_int(a) as u64, self.cv_int(b) as u64);
                (match *op {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "and" => x & y,
                    "or" => x | y,
                    _ => x ^ y,
                }) as u128
            }
            Cv::Trunc(a, w) => self.cv_int(a) & mask(*w),
            _ => panic!("cv_int {:?}", c),
        }
    }

    fn write_cv(&self, buf: &mut [u8], off: usize, ty: TyId, c: &Cv) {
        let t = self.m.types.get(ty).clone();
        match c {
            Cv::Zero => {}
            Cv::Bytes(b) => buf[off..off + b.len()].copy_from_slice(b),
            Cv::Splat(x) => {
                if let Ty::Vec(n, et) = t {
                    for i in 0..n {
                        let (o, _) = self.m.types.field(ty, i);
                        self.write_cv(buf, off + o as usize, et, x);
                    }
                }
            }
            Cv::Agg(v) => {
                for (i, x) in v.iter().enumerate() {
                    let (o, ft) = self.m.types.field(ty, i as u32);
                    self.write_cv(buf, off + o as usize, ft, x);
                }
            }
            _ => {
                let n = self.m.types.store_size(ty) as usize;
                let v = self.cv_int(c);
                buf[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }

    fn zero_of(&self, ty: TyId) -> V {
        match self.m.types.get(ty) {
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| self.zero_of(*t)).collect())),
            Ty::Arr(n, t) => V::A(Rc::new((0..*n).map(|_| self.zero_of(*t)).collect())),
            Ty::Vec(n, t) => V::A(Rc::new((0..*n).map(|_| self.zero_of(*t)).collect())),
            _ => V::C(0),
        }
    }

    fn cv_val(&self, ty: TyId, c: &Cv) -> V {
        match (self.m.types.get(ty), c) {
            (Ty::Struct(..), Cv::Zero) | (Ty::Arr(..), Cv::Zero) | (Ty::Vec(..), Cv::Zero) => self.zero_of(ty),
            (Ty::Vec(n, t), Cv::Splat(x)) => {
                let v = self.cv_val(*t, x);
                V::A(Rc::new(vec![v; *n as usize]))
            }
            (Ty::Vec(_, _), Cv::Bytes(b)) | (Ty::Arr(_, _), Cv::Bytes(b)) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            (Ty::Vec(_, t), Cv::Agg(v)) | (Ty::Arr(_, t), Cv::Agg(v)) => V::A(Rc::new(v.iter().map(|x| self.cv_val(*t, x)).collect())),
            (Ty::Struct(f, _), Cv::Agg(v)) => V::A(Rc::new(v.iter().zip(f.iter()).map(|(x, t)| self.cv_val(*t, x)).collect())),
            (Ty::Void, _) | (Ty::Other, _) => V::C(0),
            (_, c) => {
                let w = self.m.types.bits(ty);
                V::C(self.cv_int(c) & mask(w))
            }
        }
    }

    fn func(&mut self, id: u32) -> &'static CFunc {
        if let Some(f) = self.funcs[id as usize] {
            return f;
        }
        let (name, s, e) = self.m.func_src[id as usize].clone();
        let f = ll::parse_func(self.m.text, &mut self.m.types, name, s, e);
        let k = f.consts.iter().map(|(t, c)| self.cv_val(*t, c)).collect();
        let cf: &'static CFunc = Box::leak(Box::new(CFunc { f, k, id }));
        self.funcs[id as usize] = Some(cf);
        cf
    }

    // ------------------------------------------------------------ values

    pub fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.p.c(w, *x),
            V::S(e) => {
                debug_assert!(self.p.w(*e) == w, "width {} vs {}", self.p.w(*e), w);
                *e
            }
            V::A(l) => {
                // vector as one integer
                let n = l.len() as u32;
                let lw = w / n;
                let es: Vec<E> = l.clone().iter().map(|x| self.e(x, lw)).collect();
                self.p.concat(&es)
            }
        }
    }
    pub fn v(&self, e: E) -> V {
        match self.p.cval(e) {
            Some(c) => V::C(c),
            None => V::S(e),
        }
    }

    // ------------------------------------------------------------ path condition

    fn small_var(&self, e: E) -> Option<u32> {
        let s = self.p.sup[e as usize];
        let sup = &self.p.sups[s as usize];
        if sup.len() == 1 && self.p.small(s) && (self.p.op(e) == Op::Tab || self.p.op(e) == Op::Var) {
            Some(sup[0])
        } else {
            None
        }
    }
    fn full_dom(&self, v: u32) -> [u64; 4] {
        let vi = &self.p.vars[v as usize];
        let n = (vi.hi - vi.lo + 1) as usize;
        let mut d = [0u64; 4];
        for i in 0..n {
            d[i / 64] |= 1 << (i % 64);
        }
        d
    }
    fn col_bits(&self, e: E, v: u32) -> [u64; 4] {
        let col = self.p.column(e, &[v]);
        let mut d = [0u64; 4];
        for (i, x) in col.iter().enumerate() {
            if *x != 0 {
                d[i / 64] |= 1 << (i % 64);
            }
        }
        d
    }
    fn dom_of(&self, v: u32) -> [u64; 4] {
        self.dom.get(&v).copied().unwrap_or_else(|| self.full_dom(v))
    }

    fn add_cons(&mut self, c: E) {
        if self.p.cval(c).is_some() || !self.conset.insert(c) {
            return;
        }
        if self.p.op(c) == Op::And && self.p.w(c) == 1 {
            let (a, b) = (self.p.kid(c, 0), self.p.kid(c, 1));
            self.add_cons(a);
            self.add_cons(b);
            return;
        }
        if self.p.op(c) == Op::Xor && self.p.cval(self.p.kid(c, 1)) == Some(1) {
            let k = self.p.kid(c, 0);
            if self.p.op(k) == Op::Or {
                let (a, b) = (self.p.kid(k, 0), self.p.kid(k, 1));
                let (na, nb) = (self.p.not(a), self.p.not(b));
                self.add_cons(na);
                self.add_cons(nb);
                return;
            }
        }
        if let Some(v) = self.small_var(c) {
            let b = self.col_bits(c, v);
            let mut d = self.dom_of(v);
            for i in 0..4 {
                d[i] &= b[i];
            }
            self.dom.insert(v, d);
            return;
        }
        for v in self.p.support(c).iter() {
            self.multi[*v as usize] = true;
        }
        self.cons.push(c);
    }

    /// constraint stating that v lies in its current domain
    fn dom_expr(&mut self, v: u32) -> Option<E> {
        let d = *self.dom.get(&v)?;
        if d == self.full_dom(v) {
            return None;
        }
        let node = self.p.vars[v as usize].node;
        let w = self.p.vars[v as usize].w;
        let lo = self.p.vars[v as usize].lo;
        let n = (self.p.vars[v as usize].hi - lo + 1) as usize;
        let t: Vec<u64> = (0..n).map(|i| (d[i / 64] >> (i % 64)) & 1).collect();
        let l = self.p.c(w, lo);
        let idx = self.p.sub(node, l);
        Some(self.p.look(t, 1, idx))
    }

    /// is `c` satisfiable together with the path condition?
    fn sat_with(&mut self, c: E) -> R<Option<Vec<(u32, u128)>>> {
        if let Some(v) = self.p.cval(c) {
            return Ok(if v != 0 { Some(vec![]) } else { None });
        }
        if self.conset.contains(&c) {
            return Ok(Some(vec![]));
        }
        if let Some(v) = self.small_var(c) {
            let b = self.col_bits(c, v);
            let d = self.dom_of(v);
            let mut any = None;
            for i in 0..256 {
                if b[i / 64] & d[i / 64] & (1 << (i % 64)) != 0 {
                    any = Some(i);
                    break;
                }
            }
            match any {
                None => {
                    self.sys.sh.branches_dom.fetch_add(1, Relaxed);
                    return Ok(None);
                }
                Some(i) if !self.multi[v as usize] => {
                    self.sys.sh.branches_dom.fetch_add(1, Relaxed);
                    return Ok(Some(vec![(v, self.p.vars[v as usize].lo + i as u128)]));
                }
                _ => {}
            }
        }
        // slice
        let mut inset: HashSet<u32> = self.p.support(c).iter().copied().collect();
        let mut used = vec![false; self.cons.len()];
        let mut q: Vec<E> = vec![c];
        loop {
            let mut ch = false;
            for i in 0..self.cons.len() {
                if used[i] {
                    continue;
                }
                let s = self.p.support(self.cons[i]);
                if s.iter().any(|v| inset.contains(v)) {
                    used[i] = true;
                    q.push(self.cons[i]);
                    for v in s.iter() {
                        inset.insert(*v);
                    }
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut vs: Vec<u32> = inset.iter().copied().collect();
        vs.sort();
        for v in &vs {
            if let Some(d) = self.dom_expr(*v) {
                q.push(d);
            }
        }
        let mut hsh = 0u64;
        for x in &q[1..] {
            hsh ^= (*x as u64).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(17).wrapping_mul(0xbf58476d1ce4e5b9);
        }
        if let Some(r) = self.qcache.get(&(c, hsh)) {
            return Ok(r.clone());
        }
        self.tick(true)?;
        let t0 = self.z.time_ns;
        let (l0, f0) = (self.z.by_lira, self.z.by_fpa);
        let r = self.z.check(&mut self.p, &q, self.cfg.rlimit);
        let dt = self.z.time_ns - t0;
        let sh = self.sys.sh;
        sh.queries.fetch_add(1, Relaxed);
        sh.q_time_ns.fetch_add(dt, Relaxed);
        sh.q_max_ns.fetch_max(dt, Relaxed);
        sh.lira.fetch_add(self.z.by_lira - l0, Relaxed);
        sh.fpa.fetch_add(self.z.by_fpa - f0, Relaxed);
        match r {
            Res::Unsat => {
                sh.q_unsat.fetch_add(1, Relaxed);
                self.qcache.insert((c, hsh), None);
                Ok(None)
            }
            Res::Sat(m) => {
                sh.q_sat.fetch_add(1, Relaxed);
                // the witness must satisfy the query under concrete evaluation
                let mut full = self.model.clone();
                for (v, x) in &m {
                    full[*v as usize] = *x;
                }
                self.p.new_gen();
                let mut bad = None;
                for &x in &q {
                    if self.p.eval(x, &full) != 1 {
                        bad = Some(x);
                        break;
                    }
                }
                self.p.new_gen();
                if let Some(b) = bad {
                    let s = self.p.show(b);
                    sh.errors.fetch_add(1, Relaxed);
                    self.sys.log(&format!("{{\"kind\":\"engine_error\",\"msg\":{}}}", jstr(&format!("solver model does not satisfy {}", s))));
                    return inc("solver/evaluator disagreement");
                }
                self.qcache.insert((c, hsh), Some(m.clone()));
                Ok(Some(m))
            }
            Res::Unknown => {
                sh.q_unknown.fetch_add(1, Relaxed);
                if std::env::var("VF_SHOWUNK").is_ok() {
                    let s = self.p.show(c);
                    eprintln!("unknown: {}", s);
                }
                inc("solver gave up within its resource limit")
            }
        }
    }

    fn apply(&mut self, w: &[(u32, u128)]) {
        for (v, x) in w {
            self.model[*v as usize] = *x;
        }
        self.p.new_gen();
    }

    /// decide a branch; forks when both sides are feasible
    pub fn branch(&mut self, c: E) -> R<bool> {
        if let Some(v) = self.p.cval(c) {
            return Ok(v != 0);
        }
        if self.conset.contains(&c) {
            self.sys.sh.branches_known.fetch_add(1, Relaxed);
            return Ok(true);
        }
        let n = self.p.not(c);
        if self.conset.contains(&n) {
            self.sys.sh.branches_known.fetch_add(1, Relaxed);
            return Ok(false);
        }
        let cur = self.p.eval(c, &self.model) != 0;
        let (here, opp) = if cur { (c, n) } else { (n, c) };
        let w = match self.sat_with(opp) {
            Ok(w) => w,
            Err(s) => {
                if let Stop::Inc(r) = &*s {
                    if r.starts_with("solver gave up") {
                        // the other side is unexplored; this one is known feasible
                        self.note_incomplete("branch undecided: solver gave up within its resource limit");
                        self.add_cons(here);
                        return Ok(cur);
                    }
                }
                return Err(s);
            }
        };
        self.sys.sh.branches_solver.fetch_add(1, Relaxed);
        match w {
            None => {
                self.conset.insert(here);
                if let Some(v) = self.small_var(here) {
                    let _ = v;
                }
                Ok(cur)
            }
            Some(w) => {
                self.flush();
                if self.split()? {
                    self.apply(&w);
                    self.add_cons(opp);
                    self.path_hash = self.path_hash.wrapping_mul(31).wrapping_add(1);
                    Ok(!cur)
                } else {
                    self.add_cons(here);
                    self.path_hash = self.path_hash.wrapping_mul(31).wrapping_add(2);
                    Ok(cur)
                }
            }
        }
    }

    fn split(&mut self) -> R<bool> {
        self.tick(false)?;
        let c = self.sys.split();
        if self.sys.sh.stop.load(Relaxed) != 0 {
            return inc("stopped");
        }
        Ok(c)
    }

    fn note_incomplete(&mut self, r: &str) {
        if self.incomplete.is_none() {
            self.incomplete = Some(r.to_string());
        }
    }

    /// force a value to be concrete (forking over its feasible values)
    pub fn concretize(&mut self, e: E) -> R<u128> {
        let w = self.p.w(e);
        loop {
            if let Some(v) = self.p.cval(e) {
                return Ok(v);
            }
            let v = self.p.eval(e, &self.model);
            let k = self.p.c(w, v);
            let c = self.p.eq(e, k);
            if self.branch(c)? {
                return Ok(v);
            }
        }
    }
    fn conc(&mut self, v: &V) -> R<u128> {
        match v {
            V::C(x) => Ok(*x),
            V::S(e) => self.concretize(*e),
            V::A(_) => inc("aggregate where a scalar was expected"),
        }
    }

    fn flush(&mut self) {
        let d = self.instrs - self.instr_flushed;
        self.sys.sh.instrs.fetch_add(d, Relaxed);
        self.instr_flushed = self.instrs;
    }

    fn tick(&mut self, _q: bool) -> R<()> {
        if self.sys.sh.stop.load(Relaxed) != 0 {
            return inc("stopped");
        }
        if std::time::Instant::now() > self.cfg.deadline {
            return inc("time budget used up");
        }
        if let Some(g) = self.cfg.grace_ms {
            let v = self.sys.sh.viol_at.load(Relaxed);
            if v != 0 && self.cfg.start.elapsed().as_millis() as u64 > v + g {
                return inc("stopped after a violation");
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ reporting

    fn eval_v(&mut self, v: &V) -> u128 {
        match v {
            V::C(x) => *x,
            V::S(e) => self.p.eval(*e, &self.model),
            V::A(_) => 0,
        }
    }

    fn inputs_json(&mut self, extra: &[(u32, u128)]) -> String {
        let saved = self.model.clone();
        self.apply(&extra.to_vec());
        let ins = std::mem::take(&mut self.inputs);
        let mut o = String::from("[");
        for (i, x) in ins.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match x {
                Input::U64(n, v) => {
                    let x = self.eval_v(v) as u64;
                    o.push_str(&jstr(&format!("u {} {}", n, x)));
                }
                Input::Bytes(n, vs) => {
                    let mut h = format!("b {} {} ", n, vs.len());
                    for v in vs {
                        h.push_str(&format!("{:02x}", self.eval_v(v) as u8));
                    }
                    o.push_str(&jstr(&h));
                }
            }
        }
        o.push(']');
        self.inputs = ins;
        self.model = saved;
        self.p.new_gen();
        o
    }

    fn backtrace(&self) -> String {
        let mut v = vec![];
        for f in self.frames.iter().rev().take(14) {
            v.push(f.f.f.name.to_string());
        }
        v.join(" < ")
    }

    fn violation(&mut self, kind: &str, id: &str, detail: &str, w: &[(u32, u128)]) {
        let sh = self.sys.sh;
        self.path_violations += 1;
        sh.violations.fetch_add(1, Relaxed);
        let _ = sh.viol_at.compare_exchange(0, self.cfg.start.elapsed().as_millis() as u64 + 1, SeqCst, SeqCst);
        let key = (hash_str(&format!("{}{}{}{}", self.entry, kind, id, if kind == "check" { "" } else { detail })) % 256) as usize;
        if sh.vhash[key].fetch_add(1, SeqCst) >= 3 {
            return;
        }
        let bt = self.backtrace();
        let ins = self.inputs_json(w);
        self.sys.log(&format!(
            "{{\"kind\":\"violation\",\"entry\":{},\"vkind\":{},\"id\":{},\"detail\":{},\"bt\":{},\"inputs\":{}}}",
            jstr(&self.entry.clone()),
            jstr(kind),
            jstr(id),
            jstr(detail),
            jstr(&bt),
            ins
        ));
    }

    fn fail(&mut self, kind: &str, id: &str, detail: &str) -> Box<Stop> {
        self.violation(kind, id, detail, &[]);
        Box::new(Stop::Violation)
    }

    fn reach(&mut self, label: &str) {
        let k = format!("{}:{}", self.entry, label);
        let h = (hash_str(&k) % (1024 * 64 - 8192)) as usize + 8192;
        // the first 128 words hold per-entry counters
        let old = self.sys.sh.reach[h / 64].fetch_or(1 << (h % 64), SeqCst);
        if old & (1 << (h % 64)) == 0 {
            self.sys.log(&format!("{{\"kind\":\"reach\",\"entry\":{},\"label\":{}}}", jstr(&self.entry.clone()), jstr(label)));
        }
    }

    fn check(&mut self, c: &V, id: &str) -> R<()> {
        let sh = self.sys.sh;
        sh.checks_total.fetch_add(1, Relaxed);
        self.reach(&format!("check:{}", id));
        match c {
            V::C(x) => {
                if *x == 0 {
                    self.violation("check", id, "", &[]);
                } else {
                    sh.checks_const.fetch_add(1, Relaxed);
                }
                Ok(())
            }
            V::S(e) => {
                let n = self.p.not(*e);
                if self.conset.contains(e) {
                    return Ok(());
                }
                if self.p.eval(n, &self.model) != 0 {
                    self.violation("check", id, "", &[]);
                    match self.sat_with(*e)? {
                        None => return Err(Box::new(Stop::Violation)),
                        Some(w) => self.apply(&w),
                    }
                } else {
                    match self.sat_with(n) {
                        Ok(None) => {
                            sh.checks_solver.fetch_add(1, Relaxed);
                            self.conset.insert(*e);
                            return Ok(());
                        }
                        Ok(Some(w)) => {
                            self.violation("check", id, "", &w);
                        }
                        Err(s) => {
                            if let Stop::Inc(r) = &*s {
                                if std::env::var("VF_SHOW").is_ok() {
                                    eprintln!("undecided {}: {}", id, self.p.show(n));
                                    for c in self.cons.clone() {
                                        eprintln!("   with {}", self.p.show(c));
                                    }
                                }
                                if r.starts_with("solver gave up") {
                                    self.note_incomplete(&format!("check {} undecided: {}", id, r));
                                } else {
                                    return Err(s);
                                }
                            } else {
                                return Err(s);
                            }
                        }
                    }
                }
                self.add_cons(*e);
                Ok(())
            }
            _ => inc("bad check"),
        }
    }

    // ------------------------------------------------------------ memory

    fn obj(&self, id: u32) -> Option<&Obj> {
        if id >= ST_ID {
            let i = (id - ST_ID) as usize;
            if i < self.nstack {
                Some(&self.stack[i])
            } else {
                None
            }
        } else if id >= 1 && (id as usize) <= self.heap.len() {
            Some(&self.heap[id as usize - 1])
        } else {
            None
        }
    }
    fn obj_mut(&mut self, id: u32) -> Option<&mut Obj> {
        if id >= ST_ID {
            let i = (id - ST_ID) as usize;
            if i < self.nstack {
                Some(&mut self.stack[i])
            } else {
                None
            }
        } else if id >= 1 && (id as usize) <= self.heap.len() {
            Some(&mut self.heap[id as usize - 1])
        } else {
            None
        }
    }
    fn alloc(&mut self, n: u64) -> u64 {
        self.heap.push(Obj { data: vec![0; n as usize], sym: None, konst: false, freed: false });
        (self.heap.len() as u64) << 32
    }
    fn alloc_stack(&mut self, n: u64) -> u64 {
        if self.nstack < self.stack.len() {
            let o = &mut self.stack[self.nstack];
            o.data.clear();
            o.data.resize(n as usize, 0);
            o.sym = None;
        } else {
            self.stack.push(Obj { data: vec![0; n as usize], sym: None, konst: false, freed: false });
        }
        self.nstack += 1;
        ((ST_ID as u64) + self.nstack as u64 - 1) << 32
    }

    fn bad_access(&mut self, what: &str, a: u64, n: usize) -> Box<Stop> {
        let o = self.obj((a >> 32) as u32).map(|o| (o.data.len(), o.freed));
        let f = self.frames.last().map(|f| f.f.f.name.to_string()).unwrap_or_default();
        self.fail("memory", what, &format!("{:#x} len {} obj {:?} in {}", a, n, o, f))
    }

    fn rd(&mut self, a: u64, n: usize) -> R<V> {
        if n == 0 {
            return Ok(V::C(0));
        }
        let off = a as u32 as usize;
        let r = match self.obj((a >> 32) as u32) {
            Some(o) if off + n <= o.data.len() && !o.freed => {
                let mut symb = false;
                if let Some(s) = &o.sym {
                    symb = s[off..off + n].iter().any(|x| *x != 0);
                }
                if !symb {
                    if n <= 16 {
                        let mut b = [0u8; 16];
                        b[..n].copy_from_slice(&o.data[off..off + n]);
                        return Ok(V::C(u128::from_le_bytes(b)));
                    }
                    return inc("wide load");
                }
                let s = o.sym.as_ref().unwrap();
                let v: Vec<(E, u8)> = (0..n).map(|i| (s[off + i], o.data[off + i])).collect();
                Some(v)
            }
            _ => None,
        };
        match r {
            Some(v) => {
                let es: Vec<E> = v.iter().map(|(e, b)| if *e != 0 { *e } else { self.p.c(8, *b as u128) }).collect();
                if let Some(e) = self.whole.get(&es[..]) {
                    let e = *e;
                    return Ok(self.v(e));
                }
                let e = self.p.concat(&es);
                Ok(self.v(e))
            }
            None => Err(self.bad_access("read", a, n)),
        }
    }

    fn wr(&mut self, a: u64, n: usize, v: &V) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let off = a as u32 as usize;
        match v {
            V::C(x) => {
                let b = x.to_le_bytes();
                let ok = match self.obj_mut((a >> 32) as u32) {
                    Some(o) if off + n <= o.data.len() && !o.konst => {
                        o.data[off..off + n].copy_from_slice(&b[..n]);
                        if let Some(s) = &mut o.sym {
                            for x in &mut s[off..off + n] {
                                *x = 0;
                            }
                        }
                        true
                    }
                    _ => false,
                };
                if !ok {
                    return Err(self.bad_access("write", a, n));
                }
            }
            V::S(e) => {
                let w = self.p.w(*e);
                let e = if w < 8 * n as u32 { self.p.zext(*e, 8 * n as u32) } else { *e };
                let bs: Vec<E> = (0..n).map(|i| self.p.extract(e, 8 * i as u32, 8)).collect();
                if n > 1 && !matches!(self.p.op(e), Op::Concat) {
                    self.whole.insert(bs.clone().into_boxed_slice(), e);
                }
                let cs: Vec<Option<u128>> = bs.iter().map(|b| self.p.cval(*b)).collect();
                let ok = match self.obj_mut((a >> 32) as u32) {
                    Some(o) if off + n <= o.data.len() && !o.konst => {
                        let l = o.data.len();
                        let s = o.sym.get_or_insert_with(|| vec![0; l]);
                        for i in 0..n {
                            match cs[i] {
                                Some(c) => {
                                    o.data[off + i] = c as u8;
                                    s[off + i] = 0;
                                }
                                None => s[off + i] = bs[i],
                            }
                        }
                        true
                    }
                    _ => false,
                };
                if !ok {
                    return Err(self.bad_access("write", a, n));
                }
            }
            V::A(_) => return inc("aggregate store"),
        }
        Ok(())
    }

    fn copy(&mut self, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let so = s as u32 as usize;
        let dof = d as u32 as usize;
        let (data, sym) = match self.obj((s >> 32) as u32) {
            Some(o) if so + n <= o.data.len() => {
                let sym = match &o.sym {
                    Some(v) if v[so..so + n].iter().any(|x| *x != 0) => Some(v[so..so + n].to_vec()),
                    _ => None,
                };
                (o.data[so..so + n].to_vec(), sym)
            }
            _ => return Err(self.bad_access("copy from", s, n)),
        };
        let ok = match self.obj_mut((d >> 32) as u32) {
            Some(o) if dof + n <= o.data.len() && !o.konst => {
                o.data[dof..dof + n].copy_from_slice(&data);
                let l = o.data.len();
                match (sym, &mut o.sym) {
                    (None, None) => {}
                    (None, Some(t)) => t[dof..dof + n].iter_mut().for_each(|x| *x = 0),
                    (Some(v), t) => {
                        let t = t.get_or_insert_with(|| vec![0; l]);
                        t[dof..dof + n].copy_from_slice(&v);
                    }
                }
                true
            }
            _ => false,
        };
        if !ok {
            return Err(self.bad_access("copy to", d, n));
        }
        Ok(())
    }

    fn bytes_at(&mut self, a: u64, n: usize) -> R<Vec<V>> {
        (0..n).map(|i| self.rd(a + i as u64, 1)).collect()
    }
    fn cbytes(&mut self, a: u64, n: usize) -> R<Vec<u8>> {
        let mut o = vec![];
        for i in 0..n {
            let v = self.rd(a + i as u64, 1)?;
            o.push(self.conc(&v)? as u8);
        }
        Ok(o)
    }
    fn cstr(&mut self, a: &V, n: &V) -> R<String> {
        let a = self.conc(a)? as u64;
        let n = self.conc(n)? as usize;
        let b = self.cbytes(a, n)?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    fn region_sym(&self, a: u64, n: usize) -> bool {
        let off = a as u32 as usize;
        match self.obj((a >> 32) as u32) {
            Some(o) if off + n <= o.data.len() => match &o.sym {
                Some(s) => s[off..off + n].iter().any(|x| *x != 0),
                None => false,
            },
            _ => false,
        }
    }

    /// load through a symbolic address
    fn rd_sym(&mut self, ae: E, n: usize) -> R<V> {
        // all feasible addresses must lie inside one object
        let cur = self.p.eval(ae, &self.model) as u64;
        let id = (cur >> 32) as u32;
        let (len, ok) = match self.obj(id) {
            Some(o) => (o.data.len() as u64, !o.freed),
            None => (0, false),
        };
        if !ok || (cur as u32 as u64) + n as u64 > len {
            return Err(self.bad_access("read", cur, n));
        }
        let base = (id as u64) << 32;
        let (lo, hi) = (self.p.lo(ae), self.p.hi(ae));
        let last = base + len - n as u64;
        let mut olo = 0u64;
        let mut ohi = len - n as u64;
        let be = self.p.c(64, base as u128);
        let off = self.p.sub(ae, be);
        if lo >= base as u128 && hi <= last as u128 {
            olo = (lo - base as u128) as u64;
            ohi = (hi - base as u128) as u64;
        } else {
            let lim = self.p.c(64, ohi as u128);
            let inb = self.p.ule(off, lim);
            if !self.branch(inb)? {
                // another object or out of bounds
                return self.rd_sym(ae, n);
            }
        }
        if ohi - olo > 1 << 16 || n > 8 {
            let v = self.concretize(ae)?;
            return self.rd(v as u64, n);
        }
        // narrow using the domain of a single small variable
        if let Some(v) = {
            let s = self.p.support(off);
            if s.len() == 1 && self.p.small(self.p.sup[off as usize]) && self.p.op(off) == Op::Tab {
                Some(s[0])
            } else {
                None
            }
        } {
            let col = self.p.column(off, &[v]);
            let d = self.dom_of(v);
            let mut l = u64::MAX;
            let mut h = 0;
            for (i, x) in col.iter().enumerate() {
                if d[i / 64] >> (i % 64) & 1 == 1 {
                    l = l.min(*x);
                    h = h.max(*x);
                }
            }
            if l <= h && h <= ohi {
                olo = l.max(olo);
                ohi = h;
            }
        }
        let span = (ohi - olo + n as u64) as usize;
        if self.region_sym(base + olo, span) {
            let v = self.concretize(ae)?;
            return self.rd(v as u64, n);
        }
        let o = self.obj(id).unwrap();
        let t: Vec<u64> = (olo..=ohi)
            .map(|i| {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[i as usize..i as usize + n]);
                u64::from_le_bytes(b)
            })
            .collect();
        let lk = self.p.c(64, olo as u128);
        let idx = self.p.sub(off, lk);
        let e = self.p.look(t, 8 * n as u32, idx);
        Ok(self.v(e))
    }

    fn load(&mut self, ty: TyId, a: &V) -> R<V> {
        match self.m.types.get(ty) {
            Ty::Vec(n, t) => {
                let (n, t) = (*n, *t);
                let lb = self.m.types.bits(t);
                let a = self.conc(a)? as u64;
                if lb % 8 != 0 {
                    let tot = (lb * n + 7) / 8;
                    let v = self.rd(a, tot as usize)?;
                    return self.split_lanes(&v, n, lb, tot * 8);
                }
                let lb = (lb / 8) as u64;
                let mut v = Vec::with_capacity(n as usize);
                for i in 0..n as u64 {
                    v.push(self.rd(a + i * lb, lb as usize)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let f = f.clone();
                let a = self.conc(a)? as u64;
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, t) = self.m.types.field(ty, i as u32);
                    v.push(self.load(t, &V::C((a + o) as u128))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, _) => {
                let n = *n;
                let a = self.conc(a)? as u64;
                let mut v = vec![];
                for i in 0..n {
                    let (o, t) = self.m.types.field(ty, i as u32);
                    v.push(self.load(t, &V::C((a + o) as u128))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let w = self.m.types.bits(ty);
                let n = ((w + 7) / 8) as usize;
                let r = match a {
                    V::C(x) => self.rd(*x as u64, n)?,
                    V::S(e) => {
                        let isptr = matches!(self.m.types.get(ty), Ty::Ptr);
                        let e = *e;
                        if isptr {
                            let c = self.concretize(e)?;
                            self.rd(c as u64, n)?
                        } else {
                            self.rd_sym(e, n)?
                        }
                    }
                    _ => return inc("load address"),
                };
                if w % 8 != 0 {
                    return Ok(match r {
                        V::C(x) => V::C(x & mask(w)),
                        V::S(e) => {
                            let t = self.p.trunc(e, w);
                            self.v(t)
                        }
                        x => x,
                    });
                }
                Ok(r)
            }
        }
    }

    fn store(&mut self, ty: TyId, v: &V, a: u64) -> R<()> {
        match self.m.types.get(ty) {
            Ty::Vec(n, t) => {
                let (n, t) = (*n, *t);
                let lb = self.m.types.bits(t);
                let l = self.lanes(v, n, lb)?;
                if lb % 8 != 0 {
                    let e = self.e(&V::A(l), n * lb);
                    let x = self.v(e);
                    return self.wr(a, ((n * lb + 7) / 8) as usize, &x);
                }
                for i in 0..n as u64 {
                    self.wr(a + i * (lb / 8) as u64, (lb / 8) as usize, &l[i as usize])?;
                }
                Ok(())
            }
            Ty::Struct(..) | Ty::Arr(..) => {
                let l = match v {
                    V::A(l) => l.clone(),
                    _ => return inc("aggregate store of scalar"),
                };
                for i in 0..l.len() {
                    let (o, t) = self.m.types.field(ty, i as u32);
                    self.store(t, &l[i], a + o)?;
                }
                Ok(())
            }
            _ => {
                let w = self.m.types.bits(ty);
                self.wr(a, ((w + 7) / 8) as usize, v)
            }
        }
    }

    fn split_lanes(&mut self, v: &V, n: u32, lb: u32, tot: u32) -> R<V> {
        let mut o = Vec::with_capacity(n as usize);
        match v {
            V::C(x) => {
                for i in 0..n {
                    o.push(V::C((x >> (i * lb)) & mask(lb)));
                }
            }
            V::S(e) => {
                debug_assert!(self.p.w(*e) == tot);
                for i in 0..n {
                    let x = self.p.extract(*e, i * lb, lb);
                    o.push(self.v(x));
                }
            }
            V::A(l) => return Ok(V::A(l.clone())),
        }
        Ok(V::A(Rc::new(o)))
    }
    fn lanes(&mut self, v: &V, n: u32, lb: u32) -> R<Rc<Vec<V>>> {
        match v {
            V::A(l) => Ok(l.clone()),
            V::C(0) => Ok(Rc::new(vec![V::C(0); n as usize])),
            _ => {
                let _ = lb;
                inc("vector expected")
            }
        }
    }

    // ------------------------------------------------------------ operators

    fn bin1(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> R<V> {
        use BinOp::*;
        let eop = match op {
            Add => Op::Add,
            Sub => Op::Sub,
            Mul => Op::Mul,
            UDiv => Op::UDiv,
            SDiv => Op::SDiv,
            URem => Op::URem,
            SRem => Op::SRem,
            Shl => Op::Shl,
            LShr => Op::LShr,
            AShr => Op::AShr,
            And => Op::And,
            Or => Op::Or,
            Xor => Op::Xor,
            FAdd => Op::FAdd,
            FSub => Op::FSub,
            FMul => Op::FMul,
            FDiv => Op::FDiv,
            FRem => Op::FRem,
        };
        if let (V::C(x), V::C(y)) = (a, b) {
            if matches!(op, UDiv | SDiv | URem | SRem) && *y == 0 {
                return Err(self.fail("memory", "division by zero", ""));
            }
            return Ok(V::C(eval_op(eop, w, 0, [w, w, 0], [*x, *y, 0])));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        if matches!(op, UDiv | SDiv | URem | SRem) && self.p.cval(y).is_none() {
            let z = self.p.c(w, 0);
            let c = self.p.eq(y, z);
            if self.branch(c)? {
                return Err(self.fail("memory", "division by zero", ""));
            }
        }
        let p = &mut self.p;
        let r = match op {
            Add => p.add(x, y),
            Sub => p.sub(x, y),
            Mul => p.mul(x, y),
            UDiv => p.udiv(x, y),
            SDiv => p.sdiv(x, y),
            URem => p.urem(x, y),
            SRem => p.srem(x, y),
            Shl => p.shl(x, y),
            LShr => p.lshr(x, y),
            AShr => p.ashr(x, y),
            And => p.and(x, y),
            Or => p.or(x, y),
            Xor => p.xor(x, y),
            _ => p.fop(eop, w, &[x, y], 0),
        };
        Ok(self.v(r))
    }

    fn icmp1(&mut self, pr: Pred, w: u32, a: &V, b: &V) -> R<V> {
        use Pred::*;
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match pr {
                Eq => x == y,
                Ne => x != y,
                Ugt => x > y,
                Uge => x >= y,
                Ult => x < y,
                Ule => x <= y,
                Sgt => sx(x, w) > sx(y, w),
                Sge => sx(x, w) >= sx(y, w),
                Slt => sx(x, w) < sx(y, w),
                Sle => sx(x, w) <= sx(y, w),
            };
            return Ok(V::C(r as u128));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let p = &mut self.p;
        let r = match pr {
            Eq => p.eq(x, y),
            Ne => p.ne(x, y),
            Ugt => p.ult(y, x),
            Uge => p.ule(y, x),
            Ult => p.ult(x, y),
            Ule => p.ule(x, y),
            Sgt => p.slt(y, x),
            Sge => p.sle(y, x),
            Slt => p.slt(x, y),
            Sle => p.sle(x, y),
        };
        Ok(self.v(r))
    }

    fn fp_of(&self, t: TyId) -> u32 {
        self.m.types.bits(t)
    }

    fn cast1(&mut self, op: CastOp, fw: u32, tw: u32, a: &V) -> R<V> {
        let r = match a {
            V::C(x) => {
                return Ok(V::C(match op {
                    CastOp::Trunc => x & mask(tw),
                    CastOp::ZExt => *x,
                    CastOp::SExt => (sx(*x, fw) as u128) & mask(tw),
                    CastOp::BitCast => *x,
                    CastOp::FPTrunc => eval_op(Op::FTrunc, tw, 0, [fw, 0, 0], [*x, 0, 0]),
                    CastOp::FPExt => eval_op(Op::FExt, tw, 0, [fw, 0, 0], [*x, 0, 0]),
                    CastOp::FPToUI => eval_op(Op::FToU, tw, 0, [fw, 0, 0], [*x, 0, 0]),
                    CastOp::FPToSI => eval_op(Op::FToS, tw, 0, [fw, 0, 0], [*x, 0, 0]),
                    CastOp::UIToFP => eval_op(Op::UToF, tw, 0, [fw, 0, 0], [*x, 0, 0]),
                    CastOp::SIToFP => eval_op(Op::SToF, tw, 0, [fw, 0, 0], [*x, 0, 0]),
                }))
            }
            V::S(e) => {
                let e = *e;
                let p = &mut self.p;
                match op {
                    CastOp::Trunc => p.trunc(e, tw),
                    CastOp::ZExt => p.zext(e, tw),
                    CastOp::SExt => p.sext(e, tw),
                    CastOp::BitCast => e,
                    CastOp::FPTrunc => p.fop(Op::FTrunc, tw, &[e], 0),
                    CastOp::FPExt => p.fop(Op::FExt, tw, &[e], 0),
                    CastOp::FPToUI => p.fop(Op::FToU, tw, &[e], 0),
                    CastOp::FPToSI => p.fop(Op::FToS, tw, &[e], 0),
                    CastOp::UIToFP => p.fop(Op::UToF, tw, &[e], 0),
                    CastOp::SIToFP => p.fop(Op::SToF, tw, &[e], 0),
                }
            }
            _ => return inc("cast of aggregate"),
        };
        Ok(self.v(r))
    }

    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, a: &V) -> R<V> {
        let fv = match self.m.types.get(from) {
            Ty::Vec(n, t) => Some((*n, *t)),
            _ => None,
        };
        let tv = match self.m.types.get(to) {
            Ty::Vec(n, t) => Some((*n, *t)),
            _ => None,
        };
        if op == CastOp::BitCast {
            match (fv, tv) {
                (None, None) => return Ok(a.clone()),
                (Some((n, t)), None) => {
                    let w = self.m.types.bits(t) * n;
                    let l = self.lanes(a, n, w / n)?;
                    return self.join(&l, w / n);
                }
                (None, Some((n, t))) => {
                    let lb = self.m.types.bits(t);
                    return self.split_lanes(a, n, lb, n * lb);
                }
                (Some((n, t)), Some((n2, t2))) => {
                    let (b, b2) = (self.m.types.bits(t), self.m.types.bits(t2));
                    if b == b2 {
                        return Ok(a.clone());
                    }
                    let l = self.lanes(a, n, b)?;
                    // regroup without building one wide word
                    let mut out = vec![];
                    if b2 > b {
                        let g = (b2 / b) as usize;
                        for i in 0..n2 as usize {
                            out.push(self.join(&l[i * g..(i + 1) * g], b)?);
                        }
                    } else {
                        let g = b / b2;
                        for x in l.iter() {
                            match self.split_lanes(x, g, b2, b)? {
                                V::A(v) => out.extend(v.iter().cloned()),
                                _ => unreachable!(),
                            }
                        }
                    }
                    return Ok(V::A(Rc::new(out)));
                }
            }
        }
        match (fv, tv) {
            (Some((n, t)), Some((_, t2))) => {
                let (b, b2) = (self.fp_of(t), self.fp_of(t2));
                let l = self.lanes(a, n, b)?;
                let mut o = vec![];
                for x in l.iter() {
                    o.push(self.cast1(op, b, b2, x)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => {
                let (b, b2) = (self.fp_of(from), self.fp_of(to));
                self.cast1(op, b, b2, a)
            }
        }
    }
    fn join(&mut self, l: &[V], lb: u32) -> R<V> {
        if l.iter().all(|x| matches!(x, V::C(_))) && l.len() as u32 * lb <= 128 {
            let mut r = 0u128;
            for (i, x) in l.iter().enumerate() {
                r |= cint(x).unwrap() << (i as u32 * lb);
            }
            return Ok(V::C(r));
        }
        if l.len() as u32 * lb > 128 {
            return inc("vector wider than 128 bits");
        }
        let es: Vec<E> = l.iter().map(|x| self.e(x, lb)).collect();
        let e = self.p.concat(&es);
        Ok(self.v(e))
    }

    fn select(&mut self, ty: TyId, c: &V, a: &V, b: &V) -> R<V> {
        match c {
            V::C(x) => Ok(if *x != 0 { a.clone() } else { b.clone() }),
            V::S(ce) => {
                let ce = *ce;
                match self.m.types.get(ty) {
                    Ty::Ptr => {
                        if let (V::C(x), V::C(y)) = (a, b) {
                            if x == y {
                                return Ok(a.clone());
                            }
                        }
                        Ok(if self.branch(ce)? { a.clone() } else { b.clone() })
                    }
                    Ty::Struct(..) | Ty::Arr(..) => Ok(if self.branch(ce)? { a.clone() } else { b.clone() }),
                    Ty::Vec(n, t) => {
                        let (n, t) = (*n, *t);
                        let w = self.m.types.bits(t);
                        let (x, y) = (self.lanes(a, n, w)?, self.lanes(b, n, w)?);
                        let mut o = vec![];
                        for i in 0..n as usize {
                            o.push(self.ite(ce, &x[i], &y[i], w));
                        }
                        Ok(V::A(Rc::new(o)))
                    }
                    _ => {
                        let w = self.m.types.bits(ty);
                        Ok(self.ite(ce, a, b, w))
                    }
                }
            }
            V::A(cl) => {
                let (n, t) = match self.m.types.get(ty) {
                    Ty::Vec(n, t) => (*n, *t),
                    _ => return inc("vector select"),
                };
                let w = self.m.types.bits(t);
                let (x, y) = (self.lanes(a, n, w)?, self.lanes(b, n, w)?);
                let mut o = vec![];
                for i in 0..n as usize {
                    o.push(match &cl[i] {
                        V::C(k) => {
                            if *k != 0 {
                                x[i].clone()
                            } else {
                                y[i].clone()
                            }
                        }
                        V::S(ce) => self.ite(*ce, &x[i], &y[i], w),
                        _ => return inc("vector select"),
                    });
                }
                Ok(V::A(Rc::new(o)))
            }
        }
    }
    fn ite(&mut self, c: E, a: &V, b: &V, w: u32) -> V {
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.p.ite(c, x, y);
        self.v(r)
    }

    // ------------------------------------------------------------ interpreter

    #[inline]
    fn o(&self, f: &CFunc, base: usize, o: Opd) -> V {
        match o {
            Opd::R(r) => self.regs[base + r as usize].clone(),
            Opd::K(k) => f.k[k as usize].clone(),
        }
    }

    fn push_frame(&mut self, id: u32, args: &[V], d: Option<u32>, normal: Option<u32>) -> R<()> {
        let f = self.func(id);
        let base = match self.frames.last() {
            Some(fr) => fr.base as usize + fr.f.f.nregs as usize,
            None => 0,
        };
        let need = base + f.f.nregs as usize;
        if self.regs.len() < need {
            self.regs.resize(need + 1024, V::C(0));
        }
        for i in 0..(f.f.nparams as usize).min(args.len()) {
            self.regs[base + i] = args[i].clone();
        }
        if self.frames.len() > 20000 {
            return Err(self.fail("panic", "stack overflow", "recursion deeper than 20000 frames"));
        }
        self.sys.sh.fnbits[(id as usize / 64) % 512].fetch_or(1 << (id % 64), Relaxed);
        if self.trace {
            eprintln!("{:w$}> {}", "", f.f.name, w = self.frames.len());
        }
        self.frames.push(Frame { f, blk: 0, pc: 0, base: base as u32, nstack: self.nstack as u32, d, normal });
        Ok(())
    }

    fn jump(&mut self, e: u32) {
        let fr = self.frames.last_mut().unwrap();
        let ed = &fr.f.f.edges[e as usize];
        fr.blk = ed.target;
        fr.pc = 0;
        let base = fr.base as usize;
        let f = fr.f;
        match ed.copies.len() {
            0 => {}
            1 => {
                let (d, s) = ed.copies[0];
                let v = self.o(f, base, s);
                self.regs[base + d as usize] = v;
            }
            _ => {
                let mut t = std::mem::take(&mut self.tmp);
                t.clear();
                for (_, s) in &ed.copies {
                    t.push(self.o(f, base, *s));
                }
                for ((d, _), v) in ed.copies.iter().zip(t.drain(..)) {
                    self.regs[base + *d as usize] = v;
                }
                self.tmp = t;
            }
        }
    }

    fn ret(&mut self, v: V) -> bool {
        let fr = self.frames.pop().unwrap();
        self.nstack = fr.nstack as usize;
        match self.frames.last() {
            None => true,
            Some(c) => {
                if let Some(d) = fr.d {
                    let b = c.base as usize;
                    self.regs[b + d as usize] = v;
                }
                if let Some(n) = fr.normal {
                    self.jump(n);
                }
                false
            }
        }
    }

    fn resolve(&mut self, name: &Rc<str>) -> u32 {
        if let Some(&t) = self.tmap.get(name) {
            return t;
        }
        let t = self.resolve2(name);
        self.targets.push(t);
        let i = self.targets.len() as u32;
        self.tmap.insert(name.clone(), i);
        i
    }
    fn resolve2(&mut self, name: &Rc<str>) -> Target {
        let n: &str = name;
        if let Some(f) = crate::native::native(n) {
            return Target::Nat(f);
        }
        if n.contains("4core9panicking9panic_fmt") || n.contains("9panicking19panic_nounwind_fmt") || n.contains("9panicking14panic_nounwind") || n.contains("rust_begin_unwind") || n.contains("9panicking11begin_panic") || n.contains("__rust_start_panic") || n.contains("handle_alloc_error") {
            return Target::Panic;
        }
        let mut nm: Rc<str> = name.clone();
        for (a, t) in &self.m.aliases {
            if *a == nm {
                nm = t.clone();
                break;
            }
        }
        if let Some(&i) = self.m.func_idx.get(&nm) {
            // decimal text <-> double: stand-ins for symbolic data
            if n.contains("5floatdN") && n.contains("4core3fmt") && n.ends_with("7Display3fmt") {
                if let Some(&to) = self.m.func_idx.get("vf_fmt_f64") {
                    return Target::Redir { real: i, to, kind: 0 };
                }
            }
            if n.contains("4core3num") && n.contains("float_parsed") && n.ends_with("FromStr8from_str") {
                if let Some(&to) = self.m.func_idx.get("vf_parse_f64") {
                    return Target::Redir { real: i, to, kind: 1 };
                }
            }
            return Target::Fn(i);
        }
        let i = self.ext_names.iter().position(|x| *x == nm).unwrap_or_else(|| {
            self.ext_names.push(nm.clone());
            self.ext_names.len() - 1
        });
        Target::Bad(i as u32)
    }

    fn panic_info(&mut self, args: &[V]) -> (String, String) {
        let mut loc = String::from("?");
        let mut msg = String::new();
        if let Some(V::C(a)) = args.last() {
            let a = *a as u64;
            if let Some(o) = self.obj((a >> 32) as u32) {
                if o.data.len() >= 24 {
                    if let (Ok(V::C(p)), Ok(V::C(l)), Ok(V::C(line)), Ok(V::C(col))) = (self.rd(a, 8), self.rd(a + 8, 8), self.rd(a + 16, 4), self.rd(a + 20, 4)) {
                        if l < 1000 && self.obj((p >> 32) as u32).is_some() {
                            if let Ok(b) = self.cbytes(p as u64, l as usize) {
                                let s = String::from_utf8_lossy(&b).into_owned();
                                loc = format!("{}:{}:{}", s.trim_end_matches('\0'), line, col);
                            }
                        }
                    }
                }
            }
        }
        if args.len() >= 3 {
            if let (V::C(t), V::C(k)) = (&args[0], &args[1]) {
                if k & 1 == 1 && (k >> 1) < 4000 {
                    let n = (k >> 1) as usize;
                    let off = *t as u32 as usize;
                    if let Some(o) = self.obj((*t >> 32) as u32) {
                        if off + n <= o.data.len() {
                            msg = String::from_utf8_lossy(&o.data[off..off + n]).into_owned();
                        }
                    }
                }
            }
        }
        (loc, msg)
    }

    fn call(&mut self, c: &'static ll::Call, f: &'static CFunc, base: usize) -> R<bool> {
        let mut args: Vec<V> = Vec::with_capacity(c.args.len());
        for (o, _) in &c.args {
            args.push(self.o(f, base, *o));
        }
        let tid = match &c.callee {
            ll::Callee::Direct(n) => {
                let k = c.cache.get();
                if k != 0 {
                    k
                } else {
                    let k = self.resolve(n);
                    c.cache.set(k);
                    k
                }
            }
            ll::Callee::Indirect(o) => {
                let v = self.o(f, base, *o);
                let a = self.conc(&v)? as u64;
                let id = (a >> 32) as u32;
                let nm: Rc<str> = if a as u32 == 0 && id >= FN_ID && id < FN_ID + self.m.func_src.len() as u32 {
                    self.m.func_src[(id - FN_ID) as usize].0.clone()
                } else if a as u32 == 0 && id >= EXT_ID && id < EXT_ID + self.ext_names.len() as u32 {
                    self.ext_names[(id - EXT_ID) as usize].clone()
                } else {
                    return Err(self.bad_access("call", a, 0));
                };
                self.resolve(&nm)
            }
            ll::Callee::Asm(same) => {
                // an empty template hands its operand back (an optimisation barrier);
                // cpuid and friends: all zero
                let z = if *same && args.len() == 1 { args[0].clone() } else { self.zero_of(c.ret) };
                if let Some(d) = c.d {
                    self.regs[base + d as usize] = z;
                }
                if let Some(n) = c.normal {
                    self.jump(n);
                }
                return Ok(false);
            }
        };
        match self.targets[tid as usize - 1] {
            Target::Fn(i) => {
                self.push_frame(i, &args, c.d, c.normal)?;
            }
            Target::Redir { real, to, kind } => {
                let symb = match kind {
                    0 => {
                        let a = self.conc(&args[0])? as u64;
                        self.region_sym(a, 8)
                    }
                    _ => {
                        // (ret ptr?, str ptr, str len) -- the string is the last two arguments
                        let n = args.len();
                        let a = self.conc(&args[n - 2])? as u64;
                        let l = self.conc(&args[n - 1])? as usize;
                        l > 0 && self.region_sym(a, l)
                    }
                };
                self.push_frame(if symb { to } else { real }, &args, c.d, c.normal)?;
            }
            Target::Nat(nf) => {
                let v = nf(self, &args, c)?;
                if let Some(d) = c.d {
                    self.regs[base + d as usize] = v;
                }
                if let Some(n) = c.normal {
                    self.jump(n);
                }
            }
            Target::Panic => {
                let (loc, msg) = self.panic_info(&args);
                if self.allow_panic {
                    return Err(Box::new(Stop::PanicOk));
                }
                return Err(self.fail("panic", &loc, &msg));
            }
            Target::Bad(i) => {
                let n = self.ext_names[i as usize].clone();
                return inc(format!("unsupported external function {}", n));
            }
        }
        Ok(false)
    }

    pub fn run_entry(&mut self, entry: &str) -> R<()> {
        let id = match self.m.func_idx.get(entry) {
            Some(i) => *i,
            None => return inc(format!("no entry {}", entry)),
        };
        self.push_frame(id, &[], None, None)?;
        loop {
            if self.step()? {
                return Ok(());
            }
        }
    }

    /// run one basic block's worth; true when the entry function returned
    fn step(&mut self) -> R<bool> {
        let fr = self.frames.last_mut().unwrap();
        let f: &'static CFunc = fr.f;
        let base = fr.base as usize;
        let blk: &'static Vec<I> = &f.f.blocks[fr.blk as usize];
        let mut pc = fr.pc as usize;
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                self.regs[base + $d as usize] = v;
            }};
        }
        loop {
            let ins = &blk[pc];
            pc += 1;
            self.instrs += 1;
            if self.instrs & 0xffff == 0 {
                self.tick(false)?;
                if self.instrs > self.hang_at {
                    return Err(self.fail("hang", "hang", "instruction budget of the guarded region exceeded"));
                }
                if self.instrs > self.cfg.path_limit {
                    return inc("path instruction limit");
                }
            }
            match ins {
                I::Bin { op, ty, w, d, a, b } => {
                    let x = self.o(f, base, *a);
                    let y = self.o(f, base, *b);
                    if let (V::C(p), V::C(q)) = (&x, &y) {
                        // fast paths
                        let r = match op {
                            BinOp::Add => Some(p.wrapping_add(*q) & mask(*w)),
                            BinOp::Sub => Some(p.wrapping_sub(*q) & mask(*w)),
                            BinOp::And => Some(p & q),
                            BinOp::Or => Some(p | q),
                            BinOp::Xor => Some(p ^ q),
                            _ => None,
                        };
                        if let Some(r) = r {
                            if !matches!(self.m.types.get(*ty), Ty::Vec(..)) {
                                self.regs[base + *d as usize] = V::C(r);
                                continue;
                            }
                        }
                    }
                    if let Ty::Vec(n, _) = self.m.types.get(*ty) {
                        let n = *n;
                        let (l, m) = (self.lanes(&x, n, *w)?, self.lanes(&y, n, *w)?);
                        let mut o = Vec::with_capacity(n as usize);
                        for i in 0..n as usize {
                            o.push(self.bin1(*op, *w, &l[i], &m[i])?);
                        }
                        set!(*d, V::A(Rc::new(o)));
                    } else {
                        set!(*d, self.bin1(*op, *w, &x, &y)?);
                    }
                }
                I::Icmp { p, ty, w, d, a, b } => {
                    let x = self.o(f, base, *a);
                    let y = self.o(f, base, *b);
                    if let Ty::Vec(n, _) = self.m.types.get(*ty) {
                        let n = *n;
                        let (l, m) = (self.lanes(&x, n, *w)?, self.lanes(&y, n, *w)?);
                        let mut o = Vec::with_capacity(n as usize);
                        for i in 0..n as usize {
                            o.push(self.icmp1(*p, *w, &l[i], &m[i])?);
                        }
                        set!(*d, V::A(Rc::new(o)));
                    } else {
                        set!(*d, self.icmp1(*p, *w, &x, &y)?);
                    }
                }
                I::Fcmp { p, ty, d, a, b } => {
                    let x = self.o(f, base, *a);
                    let y = self.o(f, base, *b);
                    let w = self.m.types.bits(*ty);
                    let r = match (&x, &y) {
                        (V::C(x), V::C(y)) => V::C(eval_op(Op::FCmp, 1, *p as u64, [w, w, 0], [*x, *y, 0])),
                        (V::A(_), _) => return inc("vector fcmp"),
                        _ => {
                            let (x, y) = (self.e(&x, w), self.e(&y, w));
                            let r = self.p.fop(Op::FCmp, 1, &[x, y], *p as u64);
                            self.v(r)
                        }
                    };
                    set!(*d, r);
                }
                I::Cast { op, from, to, d, a } => {
                    let x = self.o(f, base, *a);
                    set!(*d, self.cast(*op, *from, *to, &x)?);
                }
                I::FNeg { ty, d, a } => {
                    let x = self.o(f, base, *a);
                    let w = self.m.types.bits(*ty);
                    set!(*d, self.bin1(BinOp::Xor, w, &x, &V::C(1 << (w - 1)))?);
                }
                I::Load { ty, d, p } => {
                    let a = self.o(f, base, *p);
                    set!(*d, self.load(*ty, &a)?);
                }
                I::Store { ty, v, p } => {
                    let a = self.o(f, base, *p);
                    let a = self.conc(&a)? as u64;
                    let v = self.o(f, base, *v);
                    self.store(*ty, &v, a)?;
                }
                I::Gep { d, base: b, off, idx } => {
                    let bv = self.o(f, base, *b);
                    if idx.is_empty() {
                        if let V::C(x) = bv {
                            set!(*d, V::C((x as u64).wrapping_add(*off as u64) as u128));
                            continue;
                        }
                    }
                    let mut acc = match &bv {
                        V::C(x) => V::C((*x as u64).wrapping_add(*off as u64) as u128),
                        x => self.bin1(BinOp::Add, 64, x, &V::C(*off as u64 as u128))?,
                    };
                    for (o, w, sc) in idx {
                        let i = self.o(f, base, *o);
                        match (&acc, &i) {
                            (V::C(a), V::C(i)) => {
                                let k = (sx(*i, *w) as i64).wrapping_mul(*sc);
                                acc = V::C((*a as u64).wrapping_add(k as u64) as u128);
                            }
                            _ => {
                                let i = self.cast1(CastOp::SExt, *w, 64, &i)?;
                                let k = self.bin1(BinOp::Mul, 64, &i, &V::C(*sc as u64 as u128))?;
                                acc = self.bin1(BinOp::Add, 64, &acc, &k)?;
                            }
                        }
                    }
                    set!(*d, acc);
                }
                I::Alloca { d, size, count } => {
                    let mut n = *size;
                    if let Some((o, _)) = count {
                        let c = self.o(f, base, *o);
                        n *= self.conc(&c)? as u64;
                    }
                    let a = self.alloc_stack(n);
                    set!(*d, V::C(a as u128));
                }
                I::Select { d, ty, c, a, b, .. } => {
                    let cv = self.o(f, base, *c);
                    let x = self.o(f, base, *a);
                    let y = self.o(f, base, *b);
                    set!(*d, self.select(*ty, &cv, &x, &y)?);
                }
                I::Call(c) => {
                    self.frames.last_mut().unwrap().pc = pc as u32;
                    let nf = self.frames.len();
                    let c: &'static ll::Call = &**c;
                    self.call(c, f, base)?;
                    if self.frames.len() != nf || c.normal.is_some() {
                        return Ok(false);
                    }
                }
                I::ExtractValue { d, a, path } => {
                    let mut v = self.o(f, base, *a);
                    for &i in path {
                        v = match &v {
                            V::A(l) => l[i as usize].clone(),
                            _ => return inc("extractvalue of scalar"),
                        };
                    }
                    set!(*d, v);
                }
                I::InsertValue { d, ty, a, v, path } => {
                    let x = self.o(f, base, *a);
                    let x = match x {
                        V::A(_) => x,
                        _ => self.zero_of(*ty),
                    };
                    let v = self.o(f, base, *v);
                    fn ins(x: &V, path: &[u32], v: V) -> V {
                        match x {
                            V::A(l) => {
                                let mut n: Vec<V> = (**l).clone();
                                let i = path[0] as usize;
                                n[i] = if path.len() == 1 { v } else { ins(&n[i], &path[1..], v) };
                                V::A(Rc::new(n))
                            }
                            _ => v,
                        }
                    }
                    set!(*d, ins(&x, path, v));
                }
                I::ExtractElement { d, a, i, .. } => {
                    let l = self.o(f, base, *a);
                    let i = self.o(f, base, *i);
                    let i = self.conc(&i)? as usize;
                    let v = match &l {
                        V::A(l) => l[i].clone(),
                        _ => return inc("extractelement"),
                    };
                    set!(*d, v);
                }
                I::InsertElement { d, ty, a, v, i } => {
                    let l = self.o(f, base, *a);
                    let l = match l {
                        V::A(_) => l,
                        _ => self.zero_of(*ty),
                    };
                    let i = self.o(f, base, *i);
                    let i = self.conc(&i)? as usize;
                    let v = self.o(f, base, *v);
                    let mut n = match &l {
                        V::A(l) => (**l).clone(),
                        _ => vec![],
                    };
                    n[i] = v;
                    set!(*d, V::A(Rc::new(n)));
                }
                I::Shuffle { d, ty, a, b, mask } => {
                    let (n, t) = match self.m.types.get(*ty) {
                        Ty::Vec(n, t) => (*n, *t),
                        _ => return inc("shuffle"),
                    };
                    let w = self.m.types.bits(t);
                    let x = self.o(f, base, *a);
                    let y = self.o(f, base, *b);
                    let (l, m) = (self.lanes(&x, n, w)?, self.lanes(&y, n, w)?);
                    let o: Vec<V> = mask
                        .iter()
                        .map(|k| {
                            let k = *k as usize;
                            if k < l.len() {
                                l[k].clone()
                            } else {
                                m.get(k - l.len()).cloned().unwrap_or(V::C(0))
                            }
                        })
                        .collect();
                    set!(*d, V::A(Rc::new(o)));
                }
                I::AtomicRmw { d, op, ty, p, v } => {
                    let a = self.o(f, base, *p);
                    let a = self.conc(&a)? as u64;
                    let old = self.load(*ty, &V::C(a as u128))?;
                    let v = self.o(f, base, *v);
                    let w = self.m.types.bits(*ty);
                    let nv = match op {
                        0 => v,
                        1 => self.bin1(BinOp::Add, w, &old, &v)?,
                        2 => self.bin1(BinOp::Sub, w, &old, &v)?,
                        3 => self.bin1(BinOp::And, w, &old, &v)?,
                        5 => self.bin1(BinOp::Or, w, &old, &v)?,
                        6 => self.bin1(BinOp::Xor, w, &old, &v)?,
                        9 => {
                            let c = self.icmp1(Pred::Ugt, w, &old, &v)?;
                            self.select(*ty, &c, &old, &v)?
                        }
                        _ => return inc("atomicrmw"),
                    };
                    self.store(*ty, &nv, a)?;
                    set!(*d, old);
                }
                I::CmpXchg { d, ty, p, cmp, new } => {
                    let a = self.o(f, base, *p);
                    let a = self.conc(&a)? as u64;
                    let old = self.load(*ty, &V::C(a as u128))?;
                    let c = self.o(f, base, *cmp);
                    let w = self.m.types.bits(*ty);
                    let q = self.icmp1(Pred::Eq, w, &old, &c)?;
                    let ok = match q {
                        V::C(x) => x != 0,
                        V::S(e) => self.branch(e)?,
                        _ => false,
                    };
                    if ok {
                        let nv = self.o(f, base, *new);
                        self.store(*ty, &nv, a)?;
                    }
                    set!(*d, V::A(Rc::new(vec![old, V::C(ok as u128)])));
                }
                I::Nop => {}
                I::Copy { d, a } => {
                    let v = self.o(f, base, *a);
                    set!(*d, v);
                }
                I::LandingPad { .. } | I::Resume => return inc("unwinding"),
                I::Br(e) => {
                    self.jump(*e);
                    return Ok(false);
                }
                I::CondBr { c, t, f: fe } => {
                    let v = self.o(f, base, *c);
                    let b = match v {
                        V::C(x) => x != 0,
                        V::S(e) => self.branch(e)?,
                        _ => return inc("condbr"),
                    };
                    self.jump(if b { *t } else { *fe });
                    return Ok(false);
                }
                I::Switch { c, w, cases, def } => {
                    let v = self.o(f, base, *c);
                    match v {
                        V::C(x) => {
                            let mut e = *def;
                            for (k, t) in cases {
                                if *k & mask(*w) == x {
                                    e = *t;
                                    break;
                                }
                            }
                            self.jump(e);
                        }
                        V::S(ve) => {
                            // group the cases by destination block when no phi tells them apart
                            let mut groups: Vec<(u32, E)> = vec![];
                            for (k, t) in cases {
                                let kc = self.p.c(*w, *k);
                                let q = self.p.eq(ve, kc);
                                if self.p.cval(q) == Some(0) {
                                    continue;
                                }
                                let ed = &f.f.edges[*t as usize];
                                let mut done = false;
                                for g in groups.iter_mut() {
                                    let ge = &f.f.edges[g.0 as usize];
                                    if ge.target == ed.target && ge.copies == ed.copies {
                                        g.1 = self.p.or(g.1, q);
                                        done = true;
                                        break;
                                    }
                                }
                                if !done {
                                    groups.push((*t, q));
                                }
                            }
                            let mut dest = *def;
                            for (t, q) in groups {
                                if self.branch(q)? {
                                    dest = t;
                                    break;
                                }
                            }
                            self.jump(dest);
                        }
                        _ => return inc("switch"),
                    }
                    return Ok(false);
                }
                I::Ret(o) => {
                    let v = match o {
                        Some(o) => self.o(f, base, *o),
                        None => V::C(0),
                    };
                    return Ok(self.ret(v));
                }
                I::Unreachable => {
                    let n = f.f.name.to_string();
                    return Err(self.fail("memory", "unreachable", &n));
                }
            }
        }
    }

    /// finish the current path: account, sample, log
    pub fn finish(&mut self, r: R<()>) -> ! {
        self.flush();
        let sh = self.sys.sh;
        sh.max_vars.fetch_max(self.p.vars.len() as u64, Relaxed);
        let st = match r {
            Ok(()) => Stop::Ok,
            Err(s) => *s,
        };
        let ei = self.entry_idx.min(31) * 4;
        match st {
            Stop::Ok | Stop::PanicOk | Stop::Violation => {
                match st {
                    Stop::Ok => sh.paths_ok.fetch_add(1, Relaxed),
                    Stop::PanicOk => sh.paths_panic_ok.fetch_add(1, Relaxed),
                    _ => sh.paths_violation.fetch_add(1, Relaxed),
                };
                sh.reach[ei].fetch_add(1, Relaxed);
                let n = sh.reach[ei + 3].fetch_add(1, Relaxed);
                let kind = if matches!(st, Stop::Ok) { "ok" } else if matches!(st, Stop::PanicOk) { "panic" } else { "" };
                let seed = self.cfg.seed;
                let take = n < self.cfg.samples / 2 || (n.is_power_of_two()) || (self.path_hash ^ seed).wrapping_mul(0x9e3779b97f4a7c15) >> 56 == 0 && n < self.cfg.samples * 40;
                if kind != "" && self.path_violations == 0 && take && self.incomplete.is_none() {
                    let ins = self.inputs_json(&[]);
                    let mut o = String::from("[");
                    let obs = std::mem::take(&mut self.obs);
                    for (i, b) in obs.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        let mut h = String::new();
                        for v in b {
                            h.push_str(&format!("{:02x}", self.eval_v(v) as u8));
                        }
                        o.push_str(&jstr(&h));
                    }
                    o.push(']');
                    self.sys.log(&format!("{{\"kind\":\"sample\",\"entry\":{},\"end\":{},\"inputs\":{},\"obs\":{}}}", jstr(&self.entry.clone()), jstr(kind), ins, o));
                }
                if let Some(r) = self.incomplete.clone() {
                    sh.incomplete.fetch_add(1, Relaxed);
                    sh.reach[ei + 1].fetch_add(1, Relaxed);
                    self.log_incomplete(&r);
                }
            }
            Stop::Assume => {
                sh.paths_assume.fetch_add(1, Relaxed);
            }
            Stop::Inc(r) => {
                sh.paths_incomplete.fetch_add(1, Relaxed);
                sh.reach[ei + 1].fetch_add(1, Relaxed);
                self.log_incomplete(&r);
            }
        }
        self.sys.finish()
    }
    fn log_incomplete(&mut self, r: &str) {
        let key = (hash_str(&format!("inc{}{}", self.entry, r)) % 256) as usize;
        if self.sys.sh.vhash[key].fetch_add(1, SeqCst) < 2 {
            let bt = self.backtrace();
            self.sys.log(&format!("{{\"kind\":\"incomplete\",\"entry\":{},\"reason\":{},\"bt\":{}}}", jstr(&self.entry.clone()), jstr(r), jstr(&bt)));
        }
    }
    pub fn func_names(&self) -> Vec<String> {
        let mut v = vec![];
        for i in 0..self.m.func_src.len() {
            if self.sys.sh.fnbits[(i / 64) % 512].load(Relaxed) >> (i % 64) & 1 == 1 {
                v.push(self.m.func_src[i].0.to_string());
            }
        }
        v
    }

    // ------------------------------------------------------------ hooks used by natives

    pub fn n_malloc(&mut self, n: u64) -> u64 {
        if n > 1 << 31 {
            return 0;
        }
        self.alloc(n)
    }
    pub fn n_free(&mut self, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let id = (a >> 32) as u32;
        match self.obj_mut(id) {
            Some(o) if id < FN_ID && a as u32 == 0 && !o.freed => {
                o.freed = true;
                o.data = vec![];
                o.sym = None;
                Ok(())
            }
            _ => Err(self.bad_access("free", a, 0)),
        }
    }
    pub fn n_realloc(&mut self, a: u64, n: u64) -> R<u64> {
        if a == 0 {
            return Ok(self.n_malloc(n));
        }
        let id = (a >> 32) as u32;
        let (mut data, mut sym) = match self.obj_mut(id) {
            Some(o) if !o.freed => (std::mem::take(&mut o.data), o.sym.take()),
            _ => return Err(self.bad_access("realloc", a, 0)),
        };
        self.obj_mut(id).unwrap().freed = true;
        data.resize(n as usize, 0);
        if let Some(s) = &mut sym {
            s.resize(n as usize, 0);
        }
        self.heap.push(Obj { data, sym, konst: false, freed: false });
        Ok((self.heap.len() as u64) << 32)
    }
    pub fn n_copy(&mut self, d: &V, s: &V, n: &V) -> R<()> {
        let n = self.conc(n)? as usize;
        if n == 0 {
            return Ok(());
        }
        let d = self.conc(d)? as u64;
        if let V::S(e) = s {
            let e = *e;
            if n <= 8 {
                let v = self.rd_sym(e, n)?;
                return self.wr(d, n, &v);
            }
        }
        let s = self.conc(s)? as u64;
        self.copy(d, s, n)
    }
    pub fn n_set(&mut self, d: &V, b: &V, n: &V) -> R<()> {
        let n = self.conc(n)? as usize;
        let d = self.conc(d)? as u64;
        if n == 0 {
            return Ok(());
        }
        match b {
            V::C(x) => {
                let x = *x as u8;
                let off = d as u32 as usize;
                let ok = match self.obj_mut((d >> 32) as u32) {
                    Some(o) if off + n <= o.data.len() && !o.konst => {
                        o.data[off..off + n].fill(x);
                        if let Some(s) = &mut o.sym {
                            s[off..off + n].fill(0);
                        }
                        true
                    }
                    _ => false,
                };
                if !ok {
                    return Err(self.bad_access("set", d, n));
                }
                Ok(())
            }
            v => {
                for i in 0..n as u64 {
                    self.wr(d + i, 1, v)?;
                }
                Ok(())
            }
        }
    }
    /// equality of two byte ranges as one term
    pub fn n_eq(&mut self, a: u64, b: u64, n: usize) -> R<V> {
        if !self.region_sym(a, n) && !self.region_sym(b, n) {
            let x = self.bytes_at(a, n)?;
            let y = self.bytes_at(b, n)?;
            return Ok(V::C(x.iter().zip(y.iter()).all(|(p, q)| cint(p) == cint(q)) as u128));
        }
        let mut r = self.p.c(1, 1);
        let mut i = 0;
        while i < n {
            let k = (n - i).min(16);
            let x = self.rd(a + i as u64, k)?;
            let y = self.rd(b + i as u64, k)?;
            let (x, y) = (self.e(&x, 8 * k as u32), self.e(&y, 8 * k as u32));
            let q = self.p.eq(x, y);
            r = self.p.and(r, q);
            if self.p.cval(r) == Some(0) {
                break;
            }
            i += k;
        }
        Ok(self.v(r))
    }
    pub fn n_memcmp(&mut self, a: u64, b: u64, n: usize) -> R<V> {
        let mut r = self.p.c(32, 0);
        if !self.region_sym(a, n) && !self.region_sym(b, n) {
            for i in 0..n as u64 {
                let (x, y) = (self.rd(a + i, 1)?, self.rd(b + i, 1)?);
                let (x, y) = (cint(&x).unwrap(), cint(&y).unwrap());
                if x != y {
                    return Ok(V::C(if x < y { 0xffff_ffff } else { 1 }));
                }
            }
            return Ok(V::C(0));
        }
        for i in (0..n as u64).rev() {
            let (x, y) = (self.rd(a + i, 1)?, self.rd(b + i, 1)?);
            let (x, y) = (self.e(&x, 8), self.e(&y, 8));
            let lt = self.p.ult(x, y);
            let eq = self.p.eq(x, y);
            let m = self.p.c(32, 0xffff_ffff);
            let one = self.p.c(32, 1);
            let s = self.p.ite(lt, m, one);
            r = self.p.ite(eq, r, s);
        }
        Ok(self.v(r))
    }
    pub fn n_conc(&mut self, v: &V) -> R<u128> {
        self.conc(v)
    }
    pub fn n_str(&mut self, a: &V, n: &V) -> R<String> {
        self.cstr(a, n)
    }
    pub fn n_bin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> R<V> {
        self.bin1(op, w, a, b)
    }
    pub fn n_icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> R<V> {
        self.icmp1(p, w, a, b)
    }
    pub fn n_ite(&mut self, c: &V, a: &V, b: &V, w: u32) -> V {
        match c {
            V::C(x) => {
                if *x != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            V::S(e) => self.ite(*e, a, b, w),
            _ => a.clone(),
        }
    }
    pub fn n_rd(&mut self, a: u64, n: usize) -> R<V> {
        self.rd(a, n)
    }
    pub fn n_wr(&mut self, a: u64, n: usize, v: &V) -> R<()> {
        self.wr(a, n, v)
    }
    pub fn n_is_sym(&self, a: u64, n: usize) -> bool {
        self.region_sym(a, n)
    }
    pub fn n_lanes(&mut self, v: &V, n: u32, w: u32) -> R<Rc<Vec<V>>> {
        self.lanes(v, n, w)
    }
    pub fn n_errno(&mut self) -> u64 {
        if self.errno == 0 {
            self.errno = self.alloc(8);
        }
        self.errno
    }
    fn fresh(&mut self, name: &str, w: u32, lo: u128, hi: u128) -> E {
        let id = self.p.vars.len();
        let e = self.p.new_var(name, w, lo, hi);
        // initial value: pseudo-random inside the range
        let h = (hash_str(name) ^ (id as u64).wrapping_mul(0x9e3779b97f4a7c15)).wrapping_add(self.cfg.seed.wrapping_mul(0xd1b54a32d192ed03));
        let h = (h ^ (h >> 31)).wrapping_mul(0x94d049bb133111eb);
        let h = (h ^ (h >> 30)) as u128;
        let span = hi - lo;
        let val = if span == u128::MAX { h } else if span >= u64::MAX as u128 { lo + h } else { lo + h % (span + 1) };
        self.model.push(val);
        self.multi.push(false);
        self.p.new_gen();
        e
    }
    pub fn n_sym(&mut self, name: &str, lo: u64, hi: u64) -> R<V> {
        if lo > hi {
            return inc("bad range");
        }
        let w = if hi < 256 {
            8
        } else if hi < 65536 {
            16
        } else if hi < 1 << 32 {
            32
        } else {
            64
        };
        let e = self.fresh(name, w, lo as u128, hi as u128);
        let e = self.p.zext(e, 64);
        let v = self.v(e);
        self.inputs.push(Input::U64(name.to_string(), v.clone()));
        Ok(v)
    }
    pub fn n_dec(&mut self, name: &str, nd: u32) -> R<V> {
        let mut d = vec![];
        let zeros = nd & 256 != 0;
        let nd = nd & 255;
        for i in 0..nd {
            let lo = if !zeros && i == nd - 1 && nd > 1 { 1 } else { 0 };
            d.push(self.fresh(&format!("{}.{}", name, i), 8, lo, 9));
        }
        let e = self.p.mk_dec(&d, 64);
        let v = self.v(e);
        self.inputs.push(Input::U64(name.to_string(), v.clone()));
        Ok(v)
    }
    pub fn n_choose(&mut self, name: &str, n: u64) -> R<V> {
        if n == 0 {
            return inc("choose 0");
        }
        // explicit enumeration, one process per alternative
        let mut pick = n - 1;
        for i in 0..n - 1 {
            self.flush();
            if self.split()? {
                pick = i;
                break;
            }
        }
        self.path_hash = self.path_hash.wrapping_mul(131).wrapping_add(pick + 7);
        self.inputs.push(Input::U64(name.to_string(), V::C(pick as u128)));
        Ok(V::C(pick as u128))
    }
    pub fn n_bytes(&mut self, name: &str, a: u64, n: usize, lo: u8, hi: u8) -> R<()> {
        let mut vs = vec![];
        for i in 0..n {
            let e = self.fresh(&format!("{}[{}]", name, i), 8, lo as u128, hi as u128);
            let v = self.v(e);
            self.wr(a + i as u64, 1, &v)?;
            vs.push(v);
        }
        self.inputs.push(Input::Bytes(name.to_string(), vs));
        Ok(())
    }
    pub fn n_assume(&mut self, c: &V) -> R<()> {
        let c = &self.truth(c);
        match c {
            V::C(0) => Err(Box::new(Stop::Assume)),
            V::C(_) => Ok(()),
            V::S(e) => {
                let e = *e;
                if self.p.eval(e, &self.model) == 0 {
                    match self.sat_with(e)? {
                        None => return Err(Box::new(Stop::Assume)),
                        Some(w) => self.apply(&w),
                    }
                }
                self.add_cons(e);
                Ok(())
            }
            _ => inc("assume"),
        }
    }
    fn truth(&mut self, c: &V) -> V {
        match c {
            V::C(x) => V::C((*x != 0) as u128),
            V::S(e) => {
                let w = self.p.w(*e);
                let z = self.p.c(w, 0);
                let r = self.p.ne(*e, z);
                self.v(r)
            }
            o => o.clone(),
        }
    }
    pub fn n_check(&mut self, c: &V, id: &str) -> R<()> {
        let c = self.truth(c);
        self.check(&c, id)
    }
    pub fn n_reach(&mut self, l: &str) {
        self.reach(l)
    }
    pub fn n_observe(&mut self, a: u64, n: usize) -> R<()> {
        let b = self.bytes_at(a, n)?;
        self.obs.push(b);
        Ok(())
    }
    pub fn n_allow_panic(&mut self, b: bool) {
        self.allow_panic = b;
    }
    pub fn n_limit(&mut self, n: u64) {
        self.hang_at = if n == 0 { u64::MAX } else { self.instrs.saturating_add(n) };
    }
    pub fn n_tier(&self) -> u64 {
        self.cfg.tier
    }
    pub fn n_incomplete<T>(&self, r: &str) -> R<T> {
        inc(r)
    }
    pub fn n_panic(&mut self, what: &str) -> Box<Stop> {
        if self.allow_panic {
            return Box::new(Stop::PanicOk);
        }
        self.fail("panic", what, "")
    }
    /// branch from a native
    pub fn n_branch(&mut self, c: &V) -> R<bool> {
        let c = self.truth(c);
        match &c {
            V::C(x) => Ok(*x != 0),
            V::S(e) => self.branch(*e),
            _ => inc("branch"),
        }
    }
    /// a double of the form (integer as f64) / 10^k or (integer as f64)
    pub fn n_f64_parts(&mut self, v: &V) -> Option<(V, u32)> {
        let e = match v {
            V::S(e) => *e,
            _ => return None,
        };
        let p = &self.p;
        match p.op(e) {
            Op::SToF => Some((V::S(p.kid(e, 0)), 0)),
            Op::FDiv => {
                let (a, b) = (p.kid(e, 0), p.kid(e, 1));
                if p.op(a) != Op::SToF {
                    return None;
                }
                let d = f64::from_bits(p.cval(b)? as u64);
                if d < 1.0 || d > 1e22 || d.fract() != 0.0 {
                    return None;
                }
                let k = pow10(d as u128)?;
                Some((V::S(p.kid(a, 0)), k))
            }
            _ => None,
        }
    }
    pub fn width(&self, v: &V) -> u32 {
        match v {
            V::S(e) => self.p.w(*e),
            _ => 64,
        }
    }
    pub fn srange(&self, v: &V, w: u32) -> (i128, i128) {
        match v {
            V::S(e) => (self.p.slo(*e), self.p.shi(*e)),
            V::C(x) => (sx(*x, w), sx(*x, w)),
            _ => (0, 0),
        }
    }
    pub fn ebits(&self, t: TyId) -> u32 {
        match self.m.types.get(t) {
            Ty::Vec(_, e) => self.m.types.bits(*e),
            _ => self.m.types.bits(t),
        }
    }
    pub fn vecn(&self, t: TyId) -> Option<u32> {
        match self.m.types.get(t) {
            Ty::Vec(n, _) => Some(*n),
            _ => None,
        }
    }
    pub fn caller(&self) -> String {
        self.frames.last().map(|f| f.f.f.name.to_string()).unwrap_or_default()
    }
}

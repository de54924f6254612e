//! Random differential test of the term builders, the evaluator and the SMT translation.
use crate::expr::*;
use crate::solver::*;

struct R(u64);
impl R {
    fn n(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, k: u64) -> u64 {
        (self.n() >> 11) % k
    }
    fn val(&mut self, w: u32) -> u128 {
        let r = self.n() as u128 | ((self.n() as u128) << 64);
        let v = match self.below(5) {
            0 => r,
            1 => r & 0xff,
            2 => (r & 7).wrapping_neg(),
            3 => 1u128 << (r % w as u128),
            _ => (1u128 << (r % w as u128)).wrapping_sub(1),
        };
        v & mask(w)
    }
}

pub fn run(iters: u64, seed: u64) -> u64 {
    let mut bad = 0;
    for it in 0..iters {
        let mut z = if it % 4 == 0 { Some(Z3::new()) } else { None };
        let ok = one(seed.wrapping_add(it.wrapping_mul(0x9E3779B97F4A7C15)) | 1, &mut z);
        if let Some(z) = z.as_mut() {
            z.close();
        }
        if !ok {
            bad += 1;
            if bad > 5 {
                break;
            }
        }
    }
    eprintln!("selftest: {} cases, {} bad", iters, bad);
    bad
}

fn one(seed: u64, z: &mut Option<Z3>) -> bool {
    let mut r = R(seed);
    for _ in 0..8 {
        r.n();
    }
    let mut p = Pool::new();
    let nm = 6usize;
    let mut models: Vec<Vec<u128>> = vec![vec![]; nm];
    // (term, value per model)
    let mut pool: Vec<(E, Vec<u128>)> = vec![];
    let nv = 1 + r.below(4);
    for i in 0..nv {
        let w = [8u32, 8, 16, 32, 64, 1][r.below(6) as usize];
        let (lo, hi) = match r.below(4) {
            0 if w == 8 => (0x20, 0x7e),
            1 if w == 8 => (0, 9),
            2 if w >= 8 => {
                let a = r.val(w);
                let b = r.val(w);
                (a.min(b), a.max(b))
            }
            _ => (0, mask(w)),
        };
        let e = p.new_var(&format!("v{}", i), w, lo, hi);
        let mut vs = vec![];
        for m in models.iter_mut() {
            let x = match r.below(3) {
                0 => lo,
                1 => hi,
                _ => {
                    if hi - lo == mask(64) {
                        r.n() as u128
                    } else {
                        lo + r.n() as u128 % (hi - lo + 1)
                    }
                }
            };
            m.push(x);
            vs.push(x);
        }
        pool.push((e, vs));
    }
    let steps = 4 + r.below(24);
    for _ in 0..steps {
        let pick = |r: &mut R, pool: &Vec<(E, Vec<u128>)>| -> (E, Vec<u128>) {
            let n = pool.len() as u64;
            let i = if r.below(2) == 0 { n - 1 - r.below(n.min(4)) } else { r.below(n) };
            pool[i as usize].clone()
        };
        let (a, av) = pick(&mut r, &pool);
        let w = p.w(a);
        // second operand of equal width
        let cands: Vec<usize> = (0..pool.len()).filter(|i| p.w(pool[*i].0) == w).collect();
        let (b, bv) = if r.below(2) == 0 {
            let c = r.val(w);
            let c = if r.below(3) == 0 { [10u128, 100, 7, 0x80, 0x7f, 3][r.below(6) as usize] & mask(w) } else { c };
            (p.c(w, c), vec![c; nm])
        } else {
            pool[cands[r.below(cands.len() as u64) as usize]].clone()
        };
        let k = r.below(30);
        let kw = [w, w, w];
        let ev = |op: Op, ww: u32, imm: u64| -> Vec<u128> { (0..nm).map(|i| eval_op(op, ww, imm, kw, [av[i], bv[i], 0])).collect() };
        let (e, v, d) = match k {
            0 => (p.add(a, b), ev(Op::Add, w, 0), "add"),
            1 => (p.sub(a, b), ev(Op::Sub, w, 0), "sub"),
            2 => (p.mul(a, b), ev(Op::Mul, w, 0), "mul"),
            3 => (p.and(a, b), ev(Op::And, w, 0), "and"),
            4 => (p.or(a, b), ev(Op::Or, w, 0), "or"),
            5 => (p.xor(a, b), ev(Op::Xor, w, 0), "xor"),
            6 => (p.eq(a, b), ev(Op::Eq, 1, 0), "eq"),
            7 => (p.ult(a, b), ev(Op::Ult, 1, 0), "ult"),
            8 => (p.slt(a, b), ev(Op::Slt, 1, 0), "slt"),
            9 => (p.ule(b, a), ev(Op::Ult, 1, 0).iter().map(|x| 1 - x).collect(), "ule"),
            10 => (p.sle(b, a), ev(Op::Slt, 1, 0).iter().map(|x| 1 - x).collect(), "sle"),
            11 | 12 | 13 if bv.iter().all(|x| *x < w as u128) => match k {
                11 => (p.shl(a, b), ev(Op::Shl, w, 0), "shl"),
                12 => (p.lshr(a, b), ev(Op::LShr, w, 0), "lshr"),
                _ => (p.ashr(a, b), ev(Op::AShr, w, 0), "ashr"),
            },
            14 | 15 | 16 | 17 if bv.iter().all(|x| *x != 0) && p.lo(b) > 0 => match k {
                14 => (p.udiv(a, b), ev(Op::UDiv, w, 0), "udiv"),
                15 => (p.urem(a, b), ev(Op::URem, w, 0), "urem"),
                16 => (p.sdiv(a, b), ev(Op::SDiv, w, 0), "sdiv"),
                _ => (p.srem(a, b), ev(Op::SRem, w, 0), "srem"),
            },
            18 | 19 => {
                let ww = w + r.below((65u32.max(w + 1) - w) as u64) as u32;
                if k == 18 {
                    (p.zext(a, ww), av.clone(), "zext")
                } else {
                    (p.sext(a, ww), av.iter().map(|x| sx(*x, w) as u128 & mask(ww)).collect(), "sext")
                }
            }
            20 | 21 => {
                let lo = r.below(w as u64) as u32;
                let n = 1 + r.below((w - lo) as u64) as u32;
                (p.extract(a, lo, n), av.iter().map(|x| (x >> lo) & mask(n)).collect(), "extract")
            }
            22 | 23 => {
                let (c, cv) = pick(&mut r, &pool);
                let cw = p.w(c);
                if w + cw > 64 {
                    continue;
                }
                (p.concat(&[a, c]), (0..nm).map(|i| av[i] | (cv[i] << w)).collect(), "concat")
            }
            24 | 25 => {
                let cs: Vec<usize> = (0..pool.len()).filter(|i| p.w(pool[*i].0) == 1).collect();
                if cs.is_empty() {
                    continue;
                }
                let (c, cv) = pool[cs[r.below(cs.len() as u64) as usize]].clone();
                (p.ite(c, a, b), (0..nm).map(|i| if cv[i] != 0 { av[i] } else { bv[i] }).collect(), "ite")
            }
            26 => (p.not(a), av.iter().map(|x| !x & mask(w)).collect(), "not"),
            27 => (p.neg(a), av.iter().map(|x| x.wrapping_neg() & mask(w)).collect(), "neg"),
            28 => {
                // digit numeral
                let ds: Vec<usize> = (0..pool.len()).filter(|i| p.w(pool[*i].0) == 8 && p.hi(pool[*i].0) <= 9).collect();
                if ds.is_empty() {
                    continue;
                }
                let n = 1 + r.below(6);
                let mut dd = vec![];
                let mut vv = vec![0u128; nm];
                let mut pw = 1u128;
                for _ in 0..n {
                    let (c, cv) = pool[ds[r.below(ds.len() as u64) as usize]].clone();
                    dd.push(c);
                    for i in 0..nm {
                        vv[i] += cv[i] * pw;
                    }
                    pw *= 10;
                }
                (p.mk_dec(&dd, 32), vv, "dec")
            }
            29 if w <= 64 => {
                let f = p.fop(Op::SToF, 64, &[a], 0);
                let fv: Vec<u128> = av.iter().map(|x| (sx(*x, w) as f64).to_bits() as u128).collect();
                if r.below(2) == 0 {
                    let cst = p.c(64, 1e7f64.to_bits() as u128);
                    let g = p.fop(Op::FDiv, 64, &[f, cst], 0);
                    (g, fv.iter().map(|x| (f64::from_bits(*x as u64) / 1e7).to_bits() as u128).collect(), "fdiv")
                } else {
                    (f, fv, "stof")
                }
            }
            _ => continue,
        };
        for i in 0..nm {
            p.new_gen();
            let m = models[i].clone();
            let got = p.eval(e, &m);
            let in_r = got >= p.lo(e) && got <= p.hi(e) && sx(got, p.w(e)) >= p.slo(e) && sx(got, p.w(e)) <= p.shi(e);
            if got != v[i] || !in_r {
                eprintln!("BUILDER {} seed={} w={} a={} b={} -> {}\n  vars {:?}\n  model {:?}: got {} want {} range ok {}", d, seed, w, p.show(a), p.show(b), p.show(e), p.vars.iter().map(|v| (v.w, v.lo, v.hi)).collect::<Vec<_>>(), m, got, v[i], in_r);
                return false;
            }
        }
        if let Some(z) = z.as_mut() {
            if r.below(4) == 0 && k != 29 {
                let i = r.below(nm as u64) as usize;
                let mut cons = vec![];
                for j in 0..models[i].len() {
                    let vn = p.vars[j].node;
                    let (w, x) = (p.vars[j].w, models[i][j]);
                    let c = p.c(w, x);
                    // raw equality so that the solver does the work
                    cons.push(p.raw_eq(vn, c));
                }
                let c = p.c(p.w(e), v[i]);
                let q = p.raw_eq(e, c);
                let nq = p.raw_not(q);
                for (t, want) in [(q, true), (nq, false)] {
                    let mut es = cons.clone();
                    es.push(t);
                    let ok = match z.check(&mut p, &es, 10_000_000) {
                        Res::Sat(_) => want,
                        Res::Unsat => !want,
                        Res::Unknown => true,
                    };
                    if !ok {
                        eprintln!("SMT {} seed={} want {} model {:?}: {}\n{}", d, seed, want, models[i], p.show(e), z.show(&p, t));
                        return false;
                    }
                }
            }
        }
        pool.push((e, v));
    }
    true
}

/// linear forms: division, remainder and equality of sums of scaled small variables
pub fn linear(iters: u64, seed: u64) -> u64 {
    let mut bad = 0;
    for it in 0..iters {
        let mut r = R(seed.wrapping_add(it.wrapping_mul(0x9E3779B97F4A7C15)) | 1);
        for _ in 0..8 {
            r.n();
        }
        let mut p = Pool::new();
        let w = if r.below(3) == 0 { 32 } else { 64 };
        let ds = [2i128, 7, 60, 100, 3600, 86400, 146097];
        let d = ds[r.below(7) as usize];
        let n = 1 + r.below(4);
        let vars: Vec<E> = (0..n)
            .map(|i| {
                let lo = r.below(3) as u128;
                let hi = lo + 1 + r.below(400) as u128;
                let vw = if hi > 255 { 16 } else { 8 };
                p.new_var(&format!("v{}", i), vw, lo, hi)
            })
            .collect();
        let ks: Vec<i128> = (0..n)
            .map(|_| match r.below(4) {
                0 => d,
                1 => d * (1 + r.below(50) as i128),
                2 => 1,
                _ => r.below(100) as i128 - 50,
            })
            .collect();
        let c = match r.below(3) {
            0 => 0,
            1 => r.below(1_000_000) as i128,
            _ => -(r.below(100_000_000) as i128),
        };
        let mut sum = |p: &mut Pool, rev: bool| -> E {
            let mut e = p.c(w, (c as u128) & mask(w));
            let mut ix: Vec<usize> = (0..vars.len()).collect();
            if rev {
                ix.reverse();
            }
            for i in ix {
                let x = p.zext(vars[i], w);
                let k = p.c(w, (ks[i] as u128) & mask(w));
                let m = p.mul(x, k);
                e = if rev { p.add(m, e) } else { p.add(e, m) };
            }
            e
        };
        let a = sum(&mut p, false);
        let b = sum(&mut p, true);
        let dc = p.c(w, d as u128);
        let (q, m, uq, um, eq) = (p.sdiv(a, dc), p.srem(a, dc), p.udiv(a, dc), p.urem(a, dc), p.eq(a, b));
        for _ in 0..12 {
            let model: Vec<u128> = p.vars.iter().map(|v| v.lo + (r.n() as u128) % (v.hi - v.lo + 1)).collect();
            let mut s = c;
            for i in 0..vars.len() {
                s += ks[i] * model[i] as i128;
            }
            let mw = |x: i128| (x as u128) & mask(w);
            let u = mw(s) as i128;
            let s = sx(mw(s), w);
            p.new_gen();
            let got: Vec<u128> = [q, m, uq, um, eq].iter().map(|e| p.eval(*e, &model)).collect();
            let want = [mw(s / d), mw(s % d), mw(u / d), mw(u % d), 1];
            if got != want {
                eprintln!("linear: c {} ks {:?} d {} w {} model {:?}: got {:?} want {:?}", c, ks, d, w, model, got, want);
                bad += 1;
                break;
            }
        }
    }
    eprintln!("linear: {} cases, {} bad", iters, bad);
    bad
}

//! libc functions, LLVM intrinsics and the harness interface.

use crate::exec::*;
use crate::expr::*;
use crate::ll::{BinOp, Call, Pred};
use std::rc::Rc;

type N = fn(&mut Exec, &[V], &Call) -> R<V>;

const VOID: V = V::C(0);

fn u(x: &mut Exec, v: &V) -> R<u64> {
    Ok(x.n_conc(v)? as u64)
}

/// apply a scalar function lane-wise when the call returns a vector
fn lanewise(x: &mut Exec, a: &[V], c: &Call, f: fn(&mut Exec, &[V], u32) -> R<V>) -> R<V> {
    let w = x.ebits(c.args[0].1);
    if let Some(n) = x.vecn(c.args[0].1) {
        let mut ls: Vec<Rc<Vec<V>>> = vec![];
        for (i, v) in a.iter().enumerate() {
            if x.vecn(c.args[i].1).is_some() {
                ls.push(x.n_lanes(v, n, w)?);
            } else {
                ls.push(Rc::new(vec![v.clone(); n as usize]));
            }
        }
        let mut o = vec![];
        for i in 0..n as usize {
            let args: Vec<V> = ls.iter().map(|l| l[i].clone()).collect();
            o.push(f(x, &args, w)?);
        }
        return Ok(V::A(Rc::new(o)));
    }
    f(x, a, w)
}

fn minmax(x: &mut Exec, a: &[V], w: u32, p: Pred) -> R<V> {
    let c = x.n_icmp(p, w, &a[0], &a[1])?;
    Ok(x.n_ite(&c, &a[0], &a[1], w))
}

fn ovf(x: &mut Exec, a: &[V], w: u32, op: BinOp, signed: bool) -> R<V> {
    let r = x.n_bin(op, w, &a[0], &a[1])?;
    if let (V::C(p), V::C(q)) = (&a[0], &a[1]) {
        let o = if signed {
            let (p, q) = (sx(*p, w), sx(*q, w));
            let t = match op {
                BinOp::Add => p.checked_add(q),
                BinOp::Sub => p.checked_sub(q),
                _ => p.checked_mul(q),
            };
            match t {
                None => true,
                Some(t) => w < 128 && (t < -(1i128 << (w - 1)) || t > (1i128 << (w - 1)) - 1),
            }
        } else {
            let t = match op {
                BinOp::Add => p.checked_add(*q),
                BinOp::Sub => p.checked_sub(*q),
                _ => p.checked_mul(*q),
            };
            match t {
                None => true,
                Some(t) => t > mask(w),
            }
        };
        return Ok(V::A(Rc::new(vec![r, V::C(o as u128)])));
    }
    let (e0, e1) = (x.e(&a[0], w), x.e(&a[1], w));
    let o = if signed {
        if w > 64 {
            let (al, ah) = (x.p.slo(e0), x.p.shi(e0));
            let (bl, bh) = (x.p.slo(e1), x.p.shi(e1));
            let c = match op {
                BinOp::Add => [al.checked_add(bl), ah.checked_add(bh), Some(0), Some(0)],
                BinOp::Sub => [al.checked_sub(bh), ah.checked_sub(bl), Some(0), Some(0)],
                _ => [al.checked_mul(bl), al.checked_mul(bh), ah.checked_mul(bl), ah.checked_mul(bh)],
            };
            let m = (mask(w) >> 1) as i128;
            if c.iter().all(|v| v.map_or(false, |v| v <= m && v >= -m - 1)) {
                return Ok(V::A(Rc::new(vec![r, V::C(0)])));
            }
            return x.n_incomplete("wide signed overflow");
        }
        let (al, ah) = (x.p.slo(e0), x.p.shi(e0));
        let (bl, bh) = (x.p.slo(e1), x.p.shi(e1));
        let (lo, hi) = match op {
            BinOp::Add => (al + bl, ah + bh),
            BinOp::Sub => (al - bh, ah - bl),
            _ => {
                let c = [al * bl, al * bh, ah * bl, ah * bh];
                (*c.iter().min().unwrap(), *c.iter().max().unwrap())
            }
        };
        let (mn, mx) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        if lo >= mn && hi <= mx {
            V::C(0)
        } else {
            let ww = if matches!(op, BinOp::Mul) { 2 * w } else { w + 1 };
            let (s0, s1) = (x.p.sext(e0, ww), x.p.sext(e1, ww));
            let t = match op {
                BinOp::Add => x.p.add(s0, s1),
                BinOp::Sub => x.p.sub(s0, s1),
                _ => x.p.mul(s0, s1),
            };
            // overflow iff t outside [mn,mx]
            let cm = x.p.c(ww, mn as u128);
            let cx = x.p.c(ww, mx as u128);
            let l = x.p.slt(t, cm);
            let h = x.p.slt(cx, t);
            let o = x.p.or(l, h);
            x.v(o)
        }
    } else {
        let (al, ah) = (x.p.lo(e0), x.p.hi(e0));
        let (bl, bh) = (x.p.lo(e1), x.p.hi(e1));
        match op {
            BinOp::Add => {
                if ah.checked_add(bh).map_or(false, |t| t <= mask(w)) {
                    V::C(0)
                } else if al.checked_add(bl).map_or(true, |t| t > mask(w)) {
                    V::C(1)
                } else {
                    let r = x.e(&r, w);
                    let o = x.p.ult(r, e0);
                    x.v(o)
                }
            }
            BinOp::Sub => {
                let o = x.p.ult(e0, e1);
                x.v(o)
            }
            _ => {
                if ah.checked_mul(bh).map_or(false, |t| t <= mask(w)) {
                    V::C(0)
                } else if w <= 64 {
                    let (z0, z1) = (x.p.zext(e0, 2 * w), x.p.zext(e1, 2 * w));
                    let t = x.p.mul(z0, z1);
                    let h = x.p.extract(t, w, w);
                    let z = x.p.c(w, 0);
                    let o = x.p.ne(h, z);
                    x.v(o)
                } else {
                    return x.n_incomplete("wide multiplication overflow");
                }
            }
        }
    };
    Ok(V::A(Rc::new(vec![r, o])))
}

fn sat(x: &mut Exec, a: &[V], w: u32, op: BinOp, signed: bool) -> R<V> {
    let v = ovf(x, a, w, op, signed)?;
    let (r, o) = match &v {
        V::A(l) => (l[0].clone(), l[1].clone()),
        _ => return x.n_incomplete("sat"),
    };
    let lim = if signed {
        // sign of the true result: for add/sub it is the sign of the first operand
        let neg = x.n_icmp(Pred::Slt, w, &a[0], &VOID)?;
        let mn = V::C(1u128 << (w - 1));
        let mx = V::C(mask(w) >> 1);
        x.n_ite(&neg, &mn, &mx, w)
    } else if matches!(op, BinOp::Sub) {
        V::C(0)
    } else {
        V::C(mask(w))
    };
    Ok(x.n_ite(&o, &lim, &r, w))
}

fn ctz(x: &mut Exec, a: &[V], w: u32, top: bool) -> R<V> {
    match &a[0] {
        V::C(v) => Ok(V::C(if *v == 0 {
            w as u128
        } else if top {
            (v.leading_zeros() - (128 - w)) as u128
        } else {
            v.trailing_zeros() as u128
        })),
        V::S(e) => {
            let e = *e;
            let n = x.p.support(e).len();
            if n > 1 && w <= 64 && x.p.op(e) == Op::Concat {
                // bit masks built from many bytes: decide the bits one after the other
                for i in 0..w {
                    let b = if top { w - 1 - i } else { i };
                    let k = x.p.extract(e, b, 1);
                    let k = x.v(k);
                    if x.n_branch(&k)? {
                        return Ok(V::C(i as u128));
                    }
                }
                return Ok(V::C(w as u128));
            }
            let mut r = x.p.c(w, w as u128);
            for i in (0..w).rev() {
                let b = if top { w - 1 - i } else { i };
                let k = x.p.extract(e, b, 1);
                let c = x.p.c(w, i as u128);
                r = x.p.ite(k, c, r);
            }
            Ok(x.v(r))
        }
        _ => x.n_incomplete("ctz"),
    }
}

fn llvm(n: &str) -> Option<N> {
    let r = &n[5..];
    let st = |p: &str| r.starts_with(p);
    Some(if st("memcpy.") || st("memmove.") {
        |x, a, _| {
            x.n_copy(&a[0], &a[1], &a[2])?;
            Ok(VOID)
        }
    } else if st("memset.") {
        |x, a, _| {
            x.n_set(&a[0], &a[1], &a[2])?;
            Ok(VOID)
        }
    } else if st("umin.") {
        |x, a, c| lanewise(x, a, c, |x, a, w| minmax(x, a, w, Pred::Ult))
    } else if st("umax.") {
        |x, a, c| lanewise(x, a, c, |x, a, w| minmax(x, a, w, Pred::Ugt))
    } else if st("smin.") {
        |x, a, c| lanewise(x, a, c, |x, a, w| minmax(x, a, w, Pred::Slt))
    } else if st("smax.") {
        |x, a, c| lanewise(x, a, c, |x, a, w| minmax(x, a, w, Pred::Sgt))
    } else if st("abs.") {
        |x, a, c| {
            lanewise(x, &a[..1], c, |x, a, w| {
                let neg = x.n_icmp(Pred::Slt, w, &a[0], &VOID)?;
                let m = x.n_bin(BinOp::Sub, w, &VOID, &a[0])?;
                Ok(x.n_ite(&neg, &m, &a[0], w))
            })
        }
    } else if st("uadd.with.overflow") {
        |x, a, c| {
            let w = x.ebits(c.args[0].1);
            ovf(x, a, w, BinOp::Add, false)
        }
    } else if st("usub.with.overflow") {
        |x, a, c| {
            let w = x.ebits(c.args[0].1);
            ovf(x, a, w, BinOp::Sub, false)
        }
    } else if st("umul.with.overflow") {
        |x, a, c| {
            let w = x.ebits(c.args[0].1);
            ovf(x, a, w, BinOp::Mul, false)
        }
    } else if st("sadd.with.overflow") {
        |x, a, c| {
            let w = x.ebits(c.args[0].1);
            ovf(x, a, w, BinOp::Add, true)
        }
    } else if st("ssub.with.overflow") {
        |x, a, c| {
            let w = x.ebits(c.args[0].1);
            ovf(x, a, w, BinOp::Sub, true)
        }
    } else if st("smul.with.overflow") {
        |x, a, c| {
            let w = x.ebits(c.args[0].1);
            ovf(x, a, w, BinOp::Mul, true)
        }
    } else if st("uadd.sat") {
        |x, a, c| lanewise(x, a, c, |x, a, w| sat(x, a, w, BinOp::Add, false))
    } else if st("usub.sat") {
        |x, a, c| lanewise(x, a, c, |x, a, w| sat(x, a, w, BinOp::Sub, false))
    } else if st("sadd.sat") {
        |x, a, c| lanewise(x, a, c, |x, a, w| sat(x, a, w, BinOp::Add, true))
    } else if st("ssub.sat") {
        |x, a, c| lanewise(x, a, c, |x, a, w| sat(x, a, w, BinOp::Sub, true))
    } else if st("scmp.") || st("ucmp.") {
        if st("scmp.") {
            |x, a, c| {
                let w = x.ebits(c.args[0].1);
                let rw = x.ebits(c.ret);
                let l = x.n_icmp(Pred::Slt, w, &a[0], &a[1])?;
                let g = x.n_icmp(Pred::Sgt, w, &a[0], &a[1])?;
                let t = x.n_ite(&g, &V::C(1), &V::C(0), rw);
                Ok(x.n_ite(&l, &V::C(mask(rw)), &t, rw))
            }
        } else {
            |x, a, c| {
                let w = x.ebits(c.args[0].1);
                let rw = x.ebits(c.ret);
                let l = x.n_icmp(Pred::Ult, w, &a[0], &a[1])?;
                let g = x.n_icmp(Pred::Ugt, w, &a[0], &a[1])?;
                let t = x.n_ite(&g, &V::C(1), &V::C(0), rw);
                Ok(x.n_ite(&l, &V::C(mask(rw)), &t, rw))
            }
        }
    } else if st("cttz.") {
        |x, a, c| lanewise(x, &a[..1], c, |x, a, w| ctz(x, a, w, false))
    } else if st("ctlz.") {
        |x, a, c| lanewise(x, &a[..1], c, |x, a, w| ctz(x, a, w, true))
    } else if st("ctpop.") {
        |x, a, c| {
            lanewise(x, a, c, |x, a, w| match &a[0] {
                V::C(v) => Ok(V::C(v.count_ones() as u128)),
                v => {
                    let e = x.e(v, w);
                    let mut r = x.p.c(w, 0);
                    for i in 0..w {
                        let k = x.p.extract(e, i, 1);
                        let k = x.p.zext(k, w);
                        r = x.p.add(r, k);
                    }
                    Ok(x.v(r))
                }
            })
        }
    } else if st("bswap.") {
        |x, a, c| {
            lanewise(x, a, c, |x, a, w| {
                let e = x.e(&a[0], w);
                let n = w / 8;
                let ps: Vec<E> = (0..n).map(|i| x.p.extract(e, 8 * (n - 1 - i), 8)).collect();
                let r = x.p.concat(&ps);
                Ok(x.v(r))
            })
        }
    } else if st("bitreverse.") {
        |x, a, c| {
            lanewise(x, a, c, |x, a, w| match &a[0] {
                V::C(v) => Ok(V::C(v.reverse_bits() >> (128 - w))),
                v => {
                    let e = x.e(v, w);
                    let ps: Vec<E> = (0..w).map(|i| x.p.extract(e, w - 1 - i, 1)).collect();
                    let r = x.p.concat(&ps);
                    Ok(x.v(r))
                }
            })
        }
    } else if st("fshl.") || st("fshr.") {
        fn fsh(x: &mut Exec, a: &[V], w: u32, left: bool) -> R<V> {
            let s = (x.n_conc(&a[2])? % w as u128) as u32;
            let s = if left { s } else { (w - s) % w };
            if s == 0 {
                return Ok(if left { a[0].clone() } else { a[1].clone() });
            }
            let h = x.n_bin(BinOp::Shl, w, &a[0], &V::C(s as u128))?;
            let l = x.n_bin(BinOp::LShr, w, &a[1], &V::C((w - s) as u128))?;
            x.n_bin(BinOp::Or, w, &h, &l)
        }
        if st("fshl.") {
            |x, a, c| lanewise(x, a, c, |x, a, w| fsh(x, a, w, true))
        } else {
            |x, a, c| lanewise(x, a, c, |x, a, w| fsh(x, a, w, false))
        }
    } else if st("is.constant") || st("expect.") || st("objectsize") {
        if st("expect.") {
            |_, a, _| Ok(a[0].clone())
        } else {
            |_, _, _| Ok(VOID)
        }
    } else if st("threadlocal.address") || st("ptrmask") || st("launder") || st("strip") {
        |_, a, _| Ok(a[0].clone())
    } else if st("trap") || st("ubsantrap") {
        |x, _, _| {
            let c = x.caller();
            Err(x.n_panic(&format!("trap in {}", c)))
        }
    } else if st("fptosi.sat") {
        |x, a, c| fcv(x, a, c, Op::FToS)
    } else if st("fptoui.sat") {
        |x, a, c| fcv(x, a, c, Op::FToU)
    } else if st("round.") {
        |x, a, c| fr(x, a, c, 0)
    } else if st("floor.") {
        |x, a, c| fr(x, a, c, 1)
    } else if st("ceil.") {
        |x, a, c| fr(x, a, c, 2)
    } else if st("trunc.") {
        |x, a, c| fr(x, a, c, 3)
    } else if st("roundeven.") || st("rint.") || st("nearbyint.") {
        |x, a, c| fr(x, a, c, 4)
    } else if st("fabs.") {
        |x, a, c| {
            lanewise(x, a, c, |x, a, w| x.n_bin(BinOp::And, w, &a[0], &V::C(mask(w) >> 1)))
        }
    } else if st("copysign.") {
        |x, a, c| {
            lanewise(x, a, c, |x, a, w| {
                let m = x.n_bin(BinOp::And, w, &a[0], &V::C(mask(w) >> 1))?;
                let s = x.n_bin(BinOp::And, w, &a[1], &V::C(1 << (w - 1)))?;
                x.n_bin(BinOp::Or, w, &m, &s)
            })
        }
    } else if st("is.fpclass") {
        |x, a, c| {
            let w = x.ebits(c.args[0].1);
            let m = x.n_conc(&a[1])?;
            fpclass(x, &a[0], w, m as u32)
        }
    } else if st("sqrt.") {
        |x, a, c| {
            let w = x.ebits(c.args[0].1);
            let e = x.e(&a[0], w);
            let r = x.p.fop(Op::FSqrt, w, &[e], 0);
            Ok(x.v(r))
        }
    } else if st("stacksave") || st("stackrestore") || st("sideeffect") || st("va_") || st("donothing") || st("eh.") || st("vector.deinterleave") {
        |_, _, _| Ok(VOID)
    } else if st("vector.reduce.or.") || st("vector.reduce.and.") || st("vector.reduce.add.") || st("vector.reduce.xor.") {
        let op = if st("vector.reduce.or.") {
            BinOp::Or
        } else if st("vector.reduce.and.") {
            BinOp::And
        } else if st("vector.reduce.add.") {
            BinOp::Add
        } else {
            BinOp::Xor
        };
        fn red(x: &mut Exec, a: &[V], c: &Call, op: BinOp) -> R<V> {
            let w = x.ebits(c.args[0].1);
            let n = x.vecn(c.args[0].1).unwrap_or(1);
            let l = x.n_lanes(&a[0], n, w)?;
            let mut r = l[0].clone();
            for v in l.iter().skip(1) {
                r = x.n_bin(op, w, &r, v)?;
            }
            Ok(r)
        }
        match op {
            BinOp::Or => |x, a, c| red(x, a, c, BinOp::Or),
            BinOp::And => |x, a, c| red(x, a, c, BinOp::And),
            BinOp::Add => |x, a, c| red(x, a, c, BinOp::Add),
            _ => |x, a, c| red(x, a, c, BinOp::Xor),
        }
    } else if st("x86.sse2.psad.bw") {
        |x, a, _| {
            let (l, m) = (x.n_lanes(&a[0], 16, 8)?, x.n_lanes(&a[1], 16, 8)?);
            let mut out = vec![];
            for h in 0..2 {
                let mut s = x.p.c(64, 0);
                for i in 0..8 {
                    let (u, v) = (x.e(&l[8 * h + i], 8), x.e(&m[8 * h + i], 8));
                    let c = x.p.ult(u, v);
                    let (d, g) = (x.p.sub(u, v), x.p.sub(v, u));
                    let d = x.p.ite(c, g, d);
                    let d = x.p.zext(d, 64);
                    s = x.p.add(s, d);
                }
                out.push(x.v(s));
            }
            Ok(V::A(std::rc::Rc::new(out)))
        }
    } else if st("x86.sse2.pmadd.wd") {
        |x, a, _| {
            let (l, m) = (x.n_lanes(&a[0], 8, 16)?, x.n_lanes(&a[1], 8, 16)?);
            let mut out = vec![];
            for i in 0..4 {
                let mut s = x.p.c(32, 0);
                for j in 2 * i..2 * i + 2 {
                    let (u, v) = (x.e(&l[j], 16), x.e(&m[j], 16));
                    let (u, v) = (x.p.sext(u, 32), x.p.sext(v, 32));
                    let d = x.p.mul(u, v);
                    s = x.p.add(s, d);
                }
                out.push(x.v(s));
            }
            Ok(V::A(std::rc::Rc::new(out)))
        }
    } else if st("x86.sse2.pmovmskb") {
        |x, a, _| {
            let l = x.n_lanes(&a[0], 16, 8)?;
            let mut ps = vec![];
            for v in l.iter() {
                let e = x.e(v, 8);
                ps.push(x.p.extract(e, 7, 1));
            }
            let r = x.p.concat(&ps);
            let r = x.p.zext(r, 32);
            Ok(x.v(r))
        }
    } else {
        return None;
    })
}

fn fpclass(x: &mut Exec, v: &V, w: u32, m: u32) -> R<V> {
    // 1 snan 2 qnan 4 -inf 8 -normal 0x10 -sub 0x20 -0 0x40 +0 0x80 +sub 0x100 +normal 0x200 +inf
    let (mb, eb) = if w == 64 { (52, 11) } else { (23, 8) };
    let e = x.e(v, w);
    let p = &mut x.p;
    let s = p.extract(e, w - 1, 1);
    let ex = p.extract(e, mb, eb);
    let mn = p.extract(e, 0, mb);
    let z = p.c(eb, 0);
    let o = p.c(eb, mask(eb));
    let mz = p.c(mb, 0);
    let exz = p.eq(ex, z);
    let exo = p.eq(ex, o);
    let mnz = p.eq(mn, mz);
    let nmnz = p.not(mnz);
    let ns = p.not(s);
    let q = p.extract(mn, mb - 1, 1);
    let nq = p.not(q);
    let nexz = p.not(exz);
    let nexo = p.not(exo);
    let mut r = p.c(1, 0);
    let nan = p.and(exo, nmnz);
    let inf = p.and(exo, mnz);
    let nor = p.and(nexz, nexo);
    let sub = p.and(exz, nmnz);
    let zer = p.and(exz, mnz);
    for (bit, a, b) in [(1, nan, nq), (2, nan, q), (4, inf, s), (8, nor, s), (0x10, sub, s), (0x20, zer, s), (0x40, zer, ns), (0x80, sub, ns), (0x100, nor, ns), (0x200, inf, ns)] {
        if m & bit != 0 {
            let c = p.and(a, b);
            r = p.or(r, c);
        }
    }
    Ok(x.v(r))
}

fn fcv(x: &mut Exec, a: &[V], c: &Call, op: Op) -> R<V> {
    let w = x.ebits(c.args[0].1);
    let rw = x.ebits(c.ret);
    match &a[0] {
        V::C(v) => Ok(V::C(eval_op(op, rw, 0, [w, 0, 0], [*v, 0, 0]))),
        V::S(e) => {
            let r = x.p.fop(op, rw, &[*e], 0);
            Ok(x.v(r))
        }
        _ => x.n_incomplete("vector float conversion"),
    }
}
fn fr(x: &mut Exec, a: &[V], c: &Call, imm: u64) -> R<V> {
    let w = x.ebits(c.args[0].1);
    match &a[0] {
        V::C(v) => Ok(V::C(eval_op(Op::FRound, w, imm, [w, 0, 0], [*v, 0, 0]))),
        V::S(e) => {
            let r = x.p.fop(Op::FRound, w, &[*e], imm);
            Ok(x.v(r))
        }
        _ => x.n_incomplete("vector rounding"),
    }
}

fn vf(n: &str) -> Option<N> {
    Some(match n {
        "vf_bytes" => |x, a, _| {
            let s = x.n_str(&a[0], &a[1])?;
            let (p, l) = (u(x, &a[2])?, u(x, &a[3])?);
            let (lo, hi) = (u(x, &a[4])?, u(x, &a[5])?);
            x.n_bytes(&s, p, l as usize, lo as u8, hi as u8)?;
            Ok(VOID)
        },
        "vf_u64" => |x, a, _| {
            let s = x.n_str(&a[0], &a[1])?;
            let (lo, hi) = (u(x, &a[2])?, u(x, &a[3])?);
            x.n_sym(&s, lo, hi)
        },
        "vf_dec" => |x, a, _| {
            let s = x.n_str(&a[0], &a[1])?;
            let n = u(x, &a[2])?;
            x.n_dec(&s, n as u32)
        },
        "vf_choose" => |x, a, _| {
            let s = x.n_str(&a[0], &a[1])?;
            let n = u(x, &a[2])?;
            x.n_choose(&s, n)
        },
        "vf_assume" => |x, a, _| {
            x.n_assume(&a[0])?;
            Ok(VOID)
        },
        "vf_check" => |x, a, _| {
            let s = x.n_str(&a[1], &a[2])?;
            x.n_check(&a[0], &s)?;
            Ok(VOID)
        },
        "vf_reach" => |x, a, _| {
            let s = x.n_str(&a[0], &a[1])?;
            x.n_reach(&s);
            Ok(VOID)
        },
        "vf_observe" => |x, a, _| {
            let (p, l) = (u(x, &a[0])?, u(x, &a[1])?);
            x.n_observe(p, l as usize)?;
            Ok(VOID)
        },
        "vf_allow_panic" => |x, a, _| {
            let b = u(x, &a[0])?;
            x.n_allow_panic(b != 0);
            Ok(VOID)
        },
        "vf_concrete" => |x, a, _| Ok(V::C(u(x, &a[0])? as u128)),
        "vf_concrete_bytes" => |x, a, _| {
            let (p, l) = (u(x, &a[0])?, u(x, &a[1])?);
            for i in 0..l {
                let v = x.n_rd(p + i, 1)?;
                let c = x.n_conc(&v)?;
                x.n_wr(p + i, 1, &V::C(c))?;
            }
            Ok(VOID)
        },
        "vf_is_sym" => |x, a, _| {
            let (p, l) = (u(x, &a[0])?, u(x, &a[1])?);
            Ok(V::C(x.n_is_sym(p, l as usize) as u128))
        },
        "vf_limit" => |x, a, _| {
            let n = u(x, &a[0])?;
            x.n_limit(n);
            Ok(VOID)
        },
        "vf_tier" => |x, _, _| Ok(V::C(x.n_tier() as u128)),
        "vf_eq" => |x, a, _| {
            let l0 = u(x, &a[1])?;
            let l1 = u(x, &a[3])?;
            if l0 != l1 {
                return Ok(VOID);
            }
            let (p, q) = (u(x, &a[0])?, u(x, &a[2])?);
            x.n_eq(p, q, l0 as usize)
        },
        "vf_f64_parts" => |x, a, _| {
            let (m, k) = (u(x, &a[1])?, u(x, &a[2])?);
            match x.n_f64_parts(&a[0]) {
                Some((v, e)) => {
                    let w = x.width(&v);
                    let (lo, hi) = x.srange(&v, w);
                    if lo <= -1_000_000_000_000_000 || hi >= 1_000_000_000_000_000 {
                        return Ok(VOID);
                    }
                    let v = match v {
                        V::S(t) if w < 64 => {
                            let t = x.p.sext(t, 64);
                            x.v(t)
                        }
                        V::S(t) if w > 64 => {
                            let t = x.p.trunc(t, 64);
                            x.v(t)
                        }
                        t => t,
                    };
                    x.n_wr(m, 8, &v)?;
                    x.n_wr(k, 4, &V::C(e as u128))?;
                    Ok(V::C(1))
                }
                None => Ok(VOID),
            }
        },
        "vf_file" => |x, a, _| {
            let s = x.n_str(&a[0], &a[1])?;
            let (p, l, out) = (u(x, &a[2])?, u(x, &a[3])?, u(x, &a[4])?);
            let path = format!("/vf/{}", s);
            let copy = x.n_malloc(l);
            x.n_copy(&V::C(copy as u128), &V::C(p as u128), &V::C(l as u128))?;
            x.files.push((path.clone(), copy, l));
            for (i, b) in path.bytes().enumerate() {
                x.n_wr(out + i as u64, 1, &V::C(b as u128))?;
            }
            Ok(V::C(path.len() as u128))
        },
        "vf_incomplete" => |x, a, _| {
            let s = x.n_str(&a[0], &a[1])?;
            x.n_incomplete(&s)
        },
        _ => return None,
    })
}

pub fn native(n: &str) -> Option<N> {
    if n.starts_with("llvm.") {
        return llvm(n);
    }
    if n.starts_with("vf_") {
        return vf(n);
    }
    Some(match n {
        "malloc" => |x, a, _| {
            let n = u(x, &a[0])?;
            Ok(V::C(x.n_malloc(n) as u128))
        },
        "calloc" => |x, a, _| {
            let n = u(x, &a[0])?.saturating_mul(u(x, &a[1])?);
            Ok(V::C(x.n_malloc(n) as u128))
        },
        "posix_memalign" => |x, a, _| {
            let n = u(x, &a[2])?;
            let p = u(x, &a[0])?;
            let r = x.n_malloc(n);
            x.n_wr(p, 8, &V::C(r as u128))?;
            Ok(V::C(if r == 0 { 12 } else { 0 }))
        },
        "aligned_alloc" => |x, a, _| {
            let n = u(x, &a[1])?;
            Ok(V::C(x.n_malloc(n) as u128))
        },
        "realloc" => |x, a, _| {
            let (p, n) = (u(x, &a[0])?, u(x, &a[1])?);
            if n > 1 << 31 {
                return Ok(VOID);
            }
            Ok(V::C(x.n_realloc(p, n)? as u128))
        },
        "free" => |x, a, _| {
            let p = u(x, &a[0])?;
            x.n_free(p)?;
            Ok(VOID)
        },
        "memcpy" | "memmove" => |x, a, _| {
            x.n_copy(&a[0], &a[1], &a[2])?;
            Ok(a[0].clone())
        },
        "memset" => |x, a, _| {
            x.n_set(&a[0], &a[1], &a[2])?;
            Ok(a[0].clone())
        },
        "bcmp" => |x, a, _| {
            let (p, q, n) = (u(x, &a[0])?, u(x, &a[1])?, u(x, &a[2])?);
            if n == 0 {
                return Ok(VOID);
            }
            let e = x.n_eq(p, q, n as usize)?;
            Ok(x.n_ite(&e, &VOID, &V::C(1), 32))
        },
        "memcmp" => |x, a, _| {
            let (p, q, n) = (u(x, &a[0])?, u(x, &a[1])?, u(x, &a[2])?);
            if n == 0 {
                return Ok(VOID);
            }
            x.n_memcmp(p, q, n as usize)
        },
        "strlen" => |x, a, _| {
            let p = u(x, &a[0])?;
            let mut i = 0;
            loop {
                let v = x.n_rd(p + i, 1)?;
                if x.n_conc(&v)? == 0 {
                    return Ok(V::C(i as u128));
                }
                i += 1;
            }
        },
        // files the harness made with vf_file, opened for reading
        "open64" | "open" => |x, a, _| {
            let p = u(x, &a[0])?;
            let flags = u(x, &a[1])?;
            let mut name = vec![];
            loop {
                let v = x.n_rd(p + name.len() as u64, 1)?;
                match x.n_conc(&v)? {
                    0 => break,
                    b => name.push(b as u8),
                }
            }
            if flags & 3 != 0 {
                return x.n_incomplete("a file opened for writing");
            }
            match x.files.iter().rposition(|f| f.0.as_bytes() == &name[..]) {
                Some(i) => {
                    x.fds.push((i, 0));
                    Ok(V::C(x.fds.len() as u128 + 99))
                }
                None => {
                    let e = x.n_errno();
                    x.n_wr(e, 4, &V::C(2))?;
                    Ok(V::C(0xffff_ffff))
                }
            }
        },
        "read" => |x, a, _| {
            let (fd, p, n) = (u(x, &a[0])? & 0xffff_ffff, u(x, &a[1])?, u(x, &a[2])?);
            if fd < 100 || fd - 100 >= x.fds.len() as u64 {
                return x.n_incomplete("read from an unknown file descriptor");
            }
            let (i, pos) = x.fds[fd as usize - 100];
            let (addr, len) = (x.files[i].1, x.files[i].2);
            let n = n.min(len - pos);
            x.n_copy(&V::C(p as u128), &V::C((addr + pos) as u128), &V::C(n as u128))?;
            x.fds[fd as usize - 100].1 = pos + n;
            Ok(V::C(n as u128))
        },
        "close" => |_, _, _| Ok(VOID),
        "getrandom" => |x, a, _| {
            let (p, n) = (u(x, &a[0])?, u(x, &a[1])?);
            for i in 0..n {
                x.n_wr(p + i, 1, &V::C(0x5a))?;
            }
            Ok(V::C(n as u128))
        },
        "__cxa_thread_atexit_impl" => |_, _, _| Ok(VOID),
        "getenv" => |_, _, _| Ok(VOID),
        "__errno_location" => |x, _, _| Ok(V::C(x.n_errno() as u128)),
        "pthread_self" => |_, _, _| Ok(V::C(1)),
        "gettid" => |_, _, _| Ok(V::C(1)),
        "sysconf" => |_, _, _| Ok(V::C(4096)),
        "getauxval" => |_, _, _| Ok(VOID),
        "abort" | "exit" | "_exit" => |x, _, _| {
            let c = x.caller();
            Err(x.n_panic(&format!("abort in {}", c)))
        },
        _ => return None,
    })
}

//! Division with remainder.

use harness::coef::*;
use harness::engine::*;
use harness::model::*;
use harness::{ensure, pick_type};
use num::rational::Ratio;
use num::traits::{Signed, Zero};
use rustnomial::*;
use std::collections::BTreeMap;
use std::num::Wrapping;

type Map<T> = BTreeMap<usize, T>;

fn lift_map<T: Coef>(m: &Map<T>) -> Model {
    clean(m.iter().map(|(d, c)| (*d, c.lift())).collect())
}

/// All results of dividing dense `a` by dense `d`: (quotient, remainder) pairs to be checked.
/// More arithmetic than any way of dividing these needs.
fn fuel<T: Coef + Zero>(a: &Gp<T>, d: &Gp<T>) -> u64 {
    let len = |g: &Gp<T>| g.terms.len() as u64 + g.lead as u64 + 1;
    2_000_000 + 100 * len(a) * len(d)
}

fn dense_div<T: Ring>(a: &Gp<T>, d: &Gp<T>) -> Result<Vec<(&'static str, Map<T>, Map<T>)>, Bad> {
    let (ra, rd) = (a.dense(), d.dense());
    set_fuel(fuel(a, d));
    let (q, r) = ra.div_mod(&rd);
    let f = ra.floor_div(&rd);
    let m = a.dense() % d.dense();
    let mut n = a.dense();
    n %= d.dense();
    set_fuel(u64::MAX);
    if ra.terms != a.dense_vec() || rd.terms != d.dense_vec() {
        return fail("dense division changes a borrowed operand");
    }
    let (q, r, f, m, n) = (nonzero(&q), nonzero(&r), nonzero(&f), nonzero(&m), nonzero(&n));
    Ok(vec![
        ("dense div_mod", q.clone(), r.clone()),
        ("dense floor_div", f, r),
        ("dense %", q.clone(), m),
        ("dense %=", q, n),
    ])
}

fn sparse_div<T: SRing>(a: &Gp<T>, d: &Gp<T>) -> Result<Vec<(&'static str, Map<T>, Map<T>)>, Bad> {
    let (ra, rd) = (a.sparse(), d.sparse());
    set_fuel(fuel(a, d));
    let (q, r) = ra.div_mod(&rd);
    let m = a.sparse() % d.sparse();
    let mut n = a.sparse();
    n %= d.sparse();
    set_fuel(u64::MAX);
    if ra.terms != a.terms || rd.terms != d.terms {
        return fail("sparse division changes a borrowed operand");
    }
    let (q, r, m, n) = (nonzero(&q), nonzero(&r), nonzero(&m), nonzero(&n));
    Ok(vec![
        ("sparse div_mod", q.clone(), r),
        ("sparse %", q.clone(), m),
        ("sparse %=", q, n),
    ])
}

fn note_div<T: Coef + Zero>(ctx: &mut Ctx, a: &Gp<T>, d: &Gp<T>) {
    ctx.note(|| format!("{}: ({}) divided by ({})", T::NAME, a.show(), d.show()));
    label_pair(ctx, a, d);
    let below = a.degree() < d.degree();
    ctx.label_if(below, "dividend of lower degree");
    ctx.label_if(d.degree() == Some(0), "constant divisor");
    if !below && d.terms.values().filter(|c| !c.is_zero()).count() >= 2 {
        ctx.nontrivial();
    }
}

fn gen_divisor<T: Coef + Zero>(s: &mut Src, max: usize, mag: Mag) -> Result<Gp<T>, Bad> {
    let mut d = gen_gp::<T>(s, max, mag);
    if d.is_zero() {
        // Make it a constant, or a power of x.
        let deg = s.usize(4);
        let c = T::gen(s, Mag::Tiny);
        d.terms.insert(deg, c);
    }
    if d.is_zero() {
        return Err(Bad::Discard);
    }
    Ok(d)
}

/// Schoolbook division, by the arithmetic of `T`.
fn reference<T: Ring>(a: &Map<T>, d: &Map<T>) -> (Map<T>, Map<T>) {
    let mut r: Map<T> = a.iter().filter(|(_, c)| !c.is_zero()).map(|(k, c)| (*k, *c)).collect();
    let d: Vec<(usize, T)> = d.iter().filter(|(_, c)| !c.is_zero()).map(|(k, c)| (*k, *c)).collect();
    let &(dd, dl) = d.last().unwrap();
    let mut q = Map::new();
    while let Some((&k, &c)) = r.iter().next_back() {
        if k < dd {
            break;
        }
        let s = c / dl;
        q.insert(k - dd, s);
        for &(e, f) in &d {
            let v = r.entry(e + k - dd).or_insert_with(T::zero);
            *v -= s * f;
        }
        r.retain(|_, v| !v.is_zero());
        r.remove(&k);
    }
    (q, r)
}

/// Coefficients from a field: quotient and remainder are unique.
fn field_t<T: SRing>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let small = !T::MODULAR;
    let a = gen_gp::<T>(s, if small { 6 } else { 140 }, mag);
    let d = gen_divisor::<T>(s, if small { 4 } else { 30 }, mag)?;
    if small {
        simulate::<T>(&a.model(), &d.model(), false)?;
    }
    note_div(ctx, &a, &d);
    let (q, r) = reference(&a.terms, &d.terms);
    for (what, gq, gr) in dense_div(&a, &d)?.into_iter().chain(sparse_div(&a, &d)?) {
        ensure!(
            gq == q && gr == r,
            "{what} gives quotient {} and remainder {}, but should give {} and {}",
            show_map(&gq),
            show_map(&gr),
            show_map(&q),
            show_map(&r)
        );
    }
    Ok(())
}

/// Divides exactly, truncating quotients of coefficients if `trunc`. Out of the domain if an
/// intermediate is not well inside of what T represents.
fn simulate<T: Coef>(a: &Model, d: &Model, trunc: bool) -> Result<(Model, Model), Bad> {
    let (&dd, dl) = d.iter().next_back().unwrap();
    let two = qi(2);
    let ok = |q: &Q| T::proj(&(q * &two)).is_some() && (!T::SIGNED || T::proj(&-(q * &two)).is_some());
    let mut r = a.clone();
    let mut q = Model::new();
    let mut top = usize::MAX;
    loop {
        let Some((&k, c)) = r.range(..top).next_back() else { break };
        if k < dd {
            break;
        }
        let mut sc = c / dl;
        if trunc {
            sc = sc.trunc();
        }
        if !ok(&sc) {
            return Err(Bad::Discard);
        }
        for (e, f) in d {
            let p = &sc * f;
            let v = r.entry(e + k - dd).or_insert_with(Q::zero);
            *v -= &p;
            if !ok(&p) || !ok(v) {
                return Err(Bad::Discard);
            }
        }
        r.retain(|_, v| !v.is_zero());
        q.insert(k - dd, sc);
        top = k;
    }
    if !a.values().chain(d.values()).all(ok) {
        return Err(Bad::Discard);
    }
    Ok((clean(q), r))
}

fn constructed_ok<T: Coef + Zero>(q: &Gp<T>, d: &Gp<T>, r: &Gp<T>) -> bool {
    let mut sums = m_mul_sums(&q.model(), &d.model());
    for (k, c) in r.model() {
        sums.entry(k).or_default().add(&c);
    }
    let qd = [&q.model(), &d.model(), &r.model()]
        .iter()
        .all(|m| fits::<T>(m) && (!T::SIGNED || fits::<T>(&m_neg(m))));
    qd && sums.values().all(|t| {
        T::sum_ok(t)
            && T::proj(&t.abs()).is_some()
            && (!T::SIGNED || T::proj(&-t.abs()).is_some())
    })
}

/// q, d and r such that a = q d + r can be computed, and q and r are what dividing must return.
fn gen_constructed<T: Coef + Zero>(s: &mut Src, big: bool) -> Result<[Gp<T>; 3], Bad> {
    let mag = gen_mag(s);
    let (q, d, mut r) = if big {
        let mut d = gen_gp_sparse::<T>(s, mag);
        if d.is_zero() {
            d.terms.insert(gen_big_degree(s), T::gen(s, Mag::Tiny));
        }
        (gen_gp_sparse::<T>(s, mag), d, gen_gp_sparse::<T>(s, mag))
    } else {
        let (lq, ld) = *s.pick(&[(8, 8), (8, 8), (8, 8), (60, 5), (5, 60), (20, 20)]);
        (
            gen_gp::<T>(s, lq, mag),
            gen_divisor::<T>(s, ld, mag)?,
            gen_gp::<T>(s, ld, mag),
        )
    };
    let Some(dd) = d.degree() else { return Err(Bad::Discard) };
    r.terms.retain(|k, _| *k < dd);
    // Halve as little as needed, and never to a divisor of lower degree.
    for k in 0..128 {
        let (q, mut dk, r) = (q.halved(k), d.halved(k), r.halved(k));
        if dk.degree() != Some(dd) {
            dk.terms.insert(dd, if k % 2 == 0 { T::proj(&qi(1)).unwrap() } else { T::proj(&qi(2)).unwrap_or(dk.terms[&dd]) });
        }
        if dk.degree() == Some(dd) && constructed_ok(&q, &dk, &r) {
            return Ok([q, dk, r]);
        }
    }
    Err(Bad::Discard)
}

fn exact_t<T: Ring>(
    s: &mut Src,
    ctx: &mut Ctx,
    big: bool,
    div: fn(&Gp<T>, &Gp<T>) -> Result<Vec<(&'static str, Map<T>, Map<T>)>, Bad>,
) -> Res {
    let [q, d, r] = gen_constructed::<T>(s, big)?;
    let am = m_add(&m_mul(&q.model(), &d.model()), &r.model());
    let mut a = Gp {
        terms: project::<T>(&am)?,
        lead: if big { 0 } else { gen_lead(s) },
    };
    if s.chance(1, 3) {
        let n = a.terms.keys().next_back().copied().unwrap_or(3);
        for _ in 0..3 {
            a.terms.entry(s.usize(n.min(50) + 1)).or_insert_with(T::zero);
        }
    }
    note_div(ctx, &a, &d);
    ctx.label_if(r.is_zero(), "no remainder");
    let (q, r) = (project::<T>(&q.model())?, project::<T>(&r.model())?);
    for (what, gq, gr) in div(&a, &d)? {
        ensure!(
            gq == q && gr == r,
            "{what} over {} gives quotient {} and remainder {}, but should give {} and {}",
            T::NAME,
            show_map(&gq),
            show_map(&gr),
            show_map(&q),
            show_map(&r)
        );
    }
    Ok(())
}

fn exact_dense_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    exact_t::<T>(s, ctx, false, dense_div)
}

fn exact_sparse_t<T: SRing>(s: &mut Src, ctx: &mut Ctx, big: bool) -> Res {
    exact_t::<T>(s, ctx, big, sparse_div)
}

/// Integers: a = q d + r, and what is left of the dividend at each degree is less than the leading
/// coefficient of the divisor.
fn identity<T: Coef + Zero>(what: &str, am: &Model, dm: &Model, q: &Map<T>, r: &Map<T>) -> Res {
    let (qm, rm) = (lift_map(q), lift_map(r));
    let back = m_add(&m_mul(&qm, dm), &rm);
    ensure!(
        &back == am,
        "{what} over {}: quotient {} and remainder {} multiply back to {}",
        T::NAME,
        m_show(&qm),
        m_show(&rm),
        m_show(&back)
    );
    let (dd, dl) = dm.iter().next_back().unwrap();
    for (k, c) in rm.range(dd..) {
        ensure!(
            c.abs() < dl.abs(),
            "{what} over {}: the remainder {} has {c} at degree {k}, not less than the leading {dl} of the divisor",
            T::NAME,
            m_show(&rm)
        );
    }
    Ok(())
}

fn integer_t<T: Ring>(
    s: &mut Src,
    ctx: &mut Ctx,
    div: fn(&Gp<T>, &Gp<T>) -> Result<Vec<(&'static str, Map<T>, Map<T>)>, Bad>,
) -> Res {
    let mag = *s.pick(&[Mag::Tiny, Mag::Small, Mag::Mid]);
    let n = *s.pick(&[4, 7, 12]);
    let amag = if s.chance(1, 2) { Mag::Full } else { mag };
    let nd = *s.pick(&[2, 3, 5]);
    let mut a = gen_gp::<T>(s, n, amag);
    let mut d = gen_divisor::<T>(s, nd, mag)?;
    // Make the coefficients small enough that nothing overflows on the way.
    let mut fits = false;
    for _ in 0..20 {
        if d.is_zero() {
            return Err(Bad::Discard);
        }
        if simulate::<T>(&a.model(), &d.model(), true).is_ok() {
            fits = true;
            break;
        }
        a = a.halved(2);
        let dd = d.degree().unwrap();
        let keep = d.terms[&dd];
        d = d.halved(1);
        d.terms.insert(dd, keep);
    }
    if !fits {
        return Err(Bad::Discard);
    }
    note_div(ctx, &a, &d);
    let (am, dm) = (a.model(), d.model());
    let (_, sr) = simulate::<T>(&am, &dm, true)?;
    ctx.label_if(sr.range(m_degree(&dm).unwrap()..).next().is_some(), "inexact");
    for (what, q, r) in div(&a, &d)? {
        identity(what, &am, &dm, &q, &r)?;
    }
    Ok(())
}

/// Whether schoolbook division, truncating, stays within T: each product and difference fits.
/// Where the quotient has no term, nothing of the divisor is used.
fn within<T: Coef>(a: &Model, d: &Model) -> bool {
    let (&dd, dl) = d.iter().next_back().unwrap();
    let mut r = a.clone();
    let mut top = usize::MAX;
    while let Some((&k, c)) = r.range(..top).next_back() {
        if k < dd {
            break;
        }
        let sc = (c / dl).trunc();
        if T::proj(&sc).is_none() {
            return false;
        }
        top = k;
        if sc.is_zero() {
            continue;
        }
        for (e, f) in d {
            let p = &sc * f;
            let v = r.entry(e + k - dd).or_insert_with(Q::zero);
            *v -= &p;
            if T::proj(&p).is_none() || T::proj(v).is_none() {
                return false;
            }
        }
    }
    true
}

/// Integers at the limits of their types.
fn limits_t<T: Ring>(
    s: &mut Src,
    ctx: &mut Ctx,
    div: fn(&Gp<T>, &Gp<T>) -> Result<Vec<(&'static str, Map<T>, Map<T>)>, Bad>,
) -> Res {
    let gen = |s: &mut Src, n: usize, huge: u64| -> Gp<T> {
        let n = s.urange(1, n);
        let gaps = s.below(3);
        let kept: Vec<usize> = (0..n).filter(|d| *d + 1 == n || !s.chance(gaps, 4)).collect();
        let terms = kept
            .into_iter()
            .map(|d| {
                let mag = *s.pick(&[Mag::Tiny, Mag::Tiny, Mag::Small, Mag::Mid]);
                (d, if s.chance(huge, 6) { T::gen(s, Mag::Full) } else { T::gen(s, mag) })
            })
            .collect();
        Gp { terms, lead: gen_lead(s) }
    };
    let mut a = gen(s, 6, 4);
    let mut d = gen(s, 4, 2);
    if d.is_zero() {
        return Err(Bad::Discard);
    }
    let mut tries = 0;
    while !within::<T>(&a.model(), &d.model()) {
        tries += 1;
        if tries > 12 {
            return Err(Bad::Discard);
        }
        // Change one coefficient for a smaller one.
        let g = if s.chance(1, 2) { &mut a } else { &mut d };
        let k = s.below(g.terms.len() as u64) as usize;
        let deg = *g.terms.keys().nth(k).unwrap();
        let c = T::gen(s, Mag::Tiny);
        g.terms.insert(deg, c);
        if d.is_zero() {
            return Err(Bad::Discard);
        }
    }
    note_div(ctx, &a, &d);
    let (am, dm) = (a.model(), d.model());
    for (what, q, r) in div(&a, &d)? {
        identity(what, &am, &dm, &q, &r)?;
    }
    Ok(())
}

fn limits_dense_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    limits_t::<T>(s, ctx, dense_div)
}

fn limits_sparse_t<T: SRing>(s: &mut Src, ctx: &mut Ctx) -> Res {
    limits_t::<T>(s, ctx, sparse_div)
}

fn integer_dense_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    integer_t::<T>(s, ctx, dense_div)
}

fn integer_sparse_t<T: SRing>(s: &mut Src, ctx: &mut Ctx) -> Res {
    integer_t::<T>(s, ctx, sparse_div)
}

/// Wrapping integers: the identity holds modulo 2^n whatever the coefficients are.
fn wrapping_t<T: SRing>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let a = gen_gp::<T>(s, 40, mag);
    let d = gen_divisor::<T>(s, 10, mag)?;
    note_div(ctx, &a, &d);
    let am = project::<T>(&a.model())?;
    for (what, q, r) in dense_div(&a, &d)?.into_iter().chain(sparse_div(&a, &d)?) {
        let back = m_add(&m_mul(&lift_map(&q), &d.model()), &lift_map(&r));
        let back = project::<T>(&back)?;
        ensure!(
            back == am,
            "{what} over {}: quotient {} and remainder {} multiply back to {}",
            T::NAME,
            show_map(&q),
            show_map(&r),
            show_map(&back)
        );
    }
    Ok(())
}

/// Floats: a = q d + r up to rounding, and r has nothing but rounding errors at the degree of d
/// and above.
fn check_float(s: &mut Src, ctx: &mut Ctx) -> Res {
    let na = gen_len(s, 14);
    let nd = s.urange(1, 6);
    let e = *s.pick(&[2, 8]);
    let mut av: Vec<f64> = (0..na).map(|_| gen_mid_f64(s, e)).collect();
    let mut dv: Vec<f64> = (0..nd).map(|_| gen_mid_f64(s, e)).collect();
    let lead = 0.5 + s.below(1 << 20) as f64 / (1u64 << 19) as f64;
    *dv.last_mut().unwrap() = if s.chance(1, 2) { -lead } else { lead };
    if s.chance(1, 3) {
        av.iter_mut().chain(dv.iter_mut()).for_each(|v| *v = (*v * 10.0).round() / 10.0);
        if *dv.last().unwrap() == 0.0 {
            *dv.last_mut().unwrap() = 0.1;
        }
    }
    let gp = |v: &Vec<f64>| Gp {
        terms: v.iter().copied().enumerate().collect(),
        lead: 0,
    };
    let (a, d) = (gp(&av), gp(&dv));
    ctx.note(|| format!("f64, coefficients from degree 0 upwards: {av:?} divided by {dv:?}"));
    if na >= nd && nd >= 2 {
        ctx.nontrivial();
    }
    let dd = d.degree().unwrap();
    for (what, q, r) in dense_div(&a, &d)?.into_iter().chain(sparse_div(&a, &d)?) {
        ensure!(
            q.values().chain(r.values()).all(|c| c.is_finite()),
            "{what} gives numbers which are not finite"
        );
        let mut sums = m_mul_sums(&lift_map(&q), &d.model());
        for (k, c) in lift_map(&r) {
            sums.entry(k).or_default().add(&c);
        }
        for (k, c) in a.model() {
            sums.entry(k).or_default().add(&-c);
        }
        for (k, t) in &sums {
            let tol = t.abs() * qi(128) / pow2(53) + qi(1) / pow2(1000);
            ensure!(
                t.total().abs() <= tol,
                "{what}: quotient times divisor plus remainder is off by {:e} at degree {k}: quotient {}, remainder {}",
                num::ToPrimitive::to_f64(&t.total()).unwrap_or(f64::NAN),
                show_map(&q),
                show_map(&r)
            );
            if *k >= dd {
                let left = r.get(k).copied().unwrap_or(0.0);
                ensure!(
                    left.lift().abs() <= tol,
                    "{what}: the remainder has {left:e} at degree {k} although the divisor has degree {dd}"
                );
            }
        }
    }
    Ok(())
}

fn zero_divisor_t<T: SRing>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let a = gen_gp::<T>(s, 12, mag);
    let z = Gp::<T> {
        terms: (0..s.usize(6)).filter(|_| s.chance(1, 2)).map(|d| (d, T::zero())).collect(),
        lead: s.usize(3),
    };
    ctx.note(|| format!("{}: ({}) divided by zero, stored as {:?}", T::NAME, a.show(), z.dense_vec()));
    ctx.nontrivial();
    ensure!(catch(|| a.dense().div_mod(&z.dense())).is_err(), "dense div_mod by zero returns");
    ensure!(catch(|| a.dense().floor_div(&z.dense())).is_err(), "dense floor_div by zero returns");
    ensure!(catch(|| a.dense() % z.dense()).is_err(), "dense % by zero returns");
    ensure!(catch(|| { let mut p = a.dense(); p %= z.dense(); p }).is_err(), "dense %= by zero returns");
    ensure!(catch(|| a.sparse().div_mod(&z.sparse())).is_err(), "sparse div_mod by zero returns");
    ensure!(catch(|| a.sparse() % z.sparse()).is_err(), "sparse % by zero returns");
    ensure!(catch(|| { let mut p = a.sparse(); p %= z.sparse(); p }).is_err(), "sparse %= by zero returns");
    Ok(())
}

fn check_field(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [Gf<7>, Gf<2>, Gf<65537>, Gf<2147483647>, Ratio<i128>]; field_t(s, ctx))
}

fn check_exact_dense(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64,
        Ratio<i128>]; exact_dense_t(s, ctx))
}

fn check_exact_sparse(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, f32, f64, Ratio<i128>];
        exact_sparse_t(s, ctx, false))
}

fn check_exact_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i128, f64]; exact_sparse_t(s, ctx, true))
}

fn check_integer_dense(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize];
        integer_dense_t(s, ctx))
}

fn check_integer_sparse(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize]; integer_sparse_t(s, ctx))
}

fn check_limits_dense(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i8, i32, i64, i16, i128, isize, u8, u16, u32, u64, u128, usize];
        limits_dense_t(s, ctx))
}

fn check_limits_sparse(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i8, i32, i64, i16, i128, isize]; limits_sparse_t(s, ctx))
}

fn check_wrapping(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [Wrapping<i8>, Wrapping<u8>, Wrapping<i32>, Wrapping<u64>]; wrapping_t(s, ctx))
}

fn check_zero_divisor(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, f64, i8, f32, Gf<7>, Ratio<i128>]; zero_divisor_t(s, ctx))
}

/// Long dividends and divisors over a finite field, where everything is exact.
fn check_field_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    type T = Gf<65537>;
    let (la, ld) = *s.pick(&[
        (300, 100),
        (300, 300),
        (600, 20),
        (1100, 5),
        (1100, 300),
        (2100, 2),
        (4200, 4),
        (1100, 0),
        (4200, 0),
        (9000, 0),
    ]);
    let [av, mut dv] = [la, ld.max(2)].map(|n| gen_long_with::<T>(s, n, |r| Gf(r.below(65537))));
    if ld == 0 {
        // The divisor is almost as long as the dividend, so that the quotient is short.
        dv = gen_long_with::<T>(s, la, |r| Gf(r.below(65537)));
        let n = (av.len() + 2).saturating_sub(s.usize(12)).max(1);
        dv.resize(n, Gf(0));
        if dv[n - 1].is_zero() {
            dv[n - 1] = Gf(1 + s.below(65536));
        }
    }
    let make = |s: &mut Src, v: Vec<T>| {
        let keep_zeros = s.chance(1, 2);
        Gp::<T> {
            terms: v.into_iter().enumerate().filter(|(_, c)| keep_zeros || !c.is_zero()).collect(),
            lead: gen_lead(s),
        }
    };
    let (a, mut d) = (make(s, av), make(s, dv));
    if d.is_zero() {
        d.terms.insert(s.usize(4), Gf(3));
    }
    note_div(ctx, &a, &d);
    let (q, r) = reference_vec(&a.dense_vec(), &d.dense_vec());
    for (what, gq, gr) in dense_div(&a, &d)?.into_iter().chain(sparse_div(&a, &d)?) {
        ensure!(
            gq == q && gr == r,
            "{what} gives quotient {} and remainder {}, but should give {} and {}",
            show_map(&gq),
            show_map(&gr),
            show_map(&q),
            show_map(&r)
        );
    }
    Ok(())
}

/// Schoolbook division of lists of coefficients, the one of highest degree first.
fn reference_vec<T: Ring>(a: &[T], d: &[T]) -> (Map<T>, Map<T>) {
    let skip = d.iter().take_while(|c| c.is_zero()).count();
    let d = &d[skip..];
    let mut r = a.to_vec();
    let mut q = Map::new();
    let n = r.len();
    let steps = (n + 1).saturating_sub(d.len());
    for i in 0..steps {
        if r[i].is_zero() {
            continue;
        }
        let k = r[i] / d[0];
        for (j, c) in d.iter().enumerate() {
            r[i + j] = r[i + j] - k * *c;
        }
        q.insert(n - d.len() - i, k);
    }
    let r = r.iter().enumerate().filter(|(_, c)| !c.is_zero()).map(|(i, c)| (n - 1 - i, *c)).collect();
    (q, r)
}

fn main() {
    harness::engine::main(Property {
        id: "C03",
        rule: "cases are dividend and divisor pairs; non-trivial: the dividend has at least the degree of the divisor, and the divisor has at least two terms",
        assumptions: &[
            "over integers and rationals, every intermediate of schoolbook division fits the coefficient type",
            "floats: magnitudes between 2^-8 and 2^8 times 200, at most 14 coefficients",
        ],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "field", check: check_field, quick: 80_000 },
            Sub { name: "exact_dense", check: check_exact_dense, quick: 200_000 },
            Sub { name: "exact_sparse", check: check_exact_sparse, quick: 200_000 },
            Sub { name: "exact_huge_degrees", check: check_exact_big, quick: 150_000 },
            Sub { name: "integer_dense", check: check_integer_dense, quick: 150_000 },
            Sub { name: "integer_sparse", check: check_integer_sparse, quick: 150_000 },
            Sub { name: "limits_dense", check: check_limits_dense, quick: 200_000 },
            Sub { name: "limits_sparse", check: check_limits_sparse, quick: 200_000 },
            Sub { name: "wrapping", check: check_wrapping, quick: 100_000 },
            Sub { name: "float", check: check_float, quick: 60_000 },
            Sub { name: "zero_divisor", check: check_zero_divisor, quick: 20_000 },
            Sub { name: "field_long", check: check_field_long, quick: 10_000 },
        ],
        known: vec![],
    });
}

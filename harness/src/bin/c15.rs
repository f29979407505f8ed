//! Roots of polynomials of any degree over f64.

use harness::coef::*;
use harness::engine::*;
use harness::ensure;
use harness::model::*;
use num::complex::Complex;
use num::traits::ToPrimitive;
use rustnomial::*;
use std::collections::BTreeMap;

type C = Complex<f64>;

/// The returned roots, and whether the answer says that these are all of them.
fn listed(r: &Roots<f64>) -> Option<(Vec<C>, bool)> {
    let re = |v: &[f64]| v.iter().map(|x| C::new(*x, 0.0)).collect::<Vec<_>>();
    Some(match r {
        Roots::NoRoots => (vec![], true),
        Roots::OneRealRoot(a) => (re(&[*a]), true),
        Roots::TwoRealRoots(a, b) => (re(&[*a, *b]), true),
        Roots::ThreeRealRoots(a, b, c) => (re(&[*a, *b, *c]), true),
        Roots::ManyRealRoots(v) => (re(v), true),
        Roots::OneComplexRoot(a) => (vec![*a], true),
        Roots::TwoComplexRoots(a, b) => (vec![*a, *b], true),
        Roots::ThreeComplexRoots(a, b, c) => (vec![*a, *b, *c], true),
        Roots::ManyComplexRoots(v) => (v.clone(), true),
        Roots::OnlyRealRoots(v) => (re(v), false),
        Roots::InfiniteRoots | Roots::NoRootsFound => return None,
    })
}

fn real_kind(r: &Roots<f64>) -> bool {
    matches!(
        r,
        Roots::OneRealRoot(_) | Roots::TwoRealRoots(..) | Roots::ThreeRealRoots(..) | Roots::ManyRealRoots(_)
    )
}

fn complex_kind(r: &Roots<f64>) -> bool {
    matches!(
        r,
        Roots::OneComplexRoot(_) | Roots::TwoComplexRoots(..) | Roots::ThreeComplexRoots(..) | Roots::ManyComplexRoots(_)
    )
}

/// Pairs up two sets of roots, nearest first.
fn matched(got: &[C], want: &[C], tol: f64) -> bool {
    if got.len() != want.len() {
        return false;
    }
    let mut left: Vec<C> = got.to_vec();
    want.iter().all(|w| {
        let best = left
            .iter()
            .enumerate()
            .min_by(|(_, a), (_, b)| (*a - w).norm().total_cmp(&(*b - w).norm()))
            .map(|(i, a)| (i, (a - w).norm()));
        match best {
            Some((i, d)) if d <= tol => {
                left.swap_remove(i);
                true
            }
            _ => false,
        }
    })
}

/// The coefficients (highest first) of lead * prod(x - root), exactly.
fn expand(lead: f64, real: &[f64], pairs: &[(f64, f64)]) -> Model {
    let mut m: Model = [(0, lead.lift())].into_iter().collect();
    for r in real {
        m = m_mul(&m, &[(1, qi(1)), (0, -r.lift())].into_iter().collect());
        m = clean(m);
    }
    for (re, im) in pairs {
        let (re, im) = (re.lift(), im.lift());
        let c = &re * &re + &im * &im;
        m = m_mul(&m, &[(2, qi(1)), (1, qi(-2) * re), (0, c)].into_iter().collect());
        m = clean(m);
    }
    clean(m)
}

fn to_gp(s: &mut Src, m: &Model) -> Result<Gp<f64>, Bad> {
    let mut terms: BTreeMap<usize, f64> = project(m)?;
    // Zeros that are stored, or not.
    if s.chance(1, 2) {
        for d in 0..m_degree(m).unwrap_or(0) {
            terms.entry(d).or_insert(0.0);
        }
    }
    if s.chance(1, 3) {
        let top = m_degree(m).map_or(0, |d| d + 1);
        terms.insert(top + s.usize(3), 0.0);
    }
    Ok(Gp { terms, lead: gen_lead(s) })
}

/// Both representations give the same answer, up to the order of the roots.
fn roots_of(a: &Gp<f64>) -> Result<Roots<f64>, Bad> {
    let d = a.dense().roots();
    let sp = a.sparse().roots();
    let same = match (listed(&d), listed(&sp)) {
        (Some((x, p)), Some((y, q))) => {
            let scale = x.iter().map(|z| z.norm()).fold(1e-300, f64::max);
            p == q && matched(&x, &y, 1e-4 * scale)
        }
        _ => d == sp,
    };
    ensure!(same, "the roots of {} are {d:?} (dense) and {sp:?} (sparse)", a.show());
    Ok(d)
}

fn gen_root(s: &mut Src, unit: f64) -> f64 {
    let v = match s.below(4) {
        0 => s.range(-6, 6) as f64,
        1 | 2 => s.range(-30, 30) as f64,
        _ => s.range(-160, 160) as f64 / 8.0,
    };
    v * unit
}

fn gen_lead_coeff(s: &mut Src) -> f64 {
    let v = match s.below(3) {
        0 => 1.0,
        1 => s.range(1, 9) as f64,
        _ => s.range(1, 40) as f64 / 8.0,
    };
    if s.chance(1, 3) {
        -v
    } else {
        v
    }
}

/// The sums of products of roots are the quotients of coefficients, up to rounding.
fn vieta(a: &Model, roots: &[C], tol: f64) -> Result<(), String> {
    let n = m_degree(a).unwrap();
    let lead = a[&n].clone();
    let coeff = |k: usize| a.get(&(n - k)).map_or(0.0, |c| (c / &lead).to_f64().unwrap());
    if roots.len() != n {
        return Err(format!("there are {} roots instead of {n}", roots.len()));
    }
    let scale = (1..=n).map(|k| coeff(k).abs().powf(1.0 / k as f64)).fold(0.0, f64::max);
    // Multiplied out.
    let mut p = vec![C::new(1.0, 0.0)];
    for r in roots {
        let mut q = p.clone();
        q.push(C::new(0.0, 0.0));
        for (i, c) in p.iter().enumerate() {
            q[i + 1] -= c * r;
        }
        p = q;
    }
    for k in 1..=n {
        let off = (p[k] - C::new(coeff(k), 0.0)).norm();
        let ok = off <= tol * scale.powi(k as i32);
        if !ok {
            return Err(format!("multiplied out, the coefficient of degree {} is {} instead of {}", n - k, p[k], coeff(k)));
        }
    }
    Ok(())
}

/// Zero, constants, and single terms.
fn trivial(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = if s.chance(1, 4) { 0.0 } else { gen_mid_f64(s, 60) };
    let d = match s.below(3) {
        0 => 0,
        1 => s.usize(6),
        _ => s.usize(60),
    };
    let mut terms: BTreeMap<usize, f64> = BTreeMap::new();
    for e in 0..s.usize(70) {
        if s.chance(1, 2) {
            terms.insert(e, 0.0);
        }
    }
    terms.insert(d, c);
    let a = Gp { terms, lead: gen_lead(s) };
    ctx.note(|| a.show());
    ctx.nontrivial = a.has_stored_zero() || c != 0.0;
    let got = roots_of(&a)?;
    if c == 0.0 {
        ensure!(got == Roots::InfiniteRoots, "the roots of 0 are {got:?}");
    } else if d == 0 {
        ensure!(got == Roots::NoRoots, "the roots of {c} are {got:?}");
    } else {
        // Zero, with or without its multiplicity.
        let fine = match listed(&got) {
            Some((v, true)) => !v.is_empty() && v.len() <= d && v.iter().all(|z| z.norm() == 0.0),
            _ => false,
        };
        ensure!(fine, "the roots of {c}x^{d} are {got:?}");
    }
    Ok(())
}

/// How far the cubic with these roots is from (x - a)^3 = b: from zero to one.
fn cubic_condition(roots: &[C]) -> f64 {
    let mean = (roots[0] + roots[1] + roots[2]) / 3.0;
    let w: Vec<C> = roots.iter().map(|z| z - mean).collect();
    let p = (w[0] * w[1] + w[0] * w[2] + w[1] * w[2]).norm() / 3.0;
    let q = (w[0] * w[1] * w[2]).norm() / 2.0;
    p.powi(3) / (q * q + p.powi(3)).max(1e-300)
}

fn low_degree(s: &mut Src, ctx: &mut Ctx, n: usize) -> Res {
    let unit = 2f64.powi([0, 0, -12, 9][s.usize(4)]);
    let lead = gen_lead_coeff(s);
    let mut real: Vec<f64> = vec![];
    let mut pairs = vec![];
    if n >= 2 && s.chance(1, 3) {
        pairs.push((gen_root(s, unit), gen_root(s, unit)));
    }
    while real.len() + 2 * pairs.len() < n {
        let r = match real.last() {
            Some(r) if s.chance(1, 6) => *r,
            Some(r) if s.chance(1, 8) => -*r,
            _ => gen_root(s, unit),
        };
        real.push(r);
    }
    let m = expand(lead, &real, &pairs);
    let a = to_gp(s, &m)?;
    if m.len() == 1 {
        return Err(Bad::Discard); // A single term: see above.
    }
    let mut want: Vec<C> = real.iter().map(|r| C::new(*r, 0.0)).collect();
    for (re, im) in &pairs {
        want.push(C::new(*re, *im));
        want.push(C::new(*re, -*im));
    }
    ctx.note(|| format!("{}, of which the roots are {want:?}", a.show()));
    ctx.nontrivial();
    let scale = want.iter().map(|z| z.norm()).fold(0.0, f64::max);
    let gap = (0..n)
        .flat_map(|i| (0..i).map(move |j| (i, j)))
        .map(|(i, j)| (want[i] - want[j]).norm())
        .fold(f64::INFINITY, f64::min);
    // The formula for cubics can lose two thirds of the digits, if the cubic is close to (x - a)^3 = b.
    let (small, near) = if n < 3 {
        (1e-9, 1e-7)
    } else if cubic_condition(&want) < 1e-6 {
        (1e-4, 1e-3)
    } else {
        (1e-4, 1e-9)
    };
    let got = roots_of(&a)?;
    let Some((list, true)) = listed(&got) else {
        return fail(format!("the roots of {} are {got:?} instead of {want:?}", a.show()));
    };
    ensure!(
        list.iter().all(|z| z.re.is_finite() && z.im.is_finite()),
        "the roots of {} are {got:?}",
        a.show()
    );
    if let Err(e) = vieta(&m, &list, small) {
        return fail(format!("the roots of {} are {got:?} instead of {want:?}: {e}", a.show()));
    }
    if gap > 0.04 * scale {
        // Far from a double root, all of them are well defined.
        ctx.label("well separated");
        ensure!(
            matched(&list, &want, near * scale),
            "the roots of {} are {got:?} instead of {want:?}",
            a.show()
        );
        let all_real = pairs.is_empty();
        ctx.label_if(!all_real, "complex roots");
        ensure!(
            real_kind(&got) == all_real && complex_kind(&got) != all_real,
            "the roots of {} are {got:?} instead of {want:?}",
            a.show()
        );
    } else {
        ctx.label("with roots close to each other");
        ensure!(real_kind(&got) || complex_kind(&got), "the roots of {} are {got:?}", a.show());
    }
    Ok(())
}

fn degree1(s: &mut Src, ctx: &mut Ctx) -> Res {
    low_degree(s, ctx, 1)
}

fn degree2(s: &mut Src, ctx: &mut Ctx) -> Res {
    low_degree(s, ctx, 2)
}

fn degree3(s: &mut Src, ctx: &mut Ctx) -> Res {
    low_degree(s, ctx, 3)
}

/// Random coefficients instead of random roots.
fn coefficients(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.urange(1, 3);
    let e = [3, 10][s.usize(2)];
    let mut terms: BTreeMap<usize, f64> = (0..=n).map(|d| (d, gen_mid_f64(s, e))).collect();
    if terms[&n] == 0.0 {
        terms.insert(n, 1.0);
    }
    let a = Gp { terms, lead: gen_lead(s) };
    let m = a.model();
    if m.len() == 1 {
        return Err(Bad::Discard);
    }
    ctx.note(|| a.show());
    ctx.nontrivial();
    let got = roots_of(&a)?;
    let Some((list, true)) = listed(&got) else {
        return fail(format!("the roots of {} are {got:?}", a.show()));
    };
    // Coefficients of very different size lose digits on the way.
    if let Err(e) = vieta(&m, &list, if n == 3 { 2e-4 } else { 1e-9 }) {
        return fail(format!("the roots of {} are {got:?}: {e}", a.show()));
    }
    // Real coefficients: complex roots come in pairs.
    let conj: Vec<C> = list.iter().map(|z| z.conj()).collect();
    let scale = list.iter().map(|z| z.norm()).fold(0.0, f64::max);
    ensure!(matched(&list, &conj, 1e-9 * scale), "the roots of {} are {got:?}", a.show());
    Ok(())
}

fn sturm(m: &Model) -> Vec<f64> {
    let n = m_degree(m).unwrap();
    let lead = m[&n].clone();
    let v: Vec<f64> = (0..n)
        .rev()
        .map(|d| m.get(&d).map_or(0.0, |c| (c / &lead).to_f64().unwrap()))
        .collect();
    roots::find_roots_sturm(&v, &mut 1e-8f64).into_iter().filter_map(Result::ok).collect()
}

/// Real roots and pairs of complex ones for degrees from eight on: few real roots, and complex ones
/// which are far from the real axis.
fn gen_many_roots(s: &mut Src) -> (Vec<f64>, Vec<(f64, f64)>) {
    let mut real: Vec<f64> = vec![];
    for _ in 0..s.usize(5) {
        let r = s.range(-12, 12) as f64 * 0.25;
        if real.iter().all(|t| (r - t).abs() > 0.4) {
            real.push(r);
        }
    }
    let least = (9 - real.len()) / 2;
    let count = s.urange(least, 9);
    let pairs = (0..count).map(|_| (s.range(-6, 6) as f64 * 0.25, s.range(3, 8) as f64 * 0.25)).collect();
    (real, pairs)
}

/// Degree four and more: if the root finder of the `roots` crate finds the roots, they are
/// returned. (Often it does not: see known_findings.txt.)
fn high_degree(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.urange(4, 7);
    high_degree_of(s, ctx, n)
}

fn higher_degree(s: &mut Src, ctx: &mut Ctx) -> Res {
    high_degree_of(s, ctx, 8)
}

fn high_degree_of(s: &mut Src, ctx: &mut Ctx, n: usize) -> Res {
    let complex = if s.chance(1, 2) { s.usize(n / 2 + 1) } else { 0 };
    let half = s.chance(1, 4);
    let unit = if half { 0.5 } else { 1.0 };
    // Close to whole numbers, but not equal to them.
    let shift = if s.chance(1, 3) { s.range(1, 65) as f64 / [64.0, 1024.0, 16384.0][s.usize(3)] } else { 0.0 };
    let mut real: Vec<f64> = vec![];
    for _ in 0..50 {
        if real.len() + 2 * complex == n {
            break;
        }
        let r = s.range(-12, 12) as f64 * unit;
        let r = if shift > 0.0 && s.chance(1, 2) { r + shift } else { r };
        if real.iter().all(|t| (r - t).abs() > 0.4) {
            real.push(r);
        }
    }
    let pairs: Vec<(f64, f64)> = (0..complex)
        .map(|_| (s.range(-6, 6) as f64 * unit, s.range(1, 6) as f64 * unit))
        .collect();
    let (real, pairs) = if n < 8 { (real, pairs) } else { gen_many_roots(s) };
    if n < 8 && real.len() + 2 * pairs.len() != n {
        return Err(Bad::Discard);
    }
    let lead = gen_lead_coeff(s);
    // Rounded to floats, which moves well separated roots by very little.
    let m: BTreeMap<usize, f64> = expand(lead, &real, &pairs)
        .into_iter()
        .map(|(d, c)| (d, c.to_f64().unwrap()))
        .collect();
    // The size of the coefficients does not matter, as long as they are finite.
    let factor = gen_factor(s, &m);
    ctx.label_if(factor != 1.0, "coefficients of extreme size");
    let m: Model = m.into_iter().map(|(d, c)| (d, (c * factor).lift())).collect();
    let a = to_gp(s, &m)?;
    ctx.note(|| format!("{}, of which the real roots are {real:?}", a.show()));
    let re = |v: &[f64]| v.iter().map(|x| C::new(*x, 0.0)).collect::<Vec<_>>();
    let found = sturm(&m);
    if !matched(&re(&found), &re(&real), 5e-6) {
        ctx.label("not found by the roots crate");
        return Err(Bad::Discard);
    }
    if !real.is_empty() && !pairs.is_empty() {
        // What is left when the real roots are divided away.
        let rest = expand(lead, &[], &pairs);
        if !sturm(&rest).is_empty() {
            ctx.label("not found by the roots crate");
            return Err(Bad::Discard);
        }
    }
    ctx.nontrivial();
    let got = roots_of(&a)?;
    let fine = match &got {
        Roots::NoRoots => real.is_empty(),
        Roots::ManyRealRoots(v) => pairs.is_empty() && matched(&re(v), &re(&real), 1e-5),
        Roots::OnlyRealRoots(v) => {
            !pairs.is_empty() && !real.is_empty() && matched(&re(v), &re(&real), 1e-5)
        }
        _ => false,
    };
    ctx.label_if(shift > 0.0, "roots close to whole numbers");
    ctx.label_if(pairs.is_empty(), "all roots are real");
    ctx.label_if(!pairs.is_empty() && !real.is_empty(), "some roots are real");
    ctx.label_if(real.is_empty(), "no roots are real");
    ensure!(fine, "the real roots of {} are {real:?}, not {got:?}", a.show());
    Ok(())
}

/// A power of two which makes coefficients extreme, without rounding or overflow.
fn gen_factor(s: &mut Src, m: &BTreeMap<usize, f64>) -> f64 {
    if !s.chance(1, 4) {
        return 1.0;
    }
    let exponent = |x: f64| x.abs().log2().floor() as i32;
    let sizes = || m.values().filter(|c| **c != 0.0).map(|c| exponent(*c));
    let (top, bottom) = (sizes().max().unwrap_or(0), sizes().min().unwrap_or(0));
    let (most, least) = ((1022 - top).min(1000), (-960 - bottom).max(-1000));
    let k = match s.below(3) {
        0 => most - s.usize(12) as i32,
        1 => least + s.usize(12) as i32,
        _ => s.range(least as i64, most as i64) as i32,
    };
    2f64.powi(k)
}

/// No polynomial makes the search for roots panic or go on forever, whether or not its roots can be found.
fn any_high(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.urange(4, 12);
    let e = [2, 10, 300][s.usize(3)];
    let mut terms: BTreeMap<usize, f64> = (0..=n).map(|d| (d, gen_mid_f64(s, e))).collect();
    if terms[&n] == 0.0 {
        terms.insert(n, 1.0);
    }
    let factor = gen_factor(s, &terms);
    for c in terms.values_mut() {
        *c *= factor;
    }
    let mut a = Gp { terms, lead: gen_lead(s) };
    if s.chance(1, 3) {
        let k = s.usize(n);
        a.terms.retain(|d, _| *d == n || *d >= k);
    }
    ctx.note(|| a.show());
    ctx.nontrivial();
    for got in [a.dense().roots(), a.sparse().roots()] {
        let fine = match &got { Roots::NoRoots => true, Roots::OnlyRealRoots(v) | Roots::ManyRealRoots(v) => !v.is_empty() && v.iter().all(|r| r.is_finite()), _ => false };
        ctx.label_if(matches!(got, Roots::NoRoots), "no root found");
        ensure!(fine, "the roots of {} are {got:?}", a.show());
    }
    Ok(())
}

fn probe_seven() -> bool {
    let m = expand(1.0, &[-5., 9., 6., 5., -8., 4., -10.], &[]);
    let terms: BTreeMap<usize, f64> = project(&m).ok().unwrap();
    let got = Gp { terms, lead: 0 }.dense().roots();
    !matches!(got, Roots::ManyRealRoots(v) if v.len() == 7)
}

fn probe_five() -> bool {
    let m = expand(1.0, &[-3., 3., 5.], &[(-10., 2.)]);
    let terms: BTreeMap<usize, f64> = project(&m).ok().unwrap();
    let got = Gp { terms, lead: 0 }.dense().roots();
    !matches!(got, Roots::OnlyRealRoots(v) if v.len() == 3)
}

fn main() {
    harness::engine::main(Property {
        id: "C15",
        rule: "cases are polynomials over f64 made from chosen roots (or with random coefficients), in random representations; non-trivial: at least two non-zero terms, and of degree four or more only if the root finder of the roots crate, called directly, finds exactly the real roots",
        assumptions: &[
            "errors of up to 1e-9 (degree 3: 1e-4) of the sums of products of the roots are rounding, 1e-9 of the size of well-separated roots of cubics which are not close to (x - a)^3 = b, and 1e-5 of roots of polynomials of degree four or more",
            "degree four and more: distinct real roots which find_roots_sturm of the roots crate finds",
            "a single term of positive degree has the root zero, listed at least once",
        ],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "trivial", check: trivial, quick: 320_000 },
            Sub { name: "degree_1", check: degree1, quick: 240_000 },
            Sub { name: "degree_2", check: degree2, quick: 480_000 },
            Sub { name: "degree_3", check: degree3, quick: 960_000 },
            Sub { name: "random_coefficients", check: coefficients, quick: 800_000 },
            Sub { name: "degree_4_and_more", check: high_degree, quick: 1_200_000 },
            Sub { name: "degree_8_and_more", check: higher_degree, quick: 150_000 },
            Sub { name: "any_of_degree_4_and_more", check: any_high, quick: 800_000 },
        ],
        known: vec![
            ("the polynomial with the roots -5, 9, 6, 5, -8, 4 and -10 is reported to have other roots (find_roots_sturm of the roots crate does not find them)", probe_seven),
            ("the polynomial with the roots -3, 3, 5, -10+2i and -10-2i is reported to have other roots (find_roots_sturm of the roots crate does not find them)", probe_five),
        ],
    });
}

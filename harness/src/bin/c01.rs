//! Addition, subtraction and negation.

use harness::coef::*;
use harness::engine::*;
use harness::model::*;
use harness::{ensure, pick_type};
use num::rational::Ratio;
use num::traits::Zero;
use rustnomial::*;
use std::collections::BTreeMap;
use std::num::Wrapping;

fn addends_ok<T: Coef + Zero>(a: &Gp<T>, b: &Gp<T>) -> bool {
    fits::<T>(&m_add(&a.model(), &b.model()))
}

fn subtrahends_ok<T: Coef + Zero>(a: &Gp<T>, b: &Gp<T>) -> bool {
    fits::<T>(&m_sub(&a.model(), &b.model()))
        // Where nothing is stored, or the smallest number may have to be negated.
        && b.terms.iter().all(|(d, c)| {
            a.terms.get(d).is_some_and(|x| !x.is_zero()) || T::proj(&-c.lift()).is_some()
        })
}

fn note_pair<T: Coef + Zero>(ctx: &mut Ctx, a: &Gp<T>, b: &Gp<T>) {
    ctx.note(|| format!("{}: a = {}, b = {}", T::NAME, a.show(), b.show()));
    label_pair(ctx, a, b);
    if a.terms.values().filter(|c| !c.is_zero()).count() >= 2
        && b.terms.values().filter(|c| !c.is_zero()).count() >= 2
    {
        ctx.nontrivial();
    }
}

fn add_t<T: Ring>(s: &mut Src, ctx: &mut Ctx, big: bool) -> Res {
    let mag = gen_mag(s);
    let (a, b): (Gp<T>, Gp<T>) = if big {
        (gen_gp_sparse(s, mag), gen_gp_sparse(s, mag))
    } else {
        let a = gen_gp(s, 140, mag);
        let b = gen_related(s, &a, 140, mag);
        (a, b)
    };
    let (a, b) = fit2(a, b, addends_ok)?;
    note_pair(ctx, &a, &b);
    let want = project::<T>(&m_add(&a.model(), &b.model()))?;
    if !big {
        expect("dense a + b", &(a.dense() + b.dense()), &want)?;
        let mut p = a.dense();
        p += b.dense();
        expect("dense a += b", &p, &want)?;
        let want_ba = Polynomial::new(b.dense_vec()) + Polynomial::new(a.dense_vec());
        expect("trimmed dense b + a", &want_ba, &want)?;
    }
    expect("sparse a + b", &(a.sparse() + b.sparse()), &want)?;
    let mut p = a.sparse();
    p += b.sparse();
    expect("sparse a += b", &p, &want)
}

fn sub_t<T: SRing>(s: &mut Src, ctx: &mut Ctx, big: bool) -> Res {
    let mag = gen_mag(s);
    let (a, b): (Gp<T>, Gp<T>) = if big {
        (gen_gp_sparse(s, mag), gen_gp_sparse(s, mag))
    } else {
        let a = gen_gp(s, 140, mag);
        let b = gen_related(s, &a, 140, mag);
        (a, b)
    };
    let (a, b) = fit2(a, b, subtrahends_ok)?;
    note_pair(ctx, &a, &b);
    let want = project::<T>(&m_sub(&a.model(), &b.model()))?;
    if !big {
        expect("dense a - b", &(a.dense() - b.dense()), &want)?;
        let rb = b.dense();
        expect("dense a - &b", &(a.dense() - &rb), &want)?;
        ensure!(rb.terms == b.dense_vec(), "a - &b changes b");
        let mut p = a.dense();
        p -= b.dense();
        expect("dense a -= b", &p, &want)?;
        let mut p = a.dense();
        p -= &rb;
        expect("dense a -= &b", &p, &want)?;
        expect("sparse a - dense b", &(a.sparse() - b.dense()), &want)?;
        let p = Polynomial::new(a.dense_vec()) - Polynomial::new(b.dense_vec());
        expect("trimmed dense a - b", &p, &want)?;
    }
    expect("sparse a - b", &(a.sparse() - b.sparse()), &want)?;
    let mut p = a.sparse();
    p -= b.sparse();
    expect("sparse a -= b", &p, &want)?;

    if !fits::<T>(&m_neg(&b.model())) {
        ctx.label("-b does not fit");
        return Ok(());
    }
    let want = project::<T>(&m_neg(&b.model()))?;
    if !big {
        expect("dense -b", &-b.dense(), &want)?;
    }
    expect("sparse -b", &-b.sparse(), &want)
}

fn fixed_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let n = s.urange(2, 3);
    let (a, mut b) = (gen_fixed::<T>(s, n, mag), gen_fixed::<T>(s, n, mag));
    match s.below(8) {
        0 => b = a.clone(),
        1 if T::SIGNED => {
            b = Gp {
                terms: a
                    .terms
                    .iter()
                    .map(|(d, c)| (*d, T::proj(&-c.lift()).unwrap_or(*c)))
                    .collect(),
                lead: 0,
            }
        }
        _ => {}
    }
    let (a, b) = fit2(a, b, addends_ok)?;
    note_pair(ctx, &a, &b);
    let want = project::<T>(&m_add(&a.model(), &b.model()))?;
    if n == 2 {
        expect("binomial a + b", &(lin(&a) + lin(&b)), &want)?;
        let mut p = lin(&a);
        p += lin(&b);
        expect("binomial a += b", &p, &want)?;
    } else {
        expect("trinomial a + b", &(quad(&a) + quad(&b)), &want)?;
        let mut p = quad(&a);
        p += quad(&b);
        expect("trinomial a += b", &p, &want)?;
    }
    // Subtract the smaller from the larger where there are no negative numbers.
    let (mut a, mut b) = (a, b);
    if !T::SIGNED {
        for d in 0..n {
            if a.terms[&d].lift() < b.terms[&d].lift() {
                let (x, y) = (a.terms[&d], b.terms[&d]);
                a.terms.insert(d, y);
                b.terms.insert(d, x);
            }
        }
    }
    let (a, b) = fit2(a, b, |a, b| fits::<T>(&m_sub(&a.model(), &b.model())))?;
    let want = project::<T>(&m_sub(&a.model(), &b.model()))?;
    if n == 2 {
        expect("binomial a - b", &(lin(&a) - lin(&b)), &want)?;
        let mut p = lin(&a);
        p -= lin(&b);
        expect("binomial a -= b", &p, &want)
    } else {
        expect("trinomial a - b", &(quad(&a) - quad(&b)), &want)?;
        let mut p = quad(&a);
        p -= quad(&b);
        expect("trinomial a -= b", &p, &want)
    }
}

fn fixed_neg_t<T: SRing>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let a = fit1(gen_fixed::<T>(s, 3, mag), |a| fits::<T>(&m_neg(&a.model())))?;
    let deg = gen_big_degree(s);
    ctx.note(|| format!("{}: {} and degree {deg}", T::NAME, a.show()));
    ctx.nontrivial();
    let want = project::<T>(&m_neg(&a.model()))?;
    expect("trinomial -a", &-quad(&a), &want)?;
    let low: BTreeMap<usize, T> = want.range(..2).map(|(d, c)| (*d, *c)).collect();
    expect("binomial -a", &-lin(&a), &low)?;
    let c = a.terms[&0];
    let m: Model = clean([(deg, -c.lift())].into_iter().collect());
    expect("monomial -a", &-Monomial::new(c, deg), &project::<T>(&m)?)
}

/// Any finite floats: each coefficient of a sum or difference is one rounded operation.
fn float_bits<T: SRing>(
    s: &mut Src,
    ctx: &mut Ctx,
    gen: fn(&mut Src) -> T,
    finite: fn(T) -> bool,
) -> Res {
    let n = gen_len(s, 40);
    let m = gen_len(s, 40);
    let av: Vec<T> = (0..n).map(|_| gen(s)).collect();
    let bv: Vec<T> = (0..m).map(|_| gen(s)).collect();
    ctx.note(|| format!("{}: a = {av:?}, b = {bv:?}", T::NAME));
    if n > 1 && m > 1 {
        ctx.nontrivial();
    }
    let at = |v: &Vec<T>, d: usize| {
        if d < v.len() {
            v[v.len() - 1 - d]
        } else {
            T::zero()
        }
    };
    let mut sum = BTreeMap::new();
    let mut diff = BTreeMap::new();
    for d in 0..n.max(m) {
        let (x, y) = (at(&av, d), at(&bv, d));
        if !finite(x + y) || !finite(x - y) {
            return Err(Bad::Discard);
        }
        if !(x + y).is_zero() {
            sum.insert(d, x + y);
        }
        if !(x - y).is_zero() {
            diff.insert(d, x - y);
        }
    }
    let dense = |v: &Vec<T>| Polynomial { terms: v.clone() };
    let sparse = |v: &Vec<T>| SparsePolynomial::from(v.clone());
    expect("dense a + b", &(dense(&av) + dense(&bv)), &sum)?;
    expect("sparse a + b", &(sparse(&av) + sparse(&bv)), &sum)?;
    expect("dense a - b", &(dense(&av) - dense(&bv)), &diff)?;
    expect("dense a - &b", &(dense(&av) - &dense(&bv)), &diff)?;
    expect("sparse a - b", &(sparse(&av) - sparse(&bv)), &diff)?;
    expect("sparse a - dense b", &(sparse(&av) - dense(&bv)), &diff)?;
    let mut p = dense(&av);
    p += dense(&bv);
    expect("dense a += b", &p, &sum)?;
    let mut p = sparse(&av);
    p += sparse(&bv);
    expect("sparse a += b", &p, &sum)?;
    let mut p = dense(&av);
    p -= dense(&bv);
    expect("dense a -= b", &p, &diff)?;
    let mut p = dense(&av);
    p -= &dense(&bv);
    expect("dense a -= &b", &p, &diff)?;
    let mut p = sparse(&av);
    p -= sparse(&bv);
    expect("sparse a -= b", &p, &diff)
}

fn check_add(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64,
        Wrapping<i8>, Wrapping<u64>, Gf<7>, Gf<65537>, Ratio<i128>]; add_t(s, ctx, false))
}

fn check_sub(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, f32, f64, Wrapping<u8>, Wrapping<i32>,
        Gf<7>, Gf<65537>, Ratio<i128>]; sub_t(s, ctx, false))
}

fn check_add_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i8, i128, u8, u64, f64, Wrapping<i8>, Gf<7>]; add_t(s, ctx, true))
}

fn check_sub_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i8, i128, f64, Wrapping<u8>, Gf<7>]; sub_t(s, ctx, true))
}

fn check_fixed(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64,
        Wrapping<i8>, Gf<7>, Ratio<i128>]; fixed_t(s, ctx))
}

fn check_fixed_neg(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, f32, f64, Gf<7>, Ratio<i128>]; fixed_neg_t(s, ctx))
}

fn check_float_bits(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.chance(1, 2) {
        float_bits(s, ctx, gen_f32, f32::is_finite)
    } else {
        float_bits(s, ctx, gen_f64, f64::is_finite)
    }
}

/// The same with long operands.
fn check_add_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = pick_long(s);
    check_add(s, ctx)
}

fn check_sub_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = pick_long(s);
    check_sub(s, ctx)
}

fn main() {
    harness::engine::main(Property {
        id: "C01",
        rule: "cases are pairs of polynomials in random representations over 12 integer types, f32, f64, wrapping, modular and rational types, with coefficients up to the limits of the type; non-trivial: both operands have at least two non-zero terms",
        assumptions: &["sums and differences fit the coefficient type (halved until they do)"],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "add", check: check_add, quick: 1_200_000 },
            Sub { name: "sub_neg", check: check_sub, quick: 1_200_000 },
            Sub { name: "add_huge_degrees", check: check_add_big, quick: 300_000 },
            Sub { name: "sub_huge_degrees", check: check_sub_big, quick: 300_000 },
            Sub { name: "fixed_size", check: check_fixed, quick: 600_000 },
            Sub { name: "fixed_size_neg", check: check_fixed_neg, quick: 300_000 },
            Sub { name: "any_float", check: check_float_bits, quick: 300_000 },
            Sub { name: "add_long", check: check_add_long, quick: 15_000 },
            Sub { name: "sub_neg_long", check: check_sub_long, quick: 15_000 },
        ],
        known: vec![],
    });
}

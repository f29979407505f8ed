//! Observers, equality, constructors and trimming.

use harness::coef::*;
use harness::engine::*;
use harness::model::*;
use harness::{ensure, pick_type};
use num::rational::Ratio;
use num::traits::Zero;
use rustnomial::*;
use std::collections::BTreeMap;
use std::num::Wrapping;

type Map<T> = BTreeMap<usize, T>;

fn nz<T: Coef + Zero>(terms: &Map<T>) -> Map<T> {
    terms.iter().filter(|(_, c)| !c.is_zero()).map(|(d, c)| (*d, *c)).collect()
}

fn note_one<T: Coef + Zero>(ctx: &mut Ctx, a: &Gp<T>) {
    ctx.note(|| format!("{}: {}", T::NAME, a.show()));
    ctx.label_if(a.has_stored_zero(), "stored zeros");
    ctx.label_if(a.is_zero(), "zero");
    if a.terms.values().filter(|c| !c.is_zero()).count() >= 2 {
        ctx.nontrivial();
    }
}

/// What every polynomial type says about itself.
fn observe<T: Ring, P: SizedPolynomial<T>>(
    what: &str,
    p: &P,
    iter: Vec<(T, usize)>,
    want: &Map<T>,
    probes: &[usize],
) -> Res {
    let list: Vec<(T, usize)> = want.iter().rev().map(|(d, c)| (*c, *d)).collect();
    ensure!(iter == list, "{what} over {}: ordered_term_iter gives {iter:?}, not {list:?}", T::NAME);
    let v = p.terms_as_vec();
    ensure!(v == list, "{what} over {}: terms_as_vec gives {v:?}, not {list:?}", T::NAME);
    let degree = want.keys().next_back().map_or(Degree::NegInf, |d| Degree::Num(*d));
    ensure!(p.degree() == degree, "{what} over {}: degree is {:?}, not {degree:?}", T::NAME, p.degree());
    ensure!(
        p.is_zero() == want.is_empty(),
        "{what} over {}: is_zero is {} for {}",
        T::NAME,
        p.is_zero(),
        show_map(want)
    );
    for d in probes.iter().chain(want.keys()) {
        let t = want.get(d).map_or(Term::ZeroTerm, |c| Term::Term(*c, *d));
        let got = p.term_with_degree(*d);
        ensure!(got == t, "{what} over {}: term_with_degree({d}) is {got:?}, not {t:?}", T::NAME);
    }
    Ok(())
}

fn gen_probes<T>(s: &mut Src, terms: &Map<T>) -> Vec<usize> {
    let top = terms.keys().next_back().copied().unwrap_or(0);
    let mut v = vec![0, 1, 2, 3, top, top.saturating_add(1), top.saturating_add(2), usize::MAX];
    v.extend(terms.keys().take(20));
    v.push(top.saturating_sub(s.usize(20)));
    v.push(gen_big_degree(s));
    v
}

fn free_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let mut a = gen_gp::<T>(s, 140, mag);
    if s.chance(1, 3) {
        a.lead = s.usize(if s.long > 0 { s.long } else { 40 });
        if s.long > 0 && s.chance(1, 2) {
            // Few coefficients after many zeros.
            a.terms.retain(|d, _| *d < 6);
        }
    }
    note_one(ctx, &a);
    let want = nz(&a.terms);
    let probes = gen_probes(s, &a.terms);

    let p = a.dense();
    observe("dense", &p, p.ordered_term_iter().collect(), &want, &probes)?;
    let p = a.sparse();
    observe("sparse", &p, p.ordered_term_iter().collect(), &want, &probes)?;

    // Constructors and trimming.
    let trimmed: Vec<T> = {
        let v = a.dense_vec();
        let n = v.iter().take_while(|c| c.is_zero()).count();
        v[n..].to_vec()
    };
    let mut t = a.dense();
    t.trim();
    ensure!(t.terms == trimmed, "trim over {} leaves {:?}, not {trimmed:?}", T::NAME, t.terms);
    t.trim();
    ensure!(t.terms == trimmed, "a second trim over {} leaves {:?}", T::NAME, t.terms);
    let p = Polynomial::new(a.dense_vec());
    ensure!(p.terms == trimmed, "Polynomial::new over {} stores {:?}, not {trimmed:?}", T::NAME, p.terms);
    let p = Polynomial::from(a.dense_vec());
    expect("Polynomial::from", &p, &want)?;
    expect("SparsePolynomial::new", &SparsePolynomial::new(a.terms.clone()), &want)?;
    let p = SparsePolynomial::from(a.dense_vec());
    expect("SparsePolynomial::from", &p, &want)?;
    let mut order: Vec<(T, usize)> = a.terms.iter().map(|(d, c)| (*c, *d)).collect();
    if order.len() > 1 {
        // In some other order.
        for _ in 0..4 {
            let (i, j) = (s.usize(order.len()), s.usize(order.len()));
            order.swap(i, j);
        }
    }
    expect("Polynomial::from_terms", &Polynomial::from_terms(&order), &want)?;
    expect("SparsePolynomial::from_terms", &SparsePolynomial::from_terms(&order), &want)?;
    trim_sparse(&a, &want)?;

    // Zero.
    let mut p = a.dense();
    p.set_to_zero();
    observe("dense set_to_zero", &p, p.ordered_term_iter().collect(), &Map::new(), &probes)?;
    ensure!(p == Polynomial::zero(), "dense set_to_zero is not equal to zero()");
    let mut p = a.sparse();
    p.set_to_zero();
    observe("sparse set_to_zero", &p, p.ordered_term_iter().collect(), &Map::new(), &probes)?;
    ensure!(p == SparsePolynomial::zero(), "sparse set_to_zero is not equal to zero()");
    Ok(())
}

#[cfg(feature = "trim")]
fn trim_sparse<T: Ring>(a: &Gp<T>, want: &Map<T>) -> Res {
    let mut p = a.sparse();
    p.trim();
    ensure!(&p.terms == want, "sparse trim over {} leaves {:?}", T::NAME, p.terms);
    Ok(())
}

#[cfg(not(feature = "trim"))]
fn trim_sparse<T: Ring>(_: &Gp<T>, _: &Map<T>) -> Res {
    Ok(())
}

fn huge_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let mut a = gen_gp_sparse::<T>(s, mag);
    for _ in 0..s.usize(4) {
        a.terms.insert(gen_limit_degree(s, false), T::zero());
    }
    note_one(ctx, &a);
    let want = nz(&a.terms);
    let probes = gen_probes(s, &a.terms);
    let p = a.sparse();
    observe("sparse", &p, p.ordered_term_iter().collect(), &want, &probes)?;
    trim_sparse(&a, &want)?;
    for (d, c) in a.terms.iter().take(3) {
        let mut m = Monomial::new(*c, *d);
        let one = nz(&[(*d, *c)].into_iter().collect());
        observe("monomial", &m, m.ordered_term_iter().collect(), &one, &probes)?;
        m.set_to_zero();
        observe("monomial set_to_zero", &m, m.ordered_term_iter().collect(), &Map::new(), &probes)?;
        ensure!(m == Monomial::zero(), "monomial set_to_zero is not equal to zero()");
        let m = Monomial::from(*c);
        let one = nz(&[(0, *c)].into_iter().collect());
        observe("monomial from a number", &m, m.ordered_term_iter().collect(), &one, &probes)?;
        let want = if c.is_zero() { Term::ZeroTerm } else { Term::Term(*c, *d) };
        ensure!(Term::new(*c, *d) == want, "Term::new({c:?}, {d}) is not {want:?}");
    }
    Ok(())
}

fn fixed_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let a = gen_fixed::<T>(s, 3, mag);
    note_one(ctx, &a);
    let want = nz(&a.terms);
    let probes = gen_probes(s, &a.terms);
    let mut p = quad(&a);
    observe("trinomial", &p, p.ordered_term_iter().collect(), &want, &probes)?;
    p.set_to_zero();
    observe("trinomial set_to_zero", &p, p.ordered_term_iter().collect(), &Map::new(), &probes)?;
    ensure!(p == QuadraticTrinomial::zero(), "trinomial set_to_zero is not equal to zero()");
    let low: Map<T> = want.range(..2).map(|(d, c)| (*d, *c)).collect();
    let mut p = lin(&a);
    observe("binomial", &p, p.ordered_term_iter().collect(), &low, &probes)?;
    p.set_to_zero();
    observe("binomial set_to_zero", &p, p.ordered_term_iter().collect(), &Map::new(), &probes)?;
    ensure!(p == LinearBinomial::zero(), "binomial set_to_zero is not equal to zero()");
    Ok(())
}

/// Changes how the polynomial is stored, and nothing else.
fn disguise<T: Coef + Zero>(s: &mut Src, a: &Gp<T>) -> Gp<T> {
    let mut b = a.clone();
    if s.chance(1, 2) {
        b.terms.retain(|_, c| !c.is_zero());
    }
    for _ in 0..s.usize(4) {
        let d = s.usize(60 + s.long);
        b.terms.entry(d).or_insert_with(T::zero);
    }
    b.lead = gen_lead(s);
    b
}

fn equality_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let a = gen_gp::<T>(s, 60, mag);
    let mut b = disguise(s, &a);
    // Changed a little, or not at all.
    match s.below(7) {
        0 | 1 => {}
        2 => {
            let d = s.usize(60 + s.long);
            b.terms.insert(d, T::gen(s, mag));
        }
        3 => {
            if let Some(d) = b.terms.keys().copied().nth(s.usize(b.terms.len().max(1))) {
                let c = T::gen(s, mag);
                b.terms.insert(d, c);
            }
        }
        4 => {
            // Everything moved by one degree.
            b.terms = b.terms.iter().map(|(d, c)| (d + 1, *c)).collect();
        }
        5 => {
            // Without its lowest or highest term.
            if s.chance(1, 2) {
                b.terms.pop_first();
            } else {
                b.terms.pop_last();
            }
        }
        _ => b = gen_related(s, &a, 60, mag),
    }
    ctx.note(|| format!("{}: {} compared with {}", T::NAME, a.show(), b.show()));
    label_pair(ctx, &a, &b);
    let same = nz(&a.terms) == nz(&b.terms);
    ctx.label_if(same, "equal");
    ctx.label_if(!same, "different");
    if !a.is_zero() && !b.is_zero() {
        ctx.nontrivial();
    }
    ensure!(
        (a.dense() == b.dense()) == same && (b.dense() == a.dense()) == same,
        "dense == over {} is wrong",
        T::NAME
    );
    ensure!((a.dense() != b.dense()) != same, "dense != over {} is wrong", T::NAME);
    ensure!(
        (a.sparse() == b.sparse()) == same && (b.sparse() == a.sparse()) == same,
        "sparse == over {} is wrong",
        T::NAME
    );
    let at = |g: &Gp<T>, d: usize| g.terms.get(&d).copied().unwrap_or_else(T::zero);
    let (a0, a1, a2) = (at(&a, 0), at(&a, 1), at(&a, 2));
    let (b0, b1, b2) = (at(&b, 0), at(&b, 1), at(&b, 2));
    ensure!(
        (LinearBinomial::new([a1, a0]) == LinearBinomial::new([b1, b0])) == (a1 == b1 && a0 == b0),
        "binomial == over {} is wrong for {a1:?}x + {a0:?} and {b1:?}x + {b0:?}",
        T::NAME
    );
    ensure!(
        (QuadraticTrinomial::new([a2, a1, a0]) == QuadraticTrinomial::new([b2, b1, b0]))
            == (a2 == b2 && a1 == b1 && a0 == b0),
        "trinomial == over {} is wrong",
        T::NAME
    );
    let (d, e) = (gen_big_degree(s), gen_big_degree(s));
    let e = if s.chance(1, 2) { d } else { e };
    let c = if s.chance(1, 2) { a0 } else { b0 };
    ensure!(
        (Monomial::new(a0, d) == Monomial::new(c, e))
            == ((a0.is_zero() && c.is_zero()) || (a0 == c && d == e)),
        "monomial == over {} is wrong for {a0:?}x^{d} and {c:?}x^{e}",
        T::NAME
    );
    Ok(())
}

fn check_free(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64,
        Wrapping<i8>, Gf<7>, Ratio<i128>]; free_t(s, ctx))
}

fn check_huge(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i8, i128, u8, u64, f64, Gf<7>]; huge_t(s, ctx))
}

fn check_fixed(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64,
        Wrapping<i8>, Gf<7>, Ratio<i128>]; fixed_t(s, ctx))
}

fn check_equality(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64,
        Wrapping<i8>, Gf<7>, Ratio<i128>]; equality_t(s, ctx))
}

/// The same with long polynomials.
fn check_free_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = pick_long(s);
    check_free(s, ctx)
}

fn check_equality_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = pick_long(s);
    check_equality(s, ctx)
}

fn main() {
    harness::engine::main(Property {
        id: "C08",
        rule: "cases are polynomials in random representations, with zeros stored in any place, and pairs of them for equality; non-trivial: at least two non-zero terms (pairs: neither is zero)",
        assumptions: &["floats are not NaN"],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "dense_sparse", check: check_free, quick: 2_400_000 },
            Sub { name: "huge_degrees", check: check_huge, quick: 2_400_000 },
            Sub { name: "fixed_size", check: check_fixed, quick: 2_400_000 },
            Sub { name: "equality", check: check_equality, quick: 3_200_000 },
            Sub { name: "dense_sparse_long", check: check_free_long, quick: 12_000 },
            Sub { name: "equality_long", check: check_equality_long, quick: 16_000 },
        ],
        known: vec![],
    });
}

//! Arithmetic into a sink, and the macros.

use harness::coef::*;
use harness::engine::*;
use harness::model::*;
use harness::{ensure, pick_type};
use num::traits::{Signed, Zero};
use rustnomial::err::TryAddError;
use rustnomial::poly_math::{add_poly, mul_poly_vec, sub_poly};
use rustnomial::*;
#[allow(unused_imports)]
use rustnomial::{derivative, integral, poly_add, poly_mul, poly_sub, polynomial};
use std::collections::BTreeMap;

type Map<T> = BTreeMap<usize, T>;
type Terms<T> = Vec<(T, usize)>;

/// A source of terms: a polynomial of one of the five types.
#[derive(Clone)]
struct Source<T> {
    model: Model,
    terms: Terms<T>,
    text: String,
}

impl<T: Copy> Source<T> {
    fn ordered_term_iter(&self) -> impl Iterator<Item = (T, usize)> + '_ {
        self.terms.iter().copied()
    }
}

/// What a macro may ask of a polynomial besides its terms.
impl<T: Coef + Zero> SizedPolynomial<T> for Source<T> {
    fn term_with_degree(&self, degree: usize) -> Term<T> {
        match self.model.get(&degree).and_then(T::proj) {
            Some(c) => Term::new(c, degree),
            None => Term::ZeroTerm,
        }
    }

    fn terms_as_vec(&self) -> Vec<(T, usize)> {
        self.terms.iter().filter(|t| !t.0.is_zero()).copied().collect()
    }

    fn degree(&self) -> Degree {
        m_degree(&self.model).map_or(Degree::NegInf, Degree::Num)
    }

    fn zero() -> Self {
        Source { model: Model::new(), terms: Vec::new(), text: String::new() }
    }

    fn set_to_zero(&mut self) {
        *self = Self::zero();
    }
}

fn gen_source<T: Ring>(s: &mut Src, max: usize, mag: Mag, dense_ok: bool) -> Source<T> {
    let kind = s.weighted(&[4, 4, 1, 1, 1]);
    let (g, terms): (Gp<T>, Terms<T>) = match kind {
        0 => {
            let g = gen_gp::<T>(s, max, mag);
            let t = g.dense().ordered_term_iter().collect();
            (g, t)
        }
        1 => {
            let g = if dense_ok { gen_gp::<T>(s, max, mag) } else { gen_gp_sparse::<T>(s, mag) };
            let t = g.sparse().ordered_term_iter().collect();
            (g, t)
        }
        2 => {
            let d = if dense_ok { s.usize(40) } else { gen_big_degree(s) };
            let c = T::gen(s, mag);
            let t = Monomial::new(c, d).ordered_term_iter().collect();
            (Gp { terms: [(d, c)].into_iter().collect(), lead: 0 }, t)
        }
        3 => {
            let g = gen_fixed::<T>(s, 2, mag);
            let t = lin(&g).ordered_term_iter().collect();
            (g, t)
        }
        _ => {
            let g = gen_fixed::<T>(s, 3, mag);
            let t = quad(&g).ordered_term_iter().collect();
            (g, t)
        }
    };
    let what = ["dense", "sparse", "monomial", "binomial", "trinomial"][kind];
    Source {
        model: g.model(),
        terms,
        text: format!("{what} {}", g.show()),
    }
}

/// A list of terms which is not a polynomial's: in any order, with zeros and repetitions.
fn gen_list<T: Ring>(s: &mut Src, mag: Mag) -> Source<T> {
    let terms: Terms<T> = (0..s.usize(8)).map(|_| (T::gen(s, mag), s.usize(20))).collect();
    let mut model = Model::new();
    for (c, d) in &terms {
        model = m_add(&model, &[(*d, c.lift())].into_iter().collect());
    }
    let text = format!("terms {terms:?}");
    Source { model, terms, text }
}

/// Every coefficient of the sum of all of the terms, in any order, is within the type.
fn sum_fits<T: Coef>(lists: &[&Terms<T>]) -> bool {
    let mut sums: BTreeMap<usize, Sums> = BTreeMap::new();
    for l in lists {
        for (c, d) in l.iter() {
            sums.entry(*d).or_default().add(&c.lift());
        }
    }
    sums_ok::<T>(&sums)
}

fn negated<T: Coef>(l: &Terms<T>) -> Result<Terms<T>, Bad> {
    l.iter().map(|(c, d)| Ok((T::proj(&-c.lift()).ok_or(Bad::Discard)?, *d))).collect()
}

fn gp_terms<T: Coef + Zero>(g: &Gp<T>) -> Terms<T> {
    g.terms.iter().map(|(d, c)| (*c, *d)).collect()
}

fn ok(what: &str, r: Result<(), TryAddError>) -> Res {
    match r {
        Ok(()) => Ok(()),
        Err(e) => fail(format!("{what} is refused with {e:?}")),
    }
}

/// The crate's subtraction, whose bounds name a private trait: implemented type by type.
trait Subtract: Ring {
    fn sub_poly<S: MutablePolynomial<Self>>(a: &Source<Self>, p: &mut S) -> Result<(), TryAddError>;
    fn sub_mac<S: MutablePolynomial<Self>>(
        p: &mut S,
        a: &Source<Self>,
        b: &Source<Self>,
    ) -> Result<(), TryAddError>;
    fn sub_new(
        q: &SparsePolynomial<Self>,
        a: &Source<Self>,
        b: &Source<Self>,
    ) -> Polynomial<Self>;
}

macro_rules! subtract {
    ($($t:ty)*) => {$(
        impl Subtract for $t {
            fn sub_poly<S: MutablePolynomial<Self>>(a: &Source<Self>, p: &mut S) -> Result<(), TryAddError> {
                sub_poly(a.ordered_term_iter(), p)
            }
            fn sub_mac<S: MutablePolynomial<Self>>(
                p: &mut S,
                a: &Source<Self>,
                b: &Source<Self>,
            ) -> Result<(), TryAddError> {
                poly_sub!(*p; a, b)
            }
            fn sub_new(
                q: &SparsePolynomial<Self>,
                a: &Source<Self>,
                b: &Source<Self>,
            ) -> Polynomial<Self> {
                poly_sub!(q, a, b)
            }
        }
    )*};
}

subtract!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64);

fn add_free_t<T: Subtract>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: MutablePolynomial<T>,
    SparsePolynomial<T>: MutablePolynomial<T>,
{
    let mag = *s.pick(&[Mag::Tiny, Mag::Small, Mag::Small, Mag::Mid, Mag::Full]);
    let dense = s.chance(2, 3);
    let sink = if dense { gen_gp::<T>(s, 40, mag) } else { gen_gp_sparse::<T>(s, mag) };
    let (a, b) = if dense && s.chance(1, 4) {
        (gen_list::<T>(s, mag), gen_list::<T>(s, mag))
    } else if s.chance(1, 4) {
        // What is already there.
        let b = gen_source::<T>(s, 40, mag, dense);
        let t: Terms<T> = sink.sparse().ordered_term_iter().collect();
        (Source { model: sink.model(), terms: t, text: "the same".into() }, b)
    } else {
        (gen_source::<T>(s, 40, mag, dense), gen_source::<T>(s, 40, mag, dense))
    };
    let minus = s.chance(1, 2);
    ctx.note(|| {
        format!("{} sink {} {} {} and {}", T::NAME, sink.show(), if minus { "-=" } else { "+=" }, a.text, b.text)
    });
    ctx.label_if(minus, "subtraction");
    if !sink.is_zero() && !a.model.is_empty() {
        ctx.nontrivial();
    }
    let start = gp_terms(&sink);
    if !minus {
        if !sum_fits(&[&start, &a.terms, &b.terms]) {
            return Err(Bad::Discard);
        }
        let one = project::<T>(&m_add(&sink.model(), &a.model))?;
        let both = project::<T>(&m_add(&m_add(&sink.model(), &a.model), &b.model))?;
        let list = project::<T>(&m_add(&a.model, &b.model))?;
        if dense {
            let mut p = sink.dense();
            ok("add_poly", add_poly(a.ordered_term_iter(), &mut p))?;
            expect("add_poly to a dense polynomial", &p, &one)?;
            let mut p = sink.dense();
            ok("poly_add!", poly_add!(p; a, b))?;
            expect("poly_add! to a dense polynomial", &p, &both)?;
            let p = poly_add!(a, b);
            expect("poly_add!", &p, &list)?;
            expect("poly_add! of one", &poly_add!(a), &project::<T>(&a.model)?)?;
        }
        let mut p = sink.sparse();
        ok("add_poly", add_poly(a.ordered_term_iter(), &mut p))?;
        expect("add_poly to a sparse polynomial", &p, &one)?;
        let mut p = sink.sparse();
        ok("poly_add!", poly_add!(p; a, b))?;
        return expect("poly_add! to a sparse polynomial", &p, &both);
    }
    let one = m_sub(&sink.model(), &a.model);
    let both = m_sub(&one, &b.model);
    if T::SIGNED {
        if !sum_fits(&[&start, &negated(&a.terms)?, &negated(&b.terms)?]) {
            return Err(Bad::Discard);
        }
    } else if both.values().any(|c| c.is_negative()) {
        // Below zero: refused, unless nothing is subtracted.
        ctx.label("below zero");
        if one.values().any(|c| c.is_negative()) {
            let mut q = sink.sparse();
            let r = T::sub_poly(&a, &mut q);
            ensure!(r == Err(TryAddError::CanNotNegate), "sub_poly from a sparse polynomial over {} gives {r:?}", T::NAME);
            if dense {
                let mut p = sink.dense();
                let r = T::sub_poly(&a, &mut p);
                ensure!(r == Err(TryAddError::CanNotNegate), "sub_poly from a dense polynomial over {} gives {r:?}", T::NAME);
            }
        }
        let mut q = sink.sparse();
        let r = T::sub_mac(&mut q, &a, &b);
        ensure!(r == Err(TryAddError::CanNotNegate), "poly_sub! from a sparse polynomial over {} gives {r:?}", T::NAME);
        if dense {
            let mut p = sink.dense();
            let r = T::sub_mac(&mut p, &a, &b);
            ensure!(r == Err(TryAddError::CanNotNegate), "poly_sub! from a dense polynomial over {} gives {r:?}", T::NAME);
        }
        return Ok(());
    }
    let one = project::<T>(&one)?;
    let both = project::<T>(&both)?;
    if dense {
        let mut p = sink.dense();
        ok("sub_poly", T::sub_poly(&a, &mut p))?;
        expect("sub_poly from a dense polynomial", &p, &one)?;
        let mut p = sink.dense();
        ok("poly_sub!", T::sub_mac(&mut p, &a, &b))?;
        expect("poly_sub! from a dense polynomial", &p, &both)?;
        let q = sink.sparse();
        expect("poly_sub!", &T::sub_new(&q, &a, &b), &both)?;
    }
    let mut p = sink.sparse();
    ok("sub_poly", T::sub_poly(&a, &mut p))?;
    expect("sub_poly from a sparse polynomial", &p, &one)?;
    let mut p = sink.sparse();
    ok("poly_sub!", T::sub_mac(&mut p, &a, &b))?;
    expect("poly_sub! from a sparse polynomial", &p, &both)
}

/// Whether all of the operands, added up or multiplied in any way, stay within the type.
fn norms_fit<T: Coef>(factors: &[&Model], start: &Model) -> bool {
    let mut norm = qi(1);
    for f in factors {
        norm *= m_norm1(f) + qi(1);
    }
    norm += m_norm1(start);
    if T::MODULAR {
        return true;
    }
    if T::FLOAT || T::NAME.starts_with("Ratio") {
        // Multiples of 1/8, three times.
        return norm * qi(512 * 512) <= pow2(if T::NAME == "f32" { 23 } else { 52 });
    }
    T::proj(&norm).is_some()
}

fn mul_free_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: MutablePolynomial<T>,
    SparsePolynomial<T>: MutablePolynomial<T>,
{
    let mag = *s.pick(&[Mag::Tiny, Mag::Tiny, Mag::Small, Mag::Mid]);
    let dense = s.chance(2, 3);
    let len = if s.chance(1, 200) { 80 } else { s.urange(1, 12) };
    let sink = if dense { gen_gp::<T>(s, len, mag) } else { gen_gp_sparse::<T>(s, mag) };
    let lists = dense && s.chance(1, 4);
    let gen = |s: &mut Src| {
        if lists {
            gen_list::<T>(s, mag)
        } else {
            gen_source::<T>(s, len, mag, dense)
        }
    };
    let (a, b) = (gen(s), gen(s));
    ctx.note(|| format!("{} sink {}; {} times {}", T::NAME, sink.show(), a.text, b.text));
    let abs = |t: &Source<T>| -> Model {
        let mut m = Model::new();
        for (c, d) in &t.terms {
            *m.entry(*d).or_insert_with(Q::zero) += c.lift().abs();
        }
        m
    };
    if !norms_fit::<T>(&[&abs(&a), &abs(&b), &sink.model()], &sink.model()) {
        return Err(Bad::Discard);
    }
    if a.model.len() >= 2 && b.model.len() >= 2 {
        ctx.nontrivial();
    }
    let ab = m_mul(&a.model, &b.model);
    let plus = project::<T>(&m_add(&sink.model(), &ab))?;
    let once = project::<T>(&m_mul(&sink.model(), &a.model))?;
    let twice = project::<T>(&m_mul(&sink.model(), &ab))?;
    let ab = project::<T>(&ab)?;
    if dense {
        let mut p = Polynomial::zero();
        ok("mul_poly_vec", mul_poly_vec(a.ordered_term_iter(), &b.terms, &mut p))?;
        expect("mul_poly_vec", &p, &ab)?;
        let mut p = sink.dense();
        ok("mul_poly_vec", mul_poly_vec(a.ordered_term_iter(), &b.terms, &mut p))?;
        expect("mul_poly_vec, added to a dense polynomial", &p, &plus)?;
        let p = poly_mul!(a, b);
        expect("poly_mul!", &p, &ab)?;
        let q = sink.sparse();
        let p = poly_mul!(q, a, b);
        expect("poly_mul! of three", &p, &twice)?;
        let mut p = sink.dense();
        ok("poly_mul!", poly_mul!(p; a))?;
        expect("poly_mul! to a dense polynomial", &p, &once)?;
        let mut p = sink.dense();
        ok("poly_mul!", poly_mul!(p; a, b))?;
        expect("poly_mul! of two to a dense polynomial", &p, &twice)?;
    }
    let mut p = sink.sparse();
    ok("mul_poly_vec", mul_poly_vec(a.ordered_term_iter(), &b.terms, &mut p))?;
    expect("mul_poly_vec, added to a sparse polynomial", &p, &plus)?;
    let mut p = sink.sparse();
    ok("poly_mul!", poly_mul!(p; a))?;
    expect("poly_mul! to a sparse polynomial", &p, &once)?;
    let mut p = sink.sparse();
    ok("poly_mul!", poly_mul!(p; a, b))?;
    expect("poly_mul! of two to a sparse polynomial", &p, &twice)
}

/// Sinks which do not hold everything.
fn fixed_t<T: SRing>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Monomial<T>: MutablePolynomial<T>,
    LinearBinomial<T>: MutablePolynomial<T>,
    QuadraticTrinomial<T>: MutablePolynomial<T>,
{
    let mag = *s.pick(&[Mag::Tiny, Mag::Small]);
    let sink = gen_fixed::<T>(s, 3, mag);
    let a = gen_fixed::<T>(s, 4, mag);
    let a = Gp { terms: a.terms.into_iter().filter(|_| s.chance(2, 3)).collect(), lead: 0 };
    let terms: Terms<T> = a.sparse().ordered_term_iter().collect();
    ctx.note(|| format!("{} sinks up to {}, source {}", T::NAME, sink.show(), a.show()));
    if !norms_fit::<T>(&[&a.model(), &sink.model()], &sink.model()) {
        return Err(Bad::Discard);
    }
    if !a.is_zero() {
        ctx.nontrivial();
    }
    let top = a.degree().unwrap_or(0);

    macro_rules! sink_of_degree {
        ($n:expr, $make:expr, $what:expr) => {{
            let low: Model = sink.model().into_iter().filter(|(d, _)| *d <= $n).collect();
            let fits = top <= $n;
            ctx.label_if(!fits, "degree out of bounds");
            let plus = project::<T>(&m_add(&low, &a.model()))?;
            let minus = project::<T>(&m_sub(&low, &a.model()))?;
            let product = m_mul(&low, &a.model());
            let mut p = $make;
            let add = add_poly(terms.iter().copied(), &mut p);
            let mut q = $make;
            let sub = poly_sub_ring(&terms, &mut q);
            let mut r = $make;
            let sp = a.sparse();
            let mul = poly_mul!(r; sp);
            if fits {
                ok("add_poly", add)?;
                expect(concat!("add_poly to a ", $what), &p, &plus)?;
                ok("subtraction", sub)?;
                expect(concat!("subtraction from a ", $what), &q, &minus)?;
            } else {
                let e = Err(TryAddError::DegreeOutOfBounds);
                ensure!(add == e && sub == e, "adding {} to a {} gives {add:?}, subtracting {sub:?}", a.show(), $what);
            }
            let sink_top = m_degree(&low);
            match (sink_top, a.degree()) {
                (Some(x), Some(y)) if x + y > $n => {
                    // The product has a term that does not fit, unless it is zero (modular types).
                    if product.contains_key(&(x + y)) && !T::MODULAR {
                        let e = Err(TryAddError::DegreeOutOfBounds);
                        ensure!(mul == e, "multiplying a {} by {} gives {mul:?}", $what, a.show());
                    }
                }
                _ => {
                    ok("poly_mul!", mul)?;
                    expect(concat!("poly_mul! to a ", $what), &r, &project::<T>(&product)?)?;
                }
            }
        }};
    }
    sink_of_degree!(1, lin(&sink), "binomial");
    sink_of_degree!(2, quad(&sink), "trinomial");

    // A monomial takes one degree.
    let d = s.usize(4);
    let m = Monomial::new(sink.terms[&0], d);
    let model = clean([(d, sink.terms[&0].lift())].into_iter().collect());
    let mut p = m.clone();
    let add = add_poly(terms.iter().copied(), &mut p);
    let mut degrees: Vec<usize> = model.keys().copied().collect();
    degrees.extend(terms.iter().map(|t| t.1));
    degrees.sort_unstable();
    degrees.dedup();
    if degrees.len() <= 1 {
        ok("add_poly", add)?;
        expect("add_poly to a monomial", &p, &project::<T>(&m_add(&model, &a.model()))?)?;
    } else if m_add(&model, &a.model()).len() > 1 && !T::MODULAR {
        let e = Err(TryAddError::TooManyTerms);
        ensure!(add == e, "adding {} to a monomial gives {add:?}", a.show());
    }
    // Products of a monomial and several terms do not fit, unless they are zero.
    let mut p = m.clone();
    let sp = a.sparse();
    let mul = poly_mul!(p; sp);
    let product = m_mul(&model, &a.model());
    let start = clean([(0, sink.terms[&1].lift())].into_iter().collect());
    let constant = Monomial::new(sink.terms[&1], 0);
    let mut q = constant.clone();
    let vec = mul_poly_vec(terms.iter().copied(), &m.terms_as_vec(), &mut q);
    if terms.len() <= 1 || sink.terms[&0].is_zero() {
        ok("poly_mul!", mul)?;
        expect("poly_mul! to a monomial", &p, &project::<T>(&product)?)?;
    } else if product.len() > 1 && !T::MODULAR {
        ctx.label("too many terms");
        let e = Err(TryAddError::TooManyTerms);
        ensure!(mul == e, "multiplying a monomial by {} gives {mul:?}", a.show());
    }
    let want = m_add(&start, &product);
    let mut degrees: Vec<usize> = start.keys().chain(product.keys()).copied().collect();
    degrees.sort_unstable();
    degrees.dedup();
    if degrees.len() <= 1 && terms.len() <= 1 {
        ok("mul_poly_vec", vec)?;
        expect("mul_poly_vec to a monomial", &q, &project::<T>(&want)?)?;
    } else if want.len() > 1 && !T::MODULAR {
        let e = Err(TryAddError::TooManyTerms);
        ensure!(vec == e, "{} times a monomial added to a constant gives {vec:?}", a.show());
    }
    // A binomial by a list, into a trinomial.
    let lower: Terms<T> = lin(&sink).terms_as_vec();
    let low: Model = sink.model().into_iter().filter(|(d, _)| *d <= 1).collect();
    let product = m_mul(&low, &a.model());
    let mut q = quad(&sink);
    let vec = mul_poly_vec(terms.iter().copied(), &lower, &mut q);
    if m_degree(&product).map_or(true, |d| d <= 2) && !T::MODULAR {
        ok("mul_poly_vec", vec)?;
        expect("mul_poly_vec to a trinomial", &q, &project::<T>(&m_add(&sink.model(), &product))?)?;
    } else if !T::MODULAR {
        let e = Err(TryAddError::DegreeOutOfBounds);
        ensure!(vec == e, "{} times a binomial added to a trinomial gives {vec:?}", a.show());
    }
    let other = Monomial::new(a.terms.get(&1).copied().unwrap_or_else(T::zero), s.usize(50));
    let mut p = m.clone();
    ok("poly_mul!", poly_mul!(p; other))?;
    let o = clean([(other.deg, other.coefficient.lift())].into_iter().collect());
    expect("poly_mul! of monomials", &p, &project::<T>(&m_mul(&model, &o))?)
}

/// Subtraction, for types which sub_poly does not take.
fn poly_sub_ring<T: SRing, P: MutablePolynomial<T>>(terms: &Terms<T>, p: &mut P) -> Result<(), TryAddError> {
    for (c, d) in terms {
        p.try_sub_term(*c, *d)?;
    }
    Ok(())
}

/// polynomial!, derivative! and integral! are the constructor and what follows.
fn macros_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: Derivable<T> + Integrable<T, Polynomial<T>> + FreeSizePolynomial<T> + Evaluable<T>,
{
    let n = s.urange(1, 6);
    let v: Vec<T> = (0..n)
        .map(|_| if s.chance(1, 3) { T::zero() } else { T::gen(s, Mag::Tiny) })
        .collect();
    // Divisible by all of the numbers up to 6, so that integrals are exact.
    let w: Vec<T> = (0..n).map(|_| T::proj(&(qi(60) * T::gen(s, Mag::Tiny).lift())).unwrap_or_else(T::zero)).collect();
    ctx.note(|| format!("{}: {v:?}, {w:?}", T::NAME));
    if v.iter().filter(|c| !c.is_zero()).count() >= 2 {
        ctx.nontrivial();
    }
    let model = |v: &[T]| -> Model {
        let n = v.len();
        clean(v.iter().enumerate().map(|(i, c)| (n - 1 - i, c.lift())).collect())
    };
    macro_rules! all {
        ($mac:ident, $v:expr) => {
            match $v.as_slice() {
                [a] => $mac!(*a),
                [a, b] => $mac!(*a, *b),
                [a, b, c] => $mac!(*a, *b, *c),
                [a, b, c, d] => $mac!(*a, *b, *c, *d),
                [a, b, c, d, e] => $mac!(*a, *b, *c, *d, *e),
                [a, b, c, d, e, f] => $mac!(*a, *b, *c, *d, *e, *f),
                _ => unreachable!(),
            }
        };
    }
    let p: Polynomial<T> = all!(polynomial, v);
    expect("polynomial!", &p, &project::<T>(&model(&v))?)?;
    let p: Polynomial<T> = all!(derivative, v);
    expect("derivative!", &p, &project::<T>(&m_deriv(&model(&v)))?)?;
    let i: Integral<T, Polynomial<T>> = all!(integral, w);
    let want: Model = model(&w).iter().map(|(d, c)| (d + 1, c / qu(d + 1))).collect();
    let want: Map<T> = project::<T>(&want)?;
    expect("integral!", i.inner(), &want)
}

fn check_add(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, u8, i64, u32, i8, i16, i128, isize, u16, u64, u128, usize, f32, f64]; add_free_t(s, ctx))
}

fn check_mul(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, u32, i64, i16, i128, isize, u16, u64, u128, usize, f32, f64]; mul_free_t(s, ctx))
}

fn check_fixed(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i16, i128, isize, f32, f64, Gf<7>]; fixed_t(s, ctx))
}

fn check_macros(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i16, i128, u16, u32, u64, u128, f32, f64]; macros_t(s, ctx))
}

/// The same with long operands.
fn check_add_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = *s.pick(&[300, 300, 1100]);
    check_add(s, ctx)
}

fn main() {
    harness::engine::main(Property {
        id: "C16",
        rule: "cases are a sink of one of the five types and sources of terms of any type (or plain lists of terms); non-trivial: the sink and the first source are not zero (products: two terms in both factors; macros: two non-zero numbers)",
        assumptions: &[
            "sums and products stay within the coefficient type, except subtractions below zero of unsigned coefficients, which have to be refused",
            "what is left in a sink after an error is not specified",
        ],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "sums", check: check_add, quick: 1_440_000 },
            Sub { name: "products", check: check_mul, quick: 960_000 },
            Sub { name: "fixed_size_sinks", check: check_fixed, quick: 960_000 },
            Sub { name: "macros", check: check_macros, quick: 720_000 },
            Sub { name: "add_long", check: check_add_long, quick: 6_000 },
        ],
        known: vec![],
    });
}

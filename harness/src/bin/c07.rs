//! Shifts: multiplication by, and truncating division by, powers of x.

use harness::coef::*;
use harness::engine::*;
use harness::model::*;
use harness::{ensure, pick_type};
use num::rational::Ratio;
use num::traits::Zero;
use rustnomial::*;
use std::collections::BTreeMap;
use std::num::Wrapping;

/// The value of shifting by `k`: to the left if positive, to the right if negative.
fn shifted<T: Coef + Zero>(terms: &BTreeMap<usize, T>, k: i64) -> BTreeMap<usize, T> {
    terms
        .iter()
        .filter(|(_, c)| !c.is_zero())
        .filter_map(|(d, c)| {
            let d = *d as i128 + k as i128;
            (d >= 0).then_some((d as usize, *c))
        })
        .collect()
}

fn note_one<T: Coef + Zero>(ctx: &mut Ctx, a: &Gp<T>, k: i32) {
    ctx.note(|| format!("{}: {} shifted by {k}", T::NAME, a.show()));
    ctx.label_if(a.has_stored_zero(), "stored zeros");
    ctx.label_if(k < 0, "negative shift");
    ctx.label_if(a.is_zero(), "zero");
    if k != 0 && a.terms.values().filter(|c| !c.is_zero()).count() >= 2 {
        ctx.nontrivial();
    }
}

fn dense_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let mut a = gen_gp::<T>(s, 140, mag);
    if s.chance(1, 4) {
        // A few zeros at the low end.
        let n = s.usize(6);
        a.terms.retain(|d, _| *d >= n);
    }
    let n = a.dense_vec().len() as i64;
    // How far to the right (negative: to the left).
    let right = match s.weighted(&[6, 8, 4, 2, 1]) {
        0 => s.range(0, n),
        1 => -s.range(0, 40),
        2 => n - s.range(-3, 8),
        3 if s.long > 0 && s.chance(1, 2) => {
            -((1 << s.urange(12, 17)) + s.range(-3, 4))
        }
        3 => -s.range(0, 3000),
        _ => *s.pick(&[i32::MAX as i64, i32::MAX as i64 - 1, 1 << 16, 1 << 30]),
    } as i32;
    note_one(ctx, &a, right);
    let want = shifted(&a.terms, -(right as i64));
    expect("dense >>", &(a.dense() >> right), &want)?;
    let mut p = a.dense();
    p >>= right;
    expect("dense >>=", &p, &want)?;
    expect("dense <<", &(a.dense() << -right), &want)?;
    let mut p = a.dense();
    p <<= -right;
    expect("dense <<=", &p, &want)?;
    if right > 0 && s.chance(1, 50) {
        expect("dense << i32::MIN", &(a.dense() << i32::MIN), &BTreeMap::new())?;
        let mut p = a.dense();
        p <<= i32::MIN;
        expect("dense <<= i32::MIN", &p, &BTreeMap::new())?;
    }
    Ok(())
}

fn gen_shift(s: &mut Src) -> i32 {
    match s.weighted(&[6, 3, 2, 2]) {
        0 => s.range(-12, 12) as i32,
        1 => s.range(-400, 400) as i32,
        2 => s.below(1 << 32) as u32 as i32,
        _ => *s.pick(&[
            0,
            1,
            -1,
            i32::MAX,
            i32::MIN,
            i32::MIN + 1,
            i32::MAX - 1,
            65536,
            -65536,
            1 << 30,
        ]),
    }
}

fn sparse_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let a = if s.chance(1, 2) {
        gen_gp_sparse::<T>(s, mag)
    } else {
        gen_gp::<T>(s, 30, mag)
    };
    let k = if s.long > 0 && s.chance(1, 2) {
        s.range(-4200, 4200) as i32
    } else if let (Some(d), true) = (a.terms.keys().next_back(), s.chance(1, 6)) {
        // Close to the low bits of a degree.
        let k = (*d as u32 as i32).wrapping_add(s.range(-3, 4) as i32);
        if s.chance(1, 2) {
            k
        } else {
            k.wrapping_neg()
        }
    } else {
        gen_shift(s)
    };
    note_one(ctx, &a, k);
    let want = shifted(&a.terms, k as i64);
    expect("sparse <<", &(a.sparse() << k), &want)?;
    let mut p = a.sparse();
    p <<= k;
    expect("sparse <<=", &p, &want)?;
    let want = shifted(&a.terms, -(k as i64));
    expect("sparse >>", &(a.sparse() >> k), &want)?;
    let mut p = a.sparse();
    p >>= k;
    expect("sparse >>=", &p, &want)?;

    for (d, c) in a.terms.iter().take(3) {
        let m = Monomial::new(*c, *d);
        let t: BTreeMap<usize, T> = [(*d, *c)].into_iter().collect();
        let want = shifted(&t, k as i64);
        expect("monomial <<", &(m.clone() << k), &want)?;
        let mut p = m.clone();
        p <<= k;
        expect("monomial <<=", &p, &want)?;
        let want = shifted(&t, -(k as i64));
        expect("monomial >>", &(m.clone() >> k), &want)?;
        let mut p = m;
        p >>= k;
        expect("monomial >>=", &p, &want)?;
    }
    Ok(())
}

fn fixed_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let a = gen_fixed::<T>(s, 3, mag);
    let k = match s.below(6) {
        0 => s.below(1 << 32) as u32,
        1 => *s.pick(&[u32::MAX, 1 << 31, (1 << 31) - 1, 256, 65536]),
        _ => s.below(5) as u32,
    };
    note_one(ctx, &a, k.min(i32::MAX as u32) as i32);
    let want = shifted(&a.terms, -(k as i64));
    expect("trinomial >>", &(quad(&a) >> k), &want)?;
    let mut p = quad(&a);
    p >>= k;
    expect("trinomial >>=", &p, &want)?;
    let low: BTreeMap<usize, T> = a.terms.range(..2).map(|(d, c)| (*d, *c)).collect();
    let want = shifted(&low, -(k as i64));
    expect("binomial >>", &(lin(&a) >> k), &want)?;
    let mut p = lin(&a);
    p >>= k;
    expect("binomial >>=", &p, &want)
}

/// Shifting to the left and back changes nothing.
fn back_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let a = gen_gp::<T>(s, 60, mag);
    let k = s.range(0, 200) as i32;
    note_one(ctx, &a, k);
    let want = project::<T>(&a.model())?;
    expect("dense << >>", &((a.dense() << k) >> k), &want)?;
    let mut p = a.dense();
    p <<= k;
    p >>= k;
    expect("dense <<= >>=", &p, &want)?;
    expect("sparse << >>", &((a.sparse() << k) >> k), &want)?;
    let mut p = a.sparse();
    p <<= k;
    p >>= k;
    expect("sparse <<= >>=", &p, &want)?;
    // In two steps or in one.
    let j = s.range(0, 100) as i32;
    let twice = (a.dense() >> j) >> k;
    let once = a.dense() >> (j + k);
    ensure!(twice == once, "dense >> {j} >> {k} is {twice:?}, but >> {} is {once:?}", j + k);
    Ok(())
}

fn check_dense(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64,
        Wrapping<i8>, Gf<7>, Ratio<i128>]; dense_t(s, ctx))
}

fn check_sparse(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64,
        Wrapping<i8>, Gf<7>, Ratio<i128>]; sparse_t(s, ctx))
}

fn check_fixed(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64,
        Wrapping<i8>, Gf<7>, Ratio<i128>]; fixed_t(s, ctx))
}

fn check_back(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, u8, f64, i128, Gf<7>]; back_t(s, ctx))
}

/// The same with long polynomials.
fn check_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = pick_long(s);
    check_dense(s, ctx)
}

fn check_sparse_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = pick_long(s);
    check_sparse(s, ctx)
}

fn check_back_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = pick_long(s);
    check_back(s, ctx)
}

fn main() {
    harness::engine::main(Property {
        id: "C07",
        rule: "cases are polynomials in random representations and shifts in both directions, including the limits of i32 and u32; non-trivial: at least two non-zero terms and a shift which is not zero",
        assumptions: &["degrees stay below usize::MAX; dense polynomials are shifted left by at most about 131,072"],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "dense", check: check_dense, quick: 3_200_000 },
            Sub { name: "sparse_monomial", check: check_sparse, quick: 4_800_000 },
            Sub { name: "fixed_size", check: check_fixed, quick: 3_200_000 },
            Sub { name: "back_and_forth", check: check_back, quick: 960_000 },
            Sub { name: "long", check: check_long, quick: 12_000 },
            Sub { name: "sparse_long", check: check_sparse_long, quick: 8_000 },
            Sub { name: "back_and_forth_long", check: check_back_long, quick: 8_000 },
        ],
        known: vec![],
    });
}

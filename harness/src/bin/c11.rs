//! Reading polynomials from text.

use harness::coef::*;
use harness::engine::*;
use harness::model::*;
use harness::{ensure, pick_type};
use num::bigint::BigInt;
use num::traits::One;
use rustnomial::err::{PolynomialFromStringError, TermFromStringError, TryAddError};
use rustnomial::*;
use std::collections::BTreeMap;
use std::str::FromStr;

type Map<T> = BTreeMap<usize, T>;
type Err0 = PolynomialFromStringError;
use TermFromStringError as TE;

/// More separators than anyone would expect.
const LONG_SEP: &str = "        ,        _        ,        _        ,        _        ,        _        ,        _        ,        _        ,        _        ,        _        ,        _        ,        _        ,        _        ,        _        ,        _        ,        _        ,        _        ,        _";

/// One term and how it is spelled.
#[derive(Clone)]
struct Spelled<T> {
    text: String,
    coeff: T,
    degree: usize,
}

fn sep(s: &mut Src, loose: u64) -> &'static str {
    if s.long > 0 && loose > 0 && s.chance(1, 50) {
        return LONG_SEP;
    }
    if loose == 0 || !s.chance(loose, 12) {
        return "";
    }
    [" ", "  ", "_", ",", ", ", " _"][s.usize(6)]
}

fn spread(s: &mut Src, digits: &str, loose: u64) -> String {
    let mut out = String::new();
    for (i, c) in digits.chars().enumerate() {
        if i > 0 {
            out.push_str(sep(s, loose));
        }
        out.push(c);
    }
    out
}

/// How many zeros stand in front of a number.
fn zeros(s: &mut Src) -> usize {
    if s.long == 0 {
        s.urange(1, 3)
    } else if s.chance(1, 8) {
        s.named(24, 5000)
    } else {
        s.urange(1, 300)
    }
}

/// The sign, as the first or a later term has it.
fn sign(s: &mut Src, negative: bool, first: bool, loose: u64) -> String {
    let mark = match (negative, first) {
        (true, _) => "-",
        (false, false) => "+",
        (false, true) => {
            if s.chance(1, 4) {
                "+"
            } else {
                ""
            }
        }
    };
    let before = if first {
        // Only spaces may be in front of the first sign.
        if loose > 0 && s.chance(1, 3) {
            let n = if !s.chance(1, 4) {
                s.usize(4)
            } else if s.chance(1, 2) {
                s.usize(100)
            } else {
                s.named(24, 5000)
            };
            " ".repeat(n)
        } else {
            String::new()
        }
    } else {
        sep(s, loose).to_string()
    };
    let after = if mark.is_empty() { "" } else { sep(s, loose) };
    format!("{before}{mark}{after}")
}

fn degree_text(s: &mut Src, degree: usize, loose: u64) -> String {
    let mut digits = degree.to_string();
    if loose > 0 && s.chance(1, 6) {
        digits = format!("{}{digits}", "0".repeat(zeros(s)));
    }
    let digits = spread(s, &digits, loose);
    format!("x{}^{}{digits}", sep(s, loose), sep(s, loose))
}

fn spell<T: Prim>(s: &mut Src, coeff: T, degree: usize, first: bool, loose: u64) -> Spelled<T> {
    let mut text = sign(s, coeff.is_neg(), first, loose);
    let mut digits = coeff.abs_string();
    let mut coeff = coeff;
    if loose > 0 && s.chance(1, 6) {
        digits = format!("{}{digits}", "0".repeat(zeros(s)));
    }
    if T::FLOAT && loose > 0 && s.chance(1, 6) && digits.len() < 30 {
        // Other decimal fractions, which the standard library reads.
        let whole = digits.split('.').next().unwrap().to_string();
        digits = match s.below(3) {
            0 => format!("{whole}."),
            1 => format!(".{}", s.below(1000)),
            _ => format!("{whole}.{}0", s.below(1000)),
        };
        let signed = if coeff.is_neg() { format!("-{digits}") } else { digits.clone() };
        coeff = T::from_str(&signed).ok().expect("a decimal fraction");
    }
    let elide = degree > 0 && coeff.abs_string() == "1" && s.chance(2, 3);
    if !elide {
        text.push_str(&spread(s, &digits, loose));
        text.push_str(sep(s, loose));
    }
    match degree {
        0 if s.chance(4, 5) || elide => {}
        1 if s.chance(1, 2) => text.push('x'),
        _ => text.push_str(&degree_text(s, degree, loose)),
    }
    text.push_str(sep(s, loose));
    Spelled { text, coeff, degree }
}

/// What a polynomial type accepts.
#[derive(Clone, Copy, PartialEq)]
enum Shape {
    Free,
    One,
    UpTo(usize),
}

trait Readable<T>: FromStr<Err = Err0> + Stored<T> {
    const SHAPE: Shape;
    const WHAT: &'static str;
    const DENSE: bool = false;
}

macro_rules! readable {
    ($($P:ident $shape:expr, $dense:expr;)*) => {$(
        impl<T: Prim> Readable<T> for $P<T> where $P<T>: FromStr<Err = Err0> {
            const SHAPE: Shape = $shape;
            const WHAT: &'static str = stringify!($P);
            const DENSE: bool = $dense;
        }
    )*};
}
readable! {
    Polynomial Shape::Free, true;
    SparsePolynomial Shape::Free, false;
    Monomial Shape::One, false;
    LinearBinomial Shape::UpTo(1), false;
    QuadraticTrinomial Shape::UpTo(2), false;
}

fn shown<T: Prim, P: Readable<T>>(r: &Result<P, Err0>) -> String {
    match r {
        Ok(p) => format!("reads as {}", show_map(&nonzero(p))),
        Err(e) => format!("is refused with {e:?}"),
    }
}

fn accepted<T: Prim, P: Readable<T>>(text: &str, want: &Map<T>) -> Res {
    let got = P::from_str(text);
    let fine = match &got {
        Ok(p) => {
            let got = nonzero(p);
            got.len() == want.len()
                && got.iter().zip(want).all(|((d, c), (e, k))| d == e && c.same_bits(*k))
        }
        Err(_) => false,
    };
    ensure!(
        fine,
        "{text:?} {} as a {}<{}>, but it is {}",
        shown(&got),
        P::WHAT,
        T::NAME,
        show_map(want)
    );
    Ok(())
}

fn refused<T: Prim, P: Readable<T>>(text: &str, error: Option<Err0>) -> Res {
    let got = P::from_str(text);
    let fine = match (&got, error) {
        (Ok(_), _) => false,
        (Err(_), None) => true,
        (Err(e), Some(w)) => *e == w,
    };
    ensure!(
        fine,
        "{text:?} {} as a {}<{}> instead of {}",
        shown(&got),
        P::WHAT,
        T::NAME,
        error.map_or("being refused".to_string(), |e| format!("being refused with {e:?}"))
    );
    Ok(())
}

fn gen_degree(s: &mut Src, shape: Shape, dense: bool) -> usize {
    match shape {
        Shape::UpTo(n) => s.usize(n + 1),
        _ => match s.below(if dense { 4 } else { 6 }) {
            0 | 1 => s.usize(4),
            2 => s.usize(30),
            3 if s.chance(1, 8) => s.named(24, 5000),
            3 => s.usize(300 + s.long),
            4 => gen_big_degree(s),
            _ => gen_limit_degree(s, false),
        },
    }
}

/// Terms which can be added up in any order without overflow, and their sum. The last line of
/// defence against rounding is that floats of one degree are either alone or few multiples of 1/8.
fn gen_terms<T: Prim>(s: &mut Src, shape: Shape, dense: bool, loose: u64) -> (Vec<Spelled<T>>, Map<T>) {
    let mag = gen_mag(s);
    let n = match s.below(6) {
        0 | 1 => 1,
        2..=4 => s.urange(1, 5),
        _ => s.urange(1, 30),
    };
    let n = if s.long > 0 { gen_long_len(s, s.long).max(1) } else { n };
    let only = gen_degree(s, shape, dense);
    let mut sums: BTreeMap<usize, Sums> = BTreeMap::new();
    let mut sum: Map<T> = Map::new();
    let mut out: Vec<Spelled<T>> = vec![];
    for _ in 0..n {
        let c: T = gen_unit_or(s, 2, mag);
        let d = match shape {
            Shape::One => only,
            _ if !sum.is_empty() && s.chance(1, 4) => *sum.keys().nth(s.usize(sum.len())).unwrap(),
            _ => gen_degree(s, shape, dense),
        };
        let mut t = spell(s, c, d, out.is_empty(), loose);
        if let Some(old) = sums.get(&d) {
            let mut new = old.clone();
            new.add(&t.coeff.lift());
            if !T::sum_ok(&new) {
                continue;
            }
            match T::proj(&new.total()) {
                Some(v) => sum.insert(d, v),
                None => continue,
            };
            sums.insert(d, new);
        } else {
            let mut new = Sums::default();
            new.add(&t.coeff.lift());
            sum.insert(d, t.coeff);
            sums.insert(d, new);
        }
        // A spelling like " + 5x" is more usual than "+ 5x".
        if !out.is_empty() && loose == 0 && s.chance(1, 2) {
            t.text = format!(" {} {}", &t.text[..1], &t.text[1..]);
        }
        out.push(t);
    }
    sum.retain(|_, c| !c.is_zero());
    (out, sum)
}

fn note_text(ctx: &mut Ctx, what: &str, text: &str) {
    ctx.note(|| format!("{what} {:?}", brief(text)));
}

fn valid_as<T: Prim, P: Readable<T>>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let loose = [0, 0, 2, 6][s.usize(4)];
    let (terms, want) = gen_terms::<T>(s, P::SHAPE, P::DENSE, loose);
    let text: String = terms.iter().map(|t| t.text.as_str()).collect();
    note_text(ctx, &format!("{}<{}>", P::WHAT, T::NAME), &text);
    ctx.label_if(loose > 0, "separators, leading zeros");
    ctx.label_if(terms.len() > 1, "more than one term");
    if want.len() >= 2 || (P::SHAPE != Shape::Free && !want.is_empty()) {
        ctx.nontrivial();
    }
    accepted::<T, P>(&text, &want)?;
    // A single term alone.
    if let [t] = terms.as_slice() {
        let got = Term::<T>::from_str(&t.text);
        let want = Ok(Term::new(t.coeff, t.degree));
        ensure!(got == want, "{:?} reads as {got:?} instead of {want:?} as a Term<{}>", t.text, T::NAME);
    }
    Ok(())
}

fn valid_t<T: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: FromStr<Err = Err0>,
    SparsePolynomial<T>: FromStr<Err = Err0>,
    Monomial<T>: FromStr<Err = Err0>,
    LinearBinomial<T>: FromStr<Err = Err0>,
    QuadraticTrinomial<T>: FromStr<Err = Err0>,
{
    match s.weighted(&[4, 4, 1, 1, 1]) {
        0 => valid_as::<T, Polynomial<T>>(s, ctx),
        1 => valid_as::<T, SparsePolynomial<T>>(s, ctx),
        2 => valid_as::<T, Monomial<T>>(s, ctx),
        3 => valid_as::<T, LinearBinomial<T>>(s, ctx),
        _ => valid_as::<T, QuadraticTrinomial<T>>(s, ctx),
    }
}

/// A term with exactly one thing wrong with it. `+` or `-` in front unless it is the first.
fn faulty<T: Prim>(s: &mut Src, first: bool, loose: u64) -> (String, TE) {
    let c: T = gen_unit_or(s, 2, Mag::Small);
    let d = s.usize(9);
    let mut sg = sign(s, c.is_neg(), first, loose);
    let digits = c.abs_string();
    let plain = if first { String::new() } else { "+".to_string() };
    match s.below(14) {
        0 => (format!("{sg}{digits}xx"), TE::MoreThanOneX),
        1 => (format!("{sg}{digits}x^{d}x"), TE::MoreThanOneX),
        2 => (format!("{sg}x{}x^{d}", sep(s, loose)), TE::MoreThanOneX),
        3 | 4 => {
            let bad = *s.pick(&[
                'e', 'y', 'X', '*', '/', '(', ')', '=', '\t', '\n', 'é', '−', '２', '😀', '\u{0}', '\u{a0}',
                ':', ';', '\'', 'E', 'n', 'N', '#', '%',
            ]);
            let named = s.named_char();
            let usual = |c: char| c.is_ascii_digit() || "+-.,_x^ ".contains(c);
            let bad = if s.chance(1, 3) && !usual(named) { named } else { bad };
            let t = spell(s, c, d, first, loose).text;
            // Anywhere after the sign which separates this term from the one before it.
            let start = t.find(['+', '-']).map_or(0, |i| if first { 0 } else { i + 1 });
            let places: Vec<usize> = (start..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
            let at = *s.pick(&places);
            // In front of the first sign, it would be a term of its own.
            let at = if first { at.max(t.find(['+', '-']).map_or(0, |i| i + 1)) } else { at };
            (format!("{}{bad}{}", &t[..at], &t[at..]), TE::UnexpectedChar(bad))
        }
        5 => (format!("{sg}{digits}^{d}"), TE::CaretWithoutXInFront),
        6 => (format!("{sg}{digits}^{d}x"), TE::CaretWithoutXInFront),
        7 => {
            let n = s.urange(1, 2);
            (format!("{sg}{digits}x^{}{d}", "^".repeat(n)), TE::MultipleCarets)
        }
        8 => (format!("{sg}{digits}x^{d}^{d}"), TE::MultipleCarets),
        9 => (format!("{sg}{digits}x{}^{}", sep(s, loose), sep(s, loose)), TE::CaretWithoutDegree),
        10 => {
            // A number the coefficient type does not have.
            let tail = ["", "x", "x^3"][s.usize(3)];
            if T::FLOAT {
                let bad = ["1.2.3", "..5", "1..", "."][s.usize(4)];
                (format!("{sg}{bad}{tail}"), TE::CoeffCouldNotBeParsed)
            } else {
                let over = s.chance(1, 2);
                // The first power of two which is out of range.
                let mut n = BigInt::one();
                while T::proj(&Q::from_integer(n.clone())).is_some() {
                    n *= 2;
                }
                if over || !T::SIGNED {
                    n += s.below(3) * s.below(1000);
                    (format!("{plain}{n}{tail}"), TE::CoeffCouldNotBeParsed)
                } else {
                    n += 1 + s.below(3) * s.below(1000);
                    (format!("-{n}{tail}"), TE::CoeffCouldNotBeParsed)
                }
            }
        }
        11 => {
            // A fraction or a negative number where there are none, or only a sign.
            let tail = ["", "x", "x^3"][s.usize(3)];
            if !T::FLOAT && s.chance(1, 2) {
                (format!("{sg}{d}.5{tail}"), TE::CoeffCouldNotBeParsed)
            } else if !T::SIGNED {
                (format!("-{}{tail}", d + 1), TE::CoeffCouldNotBeParsed)
            } else {
                if sg.trim().is_empty() {
                    sg = "-".to_string();
                }
                (sg, TE::CoeffCouldNotBeParsed)
            }
        }
        12 => {
            let bad = ["1.5", ".", "2.", "1.0", "0.0"][s.usize(5)];
            (format!("{sg}{digits}x^{bad}"), TE::DegreeCouldNotBeParsed)
        }
        _ => {
            let n = BigInt::from(usize::MAX) + 1 + s.below(3) * s.below(1 << 40);
            let digits = if digits == "0" { "1".into() } else { digits };
            (format!("{sg}{digits}x^{n}"), TE::DegreeCouldNotBeParsed)
        }
    }
}

fn fault_as<T: Prim, P: Readable<T>>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let loose = [0, 0, 2][s.usize(3)];
    let place = s.usize(4);
    let (mut terms, _) = gen_terms::<T>(s, P::SHAPE, P::DENSE, loose);
    let at = place.min(terms.len());
    let (bad, error) = faulty::<T>(s, at == 0, loose);
    // Whatever follows has to start with a sign, and does: all but the first do.
    terms.truncate(at.max(1) + s.usize(3));
    let mut text = String::new();
    for (i, t) in terms.iter().enumerate() {
        if i == at {
            text.push_str(&bad);
        }
        if i == 0 && at == 0 {
            continue;
        }
        text.push_str(&t.text);
    }
    if at >= terms.len() {
        text.push_str(&bad);
    }
    note_text(ctx, &format!("{}<{}>: {error:?}", P::WHAT, T::NAME), &text);
    ctx.label(match error {
        TE::MoreThanOneX => "MoreThanOneX",
        TE::CoeffCouldNotBeParsed => "CoeffCouldNotBeParsed",
        TE::UnexpectedChar(_) => "UnexpectedChar",
        TE::CaretWithoutXInFront => "CaretWithoutXInFront",
        TE::CaretWithoutDegree => "CaretWithoutDegree",
        TE::MultipleCarets => "MultipleCarets",
        TE::DegreeCouldNotBeParsed => "DegreeCouldNotBeParsed",
    });
    ctx.nontrivial();
    refused::<T, P>(&text, Some(Err0::TermFromString(error)))?;
    let got = Term::<T>::from_str(&bad);
    ensure!(got == Err(error), "{bad:?} gives {got:?} instead of {error:?} as a Term<{}>", T::NAME);
    Ok(())
}

fn fault_t<T: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: FromStr<Err = Err0>,
    SparsePolynomial<T>: FromStr<Err = Err0>,
    Monomial<T>: FromStr<Err = Err0>,
    LinearBinomial<T>: FromStr<Err = Err0>,
    QuadraticTrinomial<T>: FromStr<Err = Err0>,
{
    match s.weighted(&[4, 4, 1, 1, 1]) {
        0 => fault_as::<T, Polynomial<T>>(s, ctx),
        1 => fault_as::<T, SparsePolynomial<T>>(s, ctx),
        2 => fault_as::<T, Monomial<T>>(s, ctx),
        3 => fault_as::<T, LinearBinomial<T>>(s, ctx),
        _ => fault_as::<T, QuadraticTrinomial<T>>(s, ctx),
    }
}

/// Well-formed text of polynomials that a type can not hold.
fn misfit_as<T: Prim, P: Readable<T>>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let loose = [0, 0, 2][s.usize(3)];
    let (mut terms, want) = gen_terms::<T>(s, P::SHAPE, false, loose);
    let gen_nonzero = |s: &mut Src| -> T {
        let mag = gen_mag(s);
        let c: T = gen_unit_or(s, 1, mag);
        if c.is_zero() {
            T::one()
        } else {
            c
        }
    };
    let error = match P::SHAPE {
        Shape::Free => unreachable!(),
        Shape::UpTo(n) => {
            let c = gen_nonzero(s);
            let d = match s.below(3) {
                0 => n + 1,
                1 => n + 1 + s.usize(10),
                _ => (n + 1).max(gen_limit_degree(s, false)),
            };
            let at = s.usize(terms.len() + 1);
            let first = at == 0;
            let t = spell(s, c, d, first, loose);
            if t.coeff.is_zero() {
                return Err(Bad::Discard);
            }
            if first {
                // The next one needs a sign, now that it is not the first any more.
                let t0 = &terms[0];
                let (c0, d0) = (t0.coeff, t0.degree);
                terms[0] = spell(s, c0, d0, false, 0);
            }
            terms.insert(at, t);
            TryAddError::DegreeOutOfBounds
        }
        Shape::One => {
            if want.is_empty() {
                return Err(Bad::Discard);
            }
            let c = gen_nonzero(s);
            let here = *want.keys().next().unwrap();
            let d = match s.below(4) {
                0 => here.checked_add(1).unwrap_or(0),
                1 => here.checked_sub(1).unwrap_or(1),
                2 => s.usize(5),
                _ => gen_limit_degree(s, false),
            };
            let t = spell(s, c, d, false, loose);
            if d == here || t.coeff.is_zero() {
                return Err(Bad::Discard);
            }
            terms.push(t);
            TryAddError::TooManyTerms
        }
    };
    let text: String = terms.iter().map(|t| t.text.as_str()).collect();
    note_text(ctx, &format!("{}<{}>: {error:?}", P::WHAT, T::NAME), &text);
    ctx.label_if(error == TryAddError::TooManyTerms, "TooManyTerms");
    ctx.label_if(error == TryAddError::DegreeOutOfBounds, "DegreeOutOfBounds");
    ctx.nontrivial();
    refused::<T, P>(&text, Some(Err0::AddingTerm(error)))
}

fn misfit_t<T: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Monomial<T>: FromStr<Err = Err0>,
    LinearBinomial<T>: FromStr<Err = Err0>,
    QuadraticTrinomial<T>: FromStr<Err = Err0>,
{
    match s.below(3) {
        0 => misfit_as::<T, Monomial<T>>(s, ctx),
        1 => misfit_as::<T, LinearBinomial<T>>(s, ctx),
        _ => misfit_as::<T, QuadraticTrinomial<T>>(s, ctx),
    }
}

enum Read<T> {
    Fine(Vec<(T, usize)>),
    /// With the terms in front of the first fault.
    Wrong(Vec<(T, usize)>),
    /// The documentation leaves open whether this is a polynomial.
    Open,
}

/// A reader of its own.
fn reference<T: Prim>(text: &str) -> Read<T> {
    let legal = |c: char| matches!(c, ' ' | ',' | '_' | '+' | '-' | '.' | 'x' | '^' | '0'..='9');
    if text.is_empty() {
        return Read::Wrong(vec![]);
    }
    // Terms: a sign starts a new one, unless there are only spaces in front of it.
    let mut parts: Vec<String> = vec![String::new()];
    for c in text.chars() {
        if (c == '+' || c == '-') && !parts.last().unwrap().trim().is_empty() {
            parts.push(String::new());
        }
        parts.last_mut().unwrap().push(c);
    }
    let mut out = vec![];
    let mut open = false;
    for part in parts {
        if !part.chars().all(legal) {
            return Read::Wrong(out);
        }
        let dense: String = part.chars().filter(|c| !matches!(c, ' ' | ',' | '_')).collect();
        let (number, degree) = match dense.split_once('x') {
            None => (dense.as_str(), Some(0)),
            Some((number, rest)) => {
                let degree = if rest.is_empty() {
                    Some(1)
                } else if let Some(digits) = rest.strip_prefix('^') {
                    if digits.bytes().all(|b| b.is_ascii_digit()) {
                        digits.parse().ok()
                    } else {
                        None
                    }
                } else {
                    // "x2", "x2^" and the like.
                    let digits: String = rest.chars().filter(|c| *c != '^').collect();
                    open = rest.matches('^').count() <= 1 && digits.parse::<usize>().is_ok();
                    None
                };
                (number, degree)
            }
        };
        let number = match (number, dense.contains('x')) {
            ("" | "+", true) => "1",
            ("-", true) => "-1",
            (n, _) => n,
        };
        let coeff = match number {
            "" | "+" | "-" => None,
            n if n.contains('^') => None,
            n => T::from_str(n).ok(),
        };
        match (coeff, degree) {
            (Some(c), Some(d)) => out.push((c, d)),
            (Some(_), None) if open => return Read::Open,
            _ => return Read::Wrong(out),
        }
    }
    Read::Fine(out)
}

fn garbage_text(s: &mut Src) -> String {
    const USUAL: &[char] = &['x', '1', '+', '-', '^', ' ', '2', '0', '9', '.', ',', '_', '3', '5', '7'];
    const ODD: &[char] = &['e', '\t', 'é', '２', '\u{85}', '\u{2003}', 'X', '*', '😀', '\n', 'i', 'n', 'f'];
    let odd = s.chance(1, 4);
    let n = s.usize(22);
    (0..n)
        .map(|_| {
            if !odd || !s.chance(1, 8) {
                *s.pick(USUAL)
            } else if s.chance(1, 3) {
                s.named_char()
            } else {
                *s.pick(ODD)
            }
        })
        .collect()
}

fn garbage_as<T: Prim, P: Readable<T>>(text: &str, read: &Read<T>) -> Res {
    let (Read::Fine(list) | Read::Wrong(list)) = read else {
        // The sum of the terms may overflow, but nothing else may happen.
        return match catch(|| P::from_str(text).is_ok()) {
            Err(m) if !m.contains("with overflow") => fail(format!("{text:?}: panicked: {m}")),
            _ => Ok(()),
        };
    };
    let mut sums: BTreeMap<usize, Sums> = BTreeMap::new();
    for (c, d) in list {
        sums.entry(*d).or_default().add(&c.lift());
    }
    if !sums_ok::<T>(&sums) && list.len() > 1 {
        return Ok(());
    }
    if let Read::Wrong(_) = read {
        return refused::<T, P>(text, None);
    }
    let mut want: Map<T> = sums.iter().filter_map(|(d, s)| Some((*d, T::proj(&s.total())?))).collect();
    if let [(c, d)] = list.as_slice() {
        want.insert(*d, *c);
    }
    want.retain(|_, c| !c.is_zero());
    let fits = |d: &usize| match P::SHAPE {
        Shape::Free => true,
        Shape::One => false,
        Shape::UpTo(n) => *d <= n,
    };
    let nonzero_degrees: std::collections::BTreeSet<usize> =
        list.iter().filter(|(c, _)| !c.is_zero()).map(|(_, d)| *d).collect();
    let all: std::collections::BTreeSet<usize> = list.iter().map(|(_, d)| *d).collect();
    if all.iter().all(fits) || (P::SHAPE == Shape::One && all.len() == 1) {
        accepted::<T, P>(text, &want)
    } else if P::SHAPE == Shape::One && want.len() >= 2 {
        refused::<T, P>(text, None)
    } else if matches!(P::SHAPE, Shape::UpTo(_)) && !nonzero_degrees.iter().all(fits) {
        refused::<T, P>(text, None)
    } else {
        let _ = P::from_str(text);
        Ok(())
    }
}

fn garbage_t<T: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: FromStr<Err = Err0>,
    SparsePolynomial<T>: FromStr<Err = Err0>,
    Monomial<T>: FromStr<Err = Err0>,
    LinearBinomial<T>: FromStr<Err = Err0>,
    QuadraticTrinomial<T>: FromStr<Err = Err0>,
{
    let text = if s.chance(1, 3) {
        // Well-formed text with a few characters changed.
        let (terms, _) = gen_terms::<T>(s, Shape::UpTo(3), true, 2);
        let text: String = terms.iter().take(4).map(|t| t.text.as_str()).collect();
        let mut chars: Vec<char> = text.chars().take(30).collect();
        for _ in 0..s.urange(1, 3) {
            let extra = garbage_text(s);
            let at = s.usize(chars.len() + 1);
            match s.below(3) {
                0 => {
                    let to = (at + s.usize(3)).min(chars.len());
                    chars.drain(at..to);
                }
                1 => {
                    for (i, c) in extra.chars().take(2).enumerate() {
                        chars.insert(at + i, c);
                    }
                }
                _ => {
                    if at < chars.len() {
                        chars[at] = extra.chars().next().unwrap_or('x');
                    }
                }
            }
        }
        chars.into_iter().collect()
    } else {
        garbage_text(s)
    };
    let read = reference::<T>(&text);
    note_text(ctx, T::NAME, &text);
    ctx.label(match &read {
        Read::Fine(_) => "a polynomial",
        Read::Wrong(_) => "not a polynomial",
        Read::Open => "left open",
    });
    // Floats whose sums may round are left out, like integers whose sums overflow.
    ctx.nontrivial = text.len() >= 3 && !matches!(read, Read::Open);
    garbage_as::<T, SparsePolynomial<T>>(&text, &read)?;
    garbage_as::<T, Monomial<T>>(&text, &read)?;
    garbage_as::<T, LinearBinomial<T>>(&text, &read)?;
    garbage_as::<T, QuadraticTrinomial<T>>(&text, &read)?;
    // A dense polynomial of enormous degree would not fit into memory.
    let digits = text
        .split(['+', '-', 'x', '^'])
        .map(|t| t.chars().filter(|c| c.is_ascii_digit()).count())
        .max()
        .unwrap_or(0);
    if digits <= 4 {
        garbage_as::<T, Polynomial<T>>(&text, &read)?;
    }
    // A term alone.
    let got = Term::<T>::from_str(&text);
    match &read {
        Read::Fine(list) => {
            if let [(c, d)] = list.as_slice() {
                let want = Ok(Term::new(*c, *d));
                ensure!(got == want, "{text:?} reads as {got:?} instead of {want:?} as a Term<{}>", T::NAME);
            }
        }
        // With a sign in the middle, it would be more than one.
        Read::Wrong(_) if !text.trim_start().chars().skip(1).any(|c| c == '+' || c == '-') => {
            ensure!(got.is_err(), "{text:?} reads as {got:?} as a Term<{}>", T::NAME)
        }
        _ => {}
    }
    Ok(())
}

fn empty_t<T: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: FromStr<Err = Err0>,
    SparsePolynomial<T>: FromStr<Err = Err0>,
    Monomial<T>: FromStr<Err = Err0>,
    LinearBinomial<T>: FromStr<Err = Err0>,
    QuadraticTrinomial<T>: FromStr<Err = Err0>,
{
    let n = s.usize(4);
    let text: String = (0..n).map(|_| *s.pick(&[' ', '_', ',', '\t', '+', '-'])).collect();
    note_text(ctx, T::NAME, &text);
    ctx.nontrivial = n > 0;
    let error = if n == 0 { Some(Err0::NoTermsFound) } else { None };
    refused::<T, Polynomial<T>>(&text, error)?;
    refused::<T, SparsePolynomial<T>>(&text, error)?;
    refused::<T, Monomial<T>>(&text, error)?;
    refused::<T, LinearBinomial<T>>(&text, error)?;
    refused::<T, QuadraticTrinomial<T>>(&text, error)?;
    ensure!(Term::<T>::from_str(&text).is_err(), "{text:?} reads as a Term<{}>", T::NAME);
    Ok(())
}

macro_rules! checks {
    ($($check:ident = $f:ident;)*) => {$(
        fn $check(s: &mut Src, ctx: &mut Ctx) -> Res {
            pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64];
                $f(s, ctx))
        }
    )*};
}
checks! {
    check_valid = valid_t;
    check_fault = fault_t;
    check_misfit = misfit_t;
    check_garbage = garbage_t;
    check_empty = empty_t;
}

/// The same with long texts.
fn check_valid_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = *s.pick(&[300, 300, 1100]);
    check_valid(s, ctx)
}

fn check_fault_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = *s.pick(&[300, 300, 1100]);
    check_fault(s, ctx)
}

fn main() {
    harness::engine::main(Property {
        id: "C11",
        rule: "cases are texts: spelled-out polynomials, the same with one fault or one term that does not fit the type, and random text; non-trivial: at least two non-zero terms (valid), always (faults), at least three characters (random)",
        assumptions: &[
            "texts whose terms of one degree do not add up within the coefficient type are left out",
            "texts like x2 or x2^, which the documentation does not decide, only have to be handled without a panic",
            "degrees of dense polynomials are below 10000",
        ],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "valid", check: check_valid, quick: 1_920_000 },
            Sub { name: "one_fault", check: check_fault, quick: 1_920_000 },
            Sub { name: "does_not_fit", check: check_misfit, quick: 960_000 },
            Sub { name: "random_text", check: check_garbage, quick: 2_400_000 },
            Sub { name: "nothing", check: check_empty, quick: 160_000 },
            Sub { name: "valid_long", check: check_valid_long, quick: 12_000 },
            Sub { name: "one_fault_long", check: check_fault_long, quick: 8_000 },
        ],
        known: vec![],
    });
}

//! C06 (meaning of expression operations) and C07 (range constraints of expressions, symbolic simplification).
use crate::ex::*;
use crate::field::Fp;
use crate::gen::*;
use num_traits::{One, Zero};
use powdr_constraint_solver::grouped_expression::*;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_constraint_solver::runtime_constant::*;
use powdr_constraint_solver::symbolic_expression::*;
use powdr_expression::{AlgebraicBinaryOperator as AB, AlgebraicExpression as AE, AlgebraicUnaryOperator as AU};
use powdr_number::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ops::Neg;

const N: u32 = 3;

fn same<F: FieldElement>(what: &str, e: &GE<F>, envs: &[Vec<F>], f: impl Fn(&[F]) -> F) -> R {
    for env in envs {
        let (got, want) = (eval(e, env), f(env));
        if got != want {
            return Err(Stop::Fail(format!("{what}: result {e} evaluates to {got} instead of {want} at {env:?}")));
        }
    }
    Ok(())
}
/// well-formedness every user of the type relies on: no zero coefficients, products contain unknowns
fn wf<F: FieldElement>(what: &str, e: &GE<F>) -> R {
    for (v, c) in e.linear_components() {
        if c.is_zero() {
            return Err(Stop::Fail(format!("{what}: zero coefficient of {v} kept")));
        }
    }
    for (l, r) in e.quadratic_components() {
        if l.try_to_known().is_some() || r.try_to_known().is_some() {
            return Err(Stop::Fail(format!("{what}: product with a known factor kept")));
        }
        wf(what, l)?;
        wf(what, r)?;
    }
    Ok(())
}

fn arith<F: FieldElement>(s: &mut dyn Src) -> R {
    let (a, b): (GE<F>, GE<F>) = (expr(s, N, 2), expr(s, N, 2));
    let k: F = el(s);
    let en = some_envs::<F>(s, N as usize);
    let (ea, eb): (Vec<F>, Vec<F>) = (en.iter().map(|e| eval(&a, e)).collect(), en.iter().map(|e| eval(&b, e)).collect());
    let chk = |what: &str, e: GE<F>, f: &dyn Fn(F, F) -> F| -> R {
        wf(what, &e)?;
        for (i, env) in en.iter().enumerate() {
            let (got, want) = (eval(&e, env), f(ea[i], eb[i]));
            if got != want {
                return Err(Stop::Fail(format!("{what} of {a} and {b} (scalar {k}): {e} evaluates to {got} instead of {want} at {env:?}")));
            }
        }
        Ok(())
    };
    chk("addition", a.clone() + b.clone(), &|x, y| x + y)?;
    chk("addition of references", &a + &b, &|x, y| x + y)?;
    chk("subtraction", a.clone() - b.clone(), &|x, y| x - y)?;
    chk("multiplication", a.clone() * b.clone(), &|x, y| x * y)?;
    chk("negation", -a.clone(), &|x, _| -x)?;
    chk("negation of a reference", -&a, &|x, _| -x)?;
    chk("scalar multiplication", a.clone() * k, &|x, _| x * k)?;
    let mut c = a.clone();
    c *= &k;
    chk("in-place scalar multiplication", c, &|x, _| x * k)?;
    let mut c = a.clone();
    c += b.clone();
    chk("in-place addition", c, &|x, y| x + y)?;
    chk("sum", [a.clone(), b.clone(), a.clone()].into_iter().sum(), &|x, y| x + y + x)?;
    // a + b - b: the cancellation of quadratic terms keeps the value
    chk("a + b - b", a.clone() + b.clone() - b.clone(), &|x, _| x)?;
    chk("a*b - b*a", a.clone() * b.clone() - b.clone() * a.clone(), &|_, _| F::zero())?;
    chk("a*b + (-a)*b", a.clone() * b.clone() + (-a.clone()) * b.clone(), &|_, _| F::zero())?;
    Ok(())
}
/// sums with repeated and cancelling products, also beyond the size limit of the cancellation
fn products<F: FieldElement>(s: &mut dyn Src) -> R {
    let m = if s.choose(6) == 0 { 22 } else { 1 + s.choose(5) };
    let pool: Vec<GE<F>> = (0..3).map(|_| { let v = s.choose(N); affine::<F>(s, N) + GE::from_unknown_variable(v) }).collect();
    let en = some_envs::<F>(s, N as usize);
    let mut acc: GE<F> = GE::zero();
    let mut val = vec![F::zero(); en.len()];
    for _ in 0..m {
        let (l, r) = (pool[s.choose(3) as usize].clone(), pool[s.choose(3) as usize].clone());
        let k = s.choose(3);
        let t = if k == 0 { -(l.clone() * r.clone()) } else if k == 1 { (-l.clone()) * r.clone() } else { l.clone() * r.clone() };
        for (v, env) in val.iter_mut().zip(&en) {
            let x = eval(&l, env) * eval(&r, env);
            *v += if k < 2 { -x } else { x };
        }
        acc += t;
        wf("sum of products", &acc)?;
    }
    for (v, env) in val.iter().zip(&en) {
        ensure!(eval(&acc, env) == *v, "sum of products", acc, env, v);
    }
    Ok(())
}
fn subst<F: FieldElement>(s: &mut dyn Src) -> R {
    let a: GE<F> = expr(s, N, 3);
    let v = s.choose(N);
    let b: GE<F> = expr(s, N, 1);
    let k: F = el(s);
    let en = some_envs::<F>(s, N as usize);
    let upd = |e: &[F], v: u32, x: F| { let mut e = e.to_vec(); e[v as usize] = x; e };
    let mut r = a.clone();
    r.substitute_by_unknown(&v, &b);
    wf("substitute_by_unknown", &r)?;
    same(&format!("substitute_by_unknown {v} := {b} in {a}"), &r, &en, |e| eval(&a, &upd(e, v, eval(&b, e))))?;
    let mut r = a.clone();
    r.substitute_simple(&v, k);
    wf("substitute_simple", &r)?;
    same(&format!("substitute_simple {v} := {k} in {a}"), &r, &en, |e| eval(&a, &upd(e, v, k)))?;
    ensure!(!r.referenced_unknown_variables().any(|x| *x == v), "a substituted variable is gone", a, v, k, r);
    let mut r = a.clone();
    r.substitute_by_known(&v, &k);
    wf("substitute_by_known", &r)?;
    same(&format!("substitute_by_known {v} := {k} in {a}"), &r, &en, |e| eval(&a, &upd(e, v, k)))?;
    ensure!(!r.referenced_unknown_variables().any(|x| *x == v), "a substituted variable is gone", a, v, k, r);
    let w = s.choose(N);
    let k2: F = el(s);
    let mut m = BTreeMap::new();
    m.insert(w, k2);
    m.insert(v, k);
    let r = a.clone().substitute_by_known_multi(&m);
    same(&format!("substitute_by_known_multi {m:?} in {a}"), &r, &en, |e| { let mut e = e.to_vec(); for (x, y) in &m { e[*x as usize] = *y; } eval(&a, &e) })?;
    Ok(())
}
fn queries<F: FieldElement>(s: &mut dyn Src) -> R {
    let a: GE<F> = expr(s, N, 3);
    let en = some_envs::<F>(s, N as usize);
    let vals: Vec<F> = en.iter().map(|e| eval(&a, e)).collect();
    if let Some(k) = a.try_to_number() {
        ensure!(vals.iter().all(|v| *v == k), "a known number is the value everywhere", a, k);
    }
    if a.is_zero() {
        ensure!(vals.iter().all(|v| v.is_zero()), "is_zero", a);
    }
    if a.is_one() {
        ensure!(vals.iter().all(|v| v.is_one()), "is_one", a);
    }
    if let Some(v) = a.try_to_simple_unknown() {
        ensure!(en.iter().zip(&vals).all(|(e, x)| e[v as usize] == *x), "try_to_simple_unknown", a, v);
    }
    if let Some((l, r)) = a.try_as_single_product() {
        ensure!(en.iter().zip(&vals).all(|(e, x)| eval(l, e) * eval(r, e) == *x), "try_as_single_product", a, l, r);
    }
    // factors: equal up to one constant; a zero expression has factors with product zero
    let fs = a.to_factors();
    let prods: Vec<F> = en.iter().map(|e| fs.iter().fold(F::one(), |acc, f| acc * eval(f, e))).collect();
    if let Some(i) = (0..vals.len()).find(|i| !prods[*i].is_zero()) {
        let c = vals[i] / prods[i];
        ensure!((0..vals.len()).all(|j| prods[j] * c == vals[j]), "the factors multiply to the expression up to a constant", a, fs);
    } else {
        ensure!(vals.iter().all(|v| v.is_zero()), "the factors multiply to the expression up to a constant", a, fs);
    }
    // the same zeros
    ensure!((0..vals.len()).all(|j| prods[j].is_zero() == vals[j].is_zero()), "an expression is zero iff one of its factors is", a, fs);
    if let Some((h, t)) = a.clone().try_split_head_tail() {
        ensure!(en.iter().zip(&vals).all(|(e, x)| eval(&h, e) + eval(&t, e) == *x), "head + tail is the expression", a, h, t);
    } else {
        ensure!(a.try_to_known().is_some(), "only constants cannot be split", a);
    }
    let parts: Vec<GE<F>> = a.clone().into_summands().map(|c| c.into()).collect();
    ensure!(en.iter().zip(&vals).all(|(e, x)| parts.iter().map(|q| eval(q, e)).fold(F::zero(), |a, b| a + b) == *x), "summands sum to the expression", a, parts);
    let refd: BTreeSet<V> = a.referenced_unknown_variables().copied().collect();
    let v = s.choose(N);
    if !refd.contains(&v) {
        ensure!(en.iter().zip(&vals).all(|(e, x)| { let mut e = e.clone(); e[v as usize] += F::one(); eval(&a, &e) == *x }), "unreferenced variables do not matter", a, v);
        ensure!(a.degree_of_variable(&v) == 0, "degree_of_variable", a, v);
    }
    if let Some((c, rest)) = a.try_extract_affine_var(v) {
        ensure!(en.iter().zip(&vals).all(|(e, x)| c * e[v as usize] + eval(&rest, e) == *x), "coeff * var + rest is the expression", a, v, c, rest);
        ensure!(!rest.referenced_unknown_variables().any(|x| *x == v), "the rest does not contain the extracted variable", a, v, rest);
    }
    if a.is_affine() {
        let c = a.coefficient_of_variable_in_affine_part(&v).copied().unwrap_or(F::zero());
        ensure!(en.iter().zip(&vals).all(|(e, x)| { let mut e2 = e.clone(); e2[v as usize] += F::one(); eval(&a, &e2) - *x == c }), "coefficient of an affine expression", a, v, c);
    }
    // the degree is an upper bound: the (d+1)-st finite difference in any direction vanishes
    let d = a.degree();
    let dv = a.degree_of_variable(&v);
    ensure!(dv <= d, "degree in one variable is at most the degree", a, v);
    if (d as u32) + 1 < p::<F>() {
        let dir: Vec<F> = (0..N).map(|_| el(s)).collect();
        let at: Vec<F> = (0..N).map(|_| el(s)).collect();
        for (k, dir) in [(d, dir), (dv, (0..N).map(|i| if i == v { F::one() } else { F::zero() }).collect::<Vec<F>>())] {
            let mut col: Vec<F> = (0..=(k as u32 + 1)).map(|i| eval(&a, &at.iter().zip(&dir).map(|(x, y)| *x + *y * F::from(i)).collect::<Vec<_>>())).collect();
            for _ in 0..=k {
                col = col.windows(2).map(|w| w[1] - w[0]).collect();
            }
            ensure!(col.iter().all(|x| x.is_zero()), "degree is an upper bound", a, k, v);
        }
    }
    let b = a.transform_var_type(&mut |v| v * 2 + 1);
    ensure!(en.iter().zip(&vals).all(|(e, x)| { let mut e2 = vec![F::zero(); 2 * N as usize + 1]; for (i, v) in e.iter().enumerate() { e2[2 * i + 1] = *v; } eval(&b, &e2) == *x }), "renaming variables keeps the value", a, b);
    ensure!(a.try_transform_var_type(&mut |v| (*v != 0).then_some(*v)).is_none() == refd.contains(&0), "a partial renaming fails iff a variable is missed", a);
    // symbolic conversions
    let t = a.constant_offset();
    ensure!(t.try_to_number() == Some(*t), "numbers are known");
    Ok(())
}
/// the same over symbolically known coefficients
fn qexpr<F: FieldElement>(s: &mut dyn Src, rcs: &[RangeConstraint<F>], depth: u32) -> QE<F> {
    match s.choose(if depth == 0 { 3 } else { 7 }) {
        0 => QE::from_runtime_constant(sym0(s, 2, 1, rcs)),
        1 => QE::from_unknown_variable(2 + s.choose(2)),
        2 => QE::from_known_symbol(s.choose(2), RangeConstraint::unconstrained()),
        3 => qexpr(s, rcs, depth - 1) + qexpr(s, rcs, depth - 1),
        4 => qexpr(s, rcs, depth - 1) - qexpr(s, rcs, depth - 1),
        5 => qexpr(s, rcs, depth - 1) * qexpr(s, rcs, depth - 1),
        _ => -qexpr(s, rcs, depth - 1),
    }
}
fn qarith<F: FieldElement>(s: &mut dyn Src) -> R {
    // variables 0, 1 known symbols, 2, 3 unknown
    let un = [RangeConstraint::unconstrained(); 2];
    let (a, b): (QE<F>, QE<F>) = (qexpr(s, &un, 2), qexpr(s, &un, 2));
    let k = sym::<F>(s, 2, 1, &un);
    let v = s.choose(4);
    let en: Vec<Vec<F>> = some_envs::<F>(s, 4);
    let chk = |what: &str, e: QE<F>, f: &dyn Fn(&[F]) -> Option<F>| -> R {
        for env in &en {
            if let Some(want) = f(env) {
                // simplification may only remove divisions
                let got = qeval(&e, env);
                if got != Some(want) {
                    return Err(Stop::Fail(format!("{what} of {a} and {b} (known {k}, variable {v}): {e} evaluates to {got:?} instead of {want} at {env:?}")));
                }
            }
        }
        Ok(())
    };
    let upd = |e: &[F], v: u32, x: F| { let mut e = e.to_vec(); e[v as usize] = x; e };
    chk("addition", a.clone() + b.clone(), &|e| Some(qeval(&a, e)? + qeval(&b, e)?))?;
    chk("subtraction", a.clone() - b.clone(), &|e| Some(qeval(&a, e)? - qeval(&b, e)?))?;
    chk("multiplication", a.clone() * b.clone(), &|e| Some(qeval(&a, e)? * qeval(&b, e)?))?;
    chk("negation", -a.clone(), &|e| Some(-qeval(&a, e)?))?;
    chk("product with a known expression", a.clone() * k.clone(), &|e| Some(qeval(&a, e)? * seval(&k, e)?))?;
    let mut r = a.clone();
    r.substitute_by_known(&v, &k);
    chk("substitute_by_known", r, &|e| { let x = seval(&k, e)?; qeval(&a, &upd(e, v, x)) })?;
    if v >= 2 {
        let mut r = a.clone();
        r.substitute_by_unknown(&v, &b);
        chk("substitute_by_unknown", r, &|e| { let x = qeval(&b, e)?; qeval(&a, &upd(e, v, x)) })?;
    }
    Ok(())
}
/// algebraic expressions (crate expression)
type A<F> = AE<F, V>;
fn aexpr<F: FieldElement>(s: &mut dyn Src, depth: u32) -> A<F> {
    match s.choose(if depth == 0 { 2 } else { 6 }) {
        0 => A::from(el::<F>(s)),
        1 => AE::Reference(s.choose(N)),
        2 => aexpr(s, depth - 1) + aexpr(s, depth - 1),
        3 => aexpr(s, depth - 1) - aexpr(s, depth - 1),
        4 => aexpr(s, depth - 1) * aexpr(s, depth - 1),
        _ => -aexpr(s, depth - 1),
    }
}
fn aeval<F: FieldElement>(e: &A<F>, env: &[F]) -> F {
    match e {
        AE::Reference(v) => env[*v as usize],
        AE::Number(n) => *n,
        AE::BinaryOperation(b) => {
            let (l, r) = (aeval(&b.left, env), aeval(&b.right, env));
            match b.op { AB::Add => l + r, AB::Sub => l - r, AB::Mul => l * r }
        }
        AE::UnaryOperation(u) => match u.op { AU::Minus => -aeval(&u.expr, env) },
    }
}
/// the printed form, read back with the usual precedences
fn parse<F: FieldElement>(t: &[char], i: &mut usize, env: &[F]) -> Option<F> {
    fn ws(t: &[char], i: &mut usize) { while *i < t.len() && t[*i] == ' ' { *i += 1; } }
    fn atom<F: FieldElement>(t: &[char], i: &mut usize, env: &[F]) -> Option<F> {
        ws(t, i);
        match t.get(*i)? {
            '-' => { *i += 1; Some(-atom(t, i, env)?) }
            '(' => { *i += 1; let r = parse(t, i, env)?; ws(t, i); if t.get(*i) == Some(&')') { *i += 1; Some(r) } else { None } }
            'v' => { *i += 1; let d = t.get(*i)?.to_digit(10)?; *i += 1; Some(env[d as usize]) }
            _ => { let mut n = 0u64; let st = *i; while let Some(d) = t.get(*i).and_then(|c| c.to_digit(10)) { n = n * 10 + d as u64; *i += 1; } if *i == st { None } else { Some(F::from(n)) } }
        }
    }
    fn term<F: FieldElement>(t: &[char], i: &mut usize, env: &[F]) -> Option<F> {
        let mut r = atom(t, i, env)?;
        loop { ws(t, i); if t.get(*i) == Some(&'*') { *i += 1; r *= atom(t, i, env)?; } else { return Some(r); } }
    }
    let mut r = term(t, i, env)?;
    loop {
        ws(t, i);
        match t.get(*i) {
            Some('+') => { *i += 1; r += term(t, i, env)?; }
            Some('-') => { *i += 1; r -= term(t, i, env)?; }
            _ => return Some(r),
        }
    }
}
fn parse_all<F: FieldElement>(text: &str, env: &[F]) -> Option<F> {
    let t: Vec<char> = text.chars().collect();
    let mut i = 0;
    let r = parse(&t, &mut i, env)?;
    (i == t.len()).then_some(r)
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Nm(u32);
impl serde::Serialize for Nm { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.to_string().serialize(s) } }
impl<'de> serde::Deserialize<'de> for Nm { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let t = String::deserialize(d)?; t.strip_prefix('v').and_then(|x| x.parse().ok()).map(Nm).ok_or(serde::de::Error::custom("not a variable")) } }
impl std::fmt::Display for Nm { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "v{}", self.0) } }

fn alg<F: FieldElement>(s: &mut dyn Src) -> R {
    use powdr_expression::visitors::*;
    let a: A<F> = aexpr(s, 3);
    let en = some_envs::<F>(s, N as usize);
    let g: GE<F> = a.to_expression(&|n| GE::from_number(*n), &|v| GE::from_unknown_variable(*v));
    for e in &en {
        ensure!(aeval(&a, e) == eval(&g, e), "conversion to a grouped expression keeps the value", a, g, e);
    }
    // degree: an upper bound
    let d = a.degree();
    if (d as u32) + 1 < p::<F>() {
        let (at, dir): (Vec<F>, Vec<F>) = ((0..N).map(|_| el(s)).collect(), (0..N).map(|_| el(s)).collect());
        let mut col: Vec<F> = (0..=(d as u32 + 1)).map(|i| aeval(&a, &at.iter().zip(&dir).map(|(x, y)| *x + *y * F::from(i)).collect::<Vec<_>>())).collect();
        for _ in 0..=d { col = col.windows(2).map(|w| w[1] - w[0]).collect(); }
        ensure!(col.iter().all(|x| x.is_zero()), "degree is an upper bound", a, d);
    }
    // visitors reach every reference exactly once
    let mut seen = vec![];
    let _ = a.visit_expressions(&mut |e| { if let AE::Reference(v) = e { seen.push(*v) } std::ops::ControlFlow::Continue::<()>(()) }, VisitOrder::Pre);
    let mut seen2 = vec![];
    let _ = a.visit_expressions(&mut |e| { if let AE::Reference(v) = e { seen2.push(*v) } std::ops::ControlFlow::Continue::<()>(()) }, VisitOrder::Post);
    let seen3: Vec<V> = a.all_children().filter_map(|e| if let AE::Reference(v) = e { Some(*v) } else { None }).collect();
    fn refs<F>(e: &A<F>, o: &mut Vec<V>) { match e { AE::Reference(v) => o.push(*v), AE::Number(_) => {}, AE::BinaryOperation(b) => { refs(&b.left, o); refs(&b.right, o) } AE::UnaryOperation(u) => refs(&u.expr, o) } }
    let mut want = vec![];
    refs(&a, &mut want);
    ensure!(seen == want && seen2 == want && seen3 == want, "visitors reach every reference exactly once", a, seen, seen2, seen3, want);
    // in-place rewriting of references
    let mut b = a.clone();
    b.pre_visit_expressions_mut(&mut |e| if let AE::Reference(v) = e { *v = (*v + 1) % N });
    let mut c = a.clone();
    c.post_visit_expressions_mut(&mut |e| if let AE::Reference(v) = e { *v = (*v + 1) % N });
    for e in &en {
        let rot: Vec<F> = (0..N as usize).map(|i| e[(i + 1) % N as usize]).collect();
        ensure!(aeval(&b, e) == aeval(&a, &rot) && aeval(&c, e) == aeval(&a, &rot), "renaming through a visitor", a, b, c);
    }
    // what is printed means the same
    let named: AE<F, Nm> = a.to_expression(&|n| AE::from(*n), &|v| AE::Reference(Nm(*v)));
    let text = named.to_string();
    for e in en.iter().take(40) {
        ensure!(parse_all(&text, e) == Some(aeval(&a, e)), "the printed form means the same", a, text, e);
    }
    let gn: GroupedExpression<F, Nm> = g.transform_var_type(&mut |v| Nm(*v));
    let text = gn.to_string();
    for e in en.iter().take(40) {
        ensure!(parse_all(&text, e) == Some(aeval(&a, e)), "the printed form of the grouped expression means the same", g, text, e);
    }
    let j = serde_json::to_string(&named).unwrap();
    let back: AE<F, Nm> = match serde_json::from_str(&j) { Ok(x) => x, Err(e) => return Err(Stop::Fail(format!("serialized expression does not deserialize: {e} {j}"))) };
    ensure!(back == named, "an expression deserializes to itself", a, back);
    Ok(())
}

// ---- C07
fn rcs_envs<F: FieldElement>(s: &mut dyn Src, n: usize) -> Result<(Vec<RangeConstraint<F>>, Vec<Vec<F>>), Stop> {
    let rcs: Vec<RangeConstraint<F>> = (0..n).map(|_| rc(s)).collect();
    let en: Vec<Vec<F>> = if (p::<F>() as u128).pow(n as u32) <= 3000 { envs(n) } else {
        (0..8).map(|_| rcs.iter().map(|r| { let (lo, hi) = r.range(); match s.choose(4) { 0 => lo, 1 => hi, 2 => F::from(el::<F>(s).to_integer() & *r.mask()), _ => lo + F::from(s.choose(60)) } }).collect()).collect()
    };
    let en: Vec<Vec<F>> = en.into_iter().filter(|e| e.iter().zip(&rcs).all(|(x, r)| r.allows_value(*x))).collect();
    s.assume(!en.is_empty())?;
    Ok((rcs, en))
}
fn exrange<F: FieldElement>(s: &mut dyn Src) -> R {
    let a: GE<F> = expr(s, N, 2);
    let (rcs, en) = rcs_envs::<F>(s, N as usize)?;
    let m: HashMap<V, RangeConstraint<F>> = rcs.iter().enumerate().map(|(i, r)| (i as u32, *r)).collect();
    let r = a.range_constraint(&m);
    for e in &en {
        ensure!(r.allows_value(eval(&a, e)), "the value lies in the derived range constraint", a, rcs, r, e);
    }
    let r = a.range_constraint(&NoRangeConstraints);
    for e in &en {
        ensure!(r.allows_value(eval(&a, e)), "the value lies in the derived range constraint (no information)", a, r, e);
    }
    Ok(())
}
/// stored range constraints of every node are valid
fn srange<F: FieldElement>(what: &str, e: &SE<F>, env: &[F]) -> R {
    for c in e.all_children() {
        if let Some(v) = seval(c, env) {
            let r = c.range_constraint();
            ensure!(r.allows_value(v), "the value lies in the range constraint of the symbolic expression", what, e, c, r, v, env);
            if c.is_known_nonzero() { ensure!(!v.is_zero(), "is_known_nonzero", e, c, env); }
            if let Some(n) = c.try_to_number() { ensure!(n == v, "try_to_number", e, c, env); }
        }
    }
    Ok(())
}
fn symbolic<F: FieldElement>(s: &mut dyn Src) -> R {
    let n = 3;
    let (rcs, en) = rcs_envs::<F>(s, n as usize)?;
    let (a, b): (SE<F>, SE<F>) = (sym(s, n, 2, &rcs), sym(s, n, 2, &rcs));
    let v = s.choose(n);
    let chk = |what: &str, r: &SE<F>, f: &dyn Fn(&[F]) -> Option<F>| -> R {
        for e in &en {
            if let Some(want) = f(e) {
                let got = seval(r, e);
                ensure!(got == Some(want), "the simplified expression has the same value", what, a, b, v, r, got, want, e);
                srange(what, r, e)?;
            }
        }
        Ok(())
    };
    chk("a", &a, &|e| seval(&a, e))?;
    chk("a + b", &(&a + &b), &|e| Some(seval(&a, e)? + seval(&b, e)?))?;
    chk("a - b", &(&a - &b), &|e| Some(seval(&a, e)? - seval(&b, e)?))?;
    chk("a * b", &(&a * &b), &|e| Some(seval(&a, e)? * seval(&b, e)?))?;
    chk("-a", &-&a, &|e| Some(-seval(&a, e)?))?;
    chk("b - a + (-b)", &(&(&b - &a) + &-&b), &|e| { seval(&b, e)?; Some(-seval(&a, e)?) })?;
    chk("-(a - b)", &-&(&a - &b), &|e| Some(seval(&b, e)? - seval(&a, e)?))?;
    chk("-(a * b)", &-&(&a * &b), &|e| Some(-(seval(&b, e)? * seval(&a, e)?)))?;
    if !b.is_known_zero() {
        let div = |x: F, y: F| if y.is_zero() { None } else { Some(x / y) };
        chk("a / b", &a.field_div(&b), &|e| div(seval(&a, e)?, seval(&b, e)?))?;
        chk("1 / b", &b.field_inverse(), &|e| div(F::one(), seval(&b, e)?))?;
    }
    // substitution: the substitute must fit the symbol's range
    let k = if s.flip() { SE::from(el::<F>(s)) } else { sym(s, n, 1, &rcs) };
    s.assume(en.iter().all(|e| seval(&k, e).map_or(true, |x| rcs[v as usize].allows_value(x))))?;
    // avoid substituting a zero into a denominator (the code divides by a known zero there)
    let upd = |e: &[F], x: F| { let mut e = e.to_vec(); e[v as usize] = x; e };
    s.assume(en.iter().all(|e| seval(&k, e).is_some_and(|x| seval(&a, &upd(e, x)).is_some())))?;
    let mut r = a.clone();
    r.substitute(&v, &k);
    chk("substitution", &r, &|e| { let x = seval(&k, e)?; seval(&a, &upd(e, x)) })?;
    // conversion
    if let Some(g) = a.try_to_expression(&|n| GE::<F>::from_number(*n), &|v| GE::from_unknown_variable(*v), &|g: &GE<F>| g.try_to_number()) {
        for e in &en {
            if let Some(want) = seval(&a, e) { ensure!(eval(&g, e) == want, "conversion to an expression keeps the value", a, g, e); }
        }
    }
    let t: SE<F> = a.transform_var_type(&mut |v| n - 1 - *v);
    for e in &en {
        let rev: Vec<F> = e.iter().rev().copied().collect();
        ensure!(seval(&t, &rev) == seval(&a, e) || seval(&a, e).is_none(), "renaming keeps the value", a, t, e);
    }
    Ok(())
}

macro_rules! at { ($($n:ident = $f:ident::<$t:ty>),* $(,)?) => { $(pub fn $n(s: &mut dyn Src) -> R { $f::<$t>(s) })* } }
at!(ex_arith_5 = arith::<Fp<5>>, ex_products_5 = products::<Fp<5>>, ex_subst_5 = subst::<Fp<5>>, ex_queries_7 = queries::<Fp<7>>, ex_qarith_5 = qarith::<Fp<5>>, ex_alg_7 = alg::<Fp<7>>,
    ex_arith_bb = arith::<BabyBearField>, ex_products_bb = products::<BabyBearField>, ex_subst_bb = subst::<BabyBearField>, ex_queries_bb = queries::<BabyBearField>, ex_qarith_bb = qarith::<BabyBearField>, ex_alg_bb = alg::<BabyBearField>,
    ex_range_7 = exrange::<Fp<7>>, ex_range_13 = exrange::<Fp<13>>, ex_range_bb = exrange::<BabyBearField>,
    ex_sym_7 = symbolic::<Fp<7>>, ex_sym_13 = symbolic::<Fp<13>>, ex_sym_bb = symbolic::<BabyBearField>);
contracts!(contracts_c06: ex_arith_5, ex_products_5, ex_subst_5, ex_queries_7, ex_qarith_5, ex_alg_7, ex_arith_bb, ex_products_bb, ex_subst_bb, ex_queries_bb, ex_qarith_bb, ex_alg_bb);
contracts!(contracts_c07: ex_range_7, ex_range_13, ex_range_bb, ex_sym_7, ex_sym_13, ex_sym_bb);

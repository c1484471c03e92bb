//! C11: the OpenVM bus handlers against the tables behind the buses.
//! bus 6: (x, y, z, op), bytes x, y; op 0: z = 0; op 1: z = x ^ y.  bus 3: (x, bits), bits <= 25,
//! x < 2^bits.  bus 7: (x, y), x < 256, y < 2048.  bus 1 (memory): received data in address
//! spaces 1 and 2 are bytes, register x0 holds zero.
use crate::ensure;
use crate::gen::*;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_number::{FieldElement, LargeInt};

type RC<F> = RangeConstraint<F>;
pub const SIZES: [u32; 2] = [256, 2048];
pub fn nn<F: FieldElement>(x: F) -> u64 {
    x.to_integer().try_into_u64().unwrap()
}
fn q<F: FieldElement>() -> u64 {
    F::modulus().try_into_u64().unwrap()
}
fn elem<F: FieldElement, S: Src + ?Sized>(s: &mut S) -> F {
    F::from(s.big(q::<F>() - 1))
}
/// a range constraint allowing x
fn around<F: FieldElement, S: Src + ?Sized>(s: &mut S, x: F) -> Result<RC<F>, Stop> {
    let r = if s.symbolic() {
        match s.choose(4) {
            0 => RC::unconstrained(),
            1 => RC::from_value(x),
            2 => RC::from_range(F::from(s.big(q::<F>() - 1)), F::from(s.big(q::<F>() - 1))),
            _ => RC::from_mask(s.u32() as u64),
        }
    } else {
        match s.choose(6) {
            0 => RC::unconstrained(),
            1 | 2 => RC::from_value(x),
            3 => RC::from_range(x - F::from(s.choose(300)), x + F::from(s.choose(300))),
            4 => RC::from_mask(nn(x) | s.choose(256) as u64),
            _ => RC::from_mask(nn(x) | s.u32() as u64),
        }
    };
    s.assume(r.allows_value(x))?;
    Ok(r)
}
/// every row of the table inside the input constraints stays allowed
#[cfg(any(kani, feature = "private"))]
mod handlers {
    use super::*;
    use powdr_openvm_bus_interaction_handler::bitwise_lookup::*;
    use powdr_openvm_bus_interaction_handler::memory::*;
    use powdr_openvm_bus_interaction_handler::tuple_range_checker::*;
    use powdr_openvm_bus_interaction_handler::variable_range_checker::*;
    pub fn bitwise<F: FieldElement, S: Src + ?Sized>(s: &mut S) -> R {
        let (x, y, op) = (s.choose(256) as u64, s.choose(256) as u64, s.choose(2) as u64);
        let z = if op == 1 { x ^ y } else { 0 };
        let (x, y, z, op) = (F::from(x), F::from(y), F::from(z), F::from(op));
        let inp = [around(s, x)?, around(s, y)?, around(s, z)?, around(s, op)?];
        let out = handle_bitwise_lookup(&inp);
        ensure!(out.len() == 4, "payload length");
        ensure!(out[0].allows_value(x), "x excluded", inp, out, x, y, z, op);
        ensure!(out[1].allows_value(y), "y excluded", inp, out, x, y, z, op);
        ensure!(out[2].allows_value(z), "z excluded", inp, out, x, y, z, op);
        ensure!(out[3].allows_value(op), "op excluded", inp, out, x, y, z, op);
        Ok(())
    }
    pub fn varrange<F: FieldElement, S: Src + ?Sized>(s: &mut S) -> R {
        let bits = s.choose(26);
        let x = s.big((1u64 << 25) - 1) & ((1u64 << bits) - 1);
        let (x, bits) = (F::from(x), F::from(bits));
        let inp = [around(s, x)?, around(s, bits)?];
        let out = handle_variable_range_checker(&inp);
        ensure!(out.len() == 2, "payload length");
        ensure!(out[0].allows_value(x), "x excluded", inp, out, x, bits);
        ensure!(out[1].allows_value(bits), "bits excluded", inp, out, x, bits);
        Ok(())
    }
    pub fn tuple<F: FieldElement, S: Src + ?Sized>(s: &mut S) -> R {
        // any sizes a chip may be configured with
        let sizes = [1 + s.big((q::<F>() - 2).min(1 << 30)) as u32, 1 + s.big((q::<F>() - 2).min(1 << 30)) as u32];
        let (x, y): (F, F) = (elem(s), elem(s));
        let inp = [around(s, x)?, around(s, y)?];
        let out = TupleRangeCheckerHandler::new(sizes).handle_bus_interaction(&inp);
        ensure!(out.len() == 2, "payload length");
        ensure!(out[0].allows_value(x) == (nn(x) < sizes[0] as u64), "first range", inp, out, x, sizes);
        ensure!(out[1].allows_value(y) == (nn(y) < sizes[1] as u64), "second range", inp, out, y, sizes);
        Ok(())
    }
    pub fn mem<F: FieldElement, S: Src + ?Sized>(s: &mut S) -> R {
        let receive = s.flip();
        let (asp, ptr, t): (F, F, F) = (if s.flip() { F::from(s.choose(4)) } else { elem(s) }, if s.flip() { F::from(0u64) } else { elem(s) }, elem(s));
        let mult = if receive { -F::one() } else { elem(s) };
        let byte = receive && (asp == F::from(1u64) || asp == F::from(2u64));
        let zero = receive && asp == F::from(1u64) && ptr == F::from(0u64);
        let d0: F = if zero { F::from(0u64) } else if byte { F::from(s.choose(256)) } else { elem(s) };
        let d1: F = if zero { F::from(0u64) } else if byte { F::from(s.choose(256)) } else { elem(s) };
        s.assume(receive || mult != -F::one())?;
        if s.symbolic() {
            // one data limb (the limbs are treated alike)
            let inp = [around(s, asp)?, around(s, ptr)?, around(s, d0)?, around(s, t)?];
            let out = handle_memory(&inp, mult);
            ensure!(out.len() == 4, "payload length");
            ensure!(out[0].allows_value(asp) && out[1].allows_value(ptr) && out[3].allows_value(t), "address or timestamp excluded");
            ensure!(out[2].allows_value(d0), "data excluded");
            return Ok(());
        }
        let inp = [around(s, asp)?, around(s, ptr)?, around(s, d0)?, around(s, d1)?, around(s, t)?];
        let out = handle_memory(&inp, mult);
        ensure!(out.len() == 5, "payload length");
        ensure!(out[0].allows_value(asp) && out[1].allows_value(ptr) && out[4].allows_value(t), "address or timestamp excluded", inp, out, asp, ptr, t, mult);
        ensure!(out[2].allows_value(d0) && out[3].allows_value(d1), "data excluded", inp, out, d0, d1, asp, ptr, mult);
        Ok(())
    }
    type Bb = crate::field::Fp<0x7800_0001>;
    macro_rules! inst { ($($n:ident = $g:ident::<$f:ty>;)*) => { $( pub fn $n<S: Src + ?Sized>(s: &mut S) -> R { $g::<$f, S>(s) } )* } }
    inst! {
        ov_bitwise_bb = bitwise::<Bb>; ov_varrange_bb = varrange::<Bb>; ov_tuple_bb = tuple::<Bb>; ov_mem_bb = mem::<Bb>;
        ov_bitwise = bitwise::<powdr_number::BabyBearField>; ov_varrange = varrange::<powdr_number::BabyBearField>;
        ov_tuple = tuple::<powdr_number::BabyBearField>; ov_mem = mem::<powdr_number::BabyBearField>;
    }
    contracts!(contracts_c11p: ov_bitwise_bb, ov_varrange_bb, ov_tuple_bb, ov_mem_bb, ov_bitwise, ov_varrange, ov_tuple, ov_mem);
    proofs!(8: ov_bitwise_bb, ov_varrange_bb, ov_tuple_bb, ov_mem_bb);
}
#[cfg(all(feature = "private", not(kani)))]
pub use handlers::contracts_c11p;
#[cfg(kani)]
pub use handlers::proofs;

#[cfg(not(kani))]
mod table {
    use super::*;
    use crate::ex::*;
    use powdr_autoprecompiles::constraint_optimizer::IsBusStateful;
    use powdr_autoprecompiles::range_constraint_optimizer::*;
    use powdr_constraint_solver::bus_interaction_handler::BusInteractionHandler;
    use powdr_constraint_solver::runtime_constant::VarTransformable;
    use powdr_constraint_solver::constraint_system::*;
    use powdr_number::BabyBearField as B;
    use powdr_openvm_bus_interaction_handler::OpenVmBusInteractionHandler;

    /// does the interaction hold? (stateful buses: always)
    pub fn ok(id: u64, pl: &[B]) -> bool {
        let pl: Vec<u64> = pl.iter().map(|x| nn(*x)).collect();
        match (id, &pl[..]) {
            (6, [x, y, z, op]) => *x < 256 && *y < 256 && ((*op == 0 && *z == 0) || (*op == 1 && *z == *x ^ *y)),
            (3, [x, b]) => *b <= 25 && *x < 1 << *b,
            (7, [x, y]) => *x < 256 && *y < 2048,
            _ => true,
        }
    }
    const NV: u32 = 3;
    fn num(x: u64) -> GE<B> {
        GE::from_number(B::from(x))
    }
    fn arg(s: &mut dyn Src) -> GE<B> {
        match s.choose(6) {
            0 => num([0, 1, 2, 255, 256][s.choose(5) as usize]),
            1 => GE::from_unknown_variable(s.choose(NV)) * el::<B>(s) + GE::from_number(el(s)),
            _ => GE::from_unknown_variable(s.choose(NV)),
        }
    }
    fn value(s: &mut dyn Src) -> B {
        match s.choose(8) {
            0 => el(s),
            1 => B::from(s.choose(2)),
            2 => B::from((1u64 << s.choose(30)) - s.choose(2) as u64),
            3 => B::from([254u64, 255, 256, 257, 2046, 2047, 2048, 2049][s.choose(8) as usize]),
            4 => -B::from(s.choose(3)),
            5 => B::from(s.choose(26)),
            _ => B::from(s.choose(256)),
        }
    }
    fn show(b: &BusInteraction<GE<B>>) -> String {
        b.fields().map(|e| e.transform_var_type(&mut |v| format!("v{v}")).to_string()).collect::<Vec<_>>().join(", ")
    }
    fn interaction(s: &mut dyn Src) -> BusInteraction<GE<B>> {
        let id = [0u64, 1, 2, 3, 3, 6, 6, 6, 7, 7][s.choose(10) as usize];
        let payload = match id {
            6 => {
                let x = arg(s);
                let y = if s.flip() { x.clone() } else { arg(s) };
                vec![x, y, if s.flip() { num(0) } else { arg(s) }, match s.choose(3) { 0 => arg(s), k => num(k as u64 - 1) }]
            }
            3 => vec![arg(s), if s.choose(4) == 0 { arg(s) } else { num([s.choose(28) as u64, el::<B>(s).to_degree()][(s.choose(6) == 0) as usize]) }],
            7 => vec![arg(s), arg(s)],
            0 => vec![arg(s), arg(s)],
            1 => vec![num(1 + s.choose(2) as u64), arg(s), arg(s), arg(s)],
            _ => vec![arg(s), arg(s), arg(s)],
        };
        BusInteraction { bus_id: num(id), multiplicity: num(1), payload }
    }
    fn holds(b: &BusInteraction<GE<B>>, env: &[B]) -> bool {
        ok(nn(eval(&b.bus_id, env)), &b.payload.iter().map(|e| eval(e, env)).collect::<Vec<_>>())
    }
    /// aim at assignments on the boundary of being allowed
    fn aim(s: &mut dyn Src, b: &[BusInteraction<GE<B>>]) -> Vec<B> {
        let mut env: Vec<B> = (0..NV).map(|_| value(s)).collect();
        if !b.is_empty() && s.choose(3) > 0 {
            let i = s.choose(b.len() as u32) as usize;
            // make each affine argument take a chosen value
            for e in &b[i].payload {
                let lin: Vec<(u32, B)> = e.linear_components().map(|(v, c)| (*v, *c)).collect();
                if let [(v, c)] = lin[..] {
                    if s.choose(3) > 0 { env[v as usize] = (value(s) - *e.constant_offset()) / c; }
                }
            }
        }
        env
    }
    /// "pure range constraints" are exactly the interaction
    pub fn ov_pure(s: &mut dyn Src) -> R {
        let b = interaction(s);
        let h = OpenVmBusInteractionHandler::<B>::default();
        let id = nn(b.bus_id.try_to_number().unwrap());
        let env = aim(s, &[b.clone()]);
        match h.pure_range_constraints(&b) {
            None => {}
            Some(r) => {
                ensure!(!h.is_stateful(B::from(id)), "a stateful interaction is never a range constraint", show(&b));
                let got = r.iter().all(|(e, rc)| rc.allows_value(eval(e, &env)));
                ensure!(got == holds(&b, &env), "range constraints differ from the interaction", show(&b), r.iter().map(|(_, r)| format!("{r}")).collect::<Vec<_>>(), env);
            }
        }
        Ok(())
    }
    /// the made interactions enforce exactly the requested range constraints
    pub fn ov_batch(s: &mut dyn Src) -> R {
        let h = OpenVmBusInteractionHandler::<B>::default();
        let mut rcs: RangeConstraints<B, u32> = vec![];
        let k = s.choose(5);
        for _ in 0..k {
            let rc = match s.choose(8) {
                0 | 1 | 2 => RangeConstraint::from_mask(0xffu64),
                3 | 4 => RangeConstraint::from_range(B::from(0u64), B::from(2047u64)),
                5 => RangeConstraint::from_mask((1u64 << s.choose(31)) - 1),
                6 => RangeConstraint::from_range(B::from(s.choose(2)), B::from(s.choose(3000))),
                _ => RangeConstraint::from_mask(s.choose(2048) as u64),
            };
            rcs.push((arg(s), rc));
        }
        let r = h.batch_make_range_constraints(rcs.clone());
        if rcs.iter().all(|(_, rc)| (0..=25).any(|b| *rc == RangeConstraint::from_mask((1u64 << b) - 1))) {
            ensure!(r.is_ok(), "bit constraints the VM supports must be implemented", rcs.iter().map(|r| format!("{}", r.1)).collect::<Vec<_>>());
        }
        if let Ok(bs) = r {
            for _ in 0..6 {
                let env = aim(s, &bs);
                let want = rcs.iter().all(|(e, rc)| rc.allows_value(eval(e, &env)));
                for b in &bs {
                    ensure!(b.multiplicity == num(1), "multiplicity is one", show(b));
                    ensure!(!h.is_stateful(b.bus_id.try_to_number().unwrap()), "a stateful interaction", show(b));
                }
                let got = bs.iter().all(|b| holds(b, &env));
                ensure!(got == want, "the interactions do not enforce the range constraints", rcs.iter().map(|(e, r)| format!("{e:?} in {r}")).collect::<Vec<_>>(), bs.iter().map(show).collect::<Vec<_>>(), env);
            }
        }
        Ok(())
    }
    /// the dispatch: unknown bus or multiplicity, zero multiplicity, each bus
    pub fn ov_handle(s: &mut dyn Src) -> R {
        let h = OpenVmBusInteractionHandler::<B>::default();
        let b = interaction(s);
        let env = aim(s, &[b.clone()]);
        let receive = s.flip();
        let zero = s.choose(4) == 0;
        let mult = if zero { B::from(0u64) } else if receive { -B::from(1u64) } else { B::from(1u64) };
        let id = nn(eval(&b.bus_id, &env));
        let pl: Vec<B> = b.payload.iter().map(|e| eval(e, &env)).collect();
        s.assume(zero || ok(id, &pl))?;
        if id == 1 && receive {
            let d = nn(pl[2]);
            s.assume(zero || (d < 256 && !(nn(pl[0]) == 1 && nn(pl[1]) == 0 && d != 0)))?;
        }
        let inp = BusInteraction {
            bus_id: around(s, B::from(id))?,
            multiplicity: around(s, mult)?,
            payload: pl.iter().map(|x| around(s, *x)).collect::<Result<Vec<_>, _>>()?,
        };
        // known operations are valid (anything else makes the system unsatisfiable)
        let out = h.handle_bus_interaction(inp.clone());
        ensure!(out.payload.len() == pl.len(), "payload length", out);
        ensure!(out.bus_id.allows_value(B::from(id)) && out.multiplicity.allows_value(mult), "bus id or multiplicity excluded", inp, out);
        for (r, x) in out.payload.iter().zip(&pl) {
            ensure!(r.allows_value(*x), "a payload value is excluded", id, mult, pl, inp, out);
        }
        Ok(())
    }
    contracts!(contracts_c11: ov_pure, ov_batch, ov_handle);
}
#[cfg(not(kani))]
pub use table::*;

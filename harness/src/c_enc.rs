//! C03: encodings of field elements (native contracts; strings and maps are out of the provers' reach).
#![cfg(not(kani))]
use crate::gen::*;
use num_traits::{One, Zero};
use powdr_number::*;
use std::io::Cursor;

fn bu(x: u64) -> BigUint { BigUint::from(x) }
fn p_of<F: FieldElement>() -> BigUint {
    match F::known_field().unwrap() {
        KnownField::BabyBearField => bu(0x7800_0001),
        KnownField::KoalaBearField => bu(0x7f00_0001),
        KnownField::Mersenne31Field => bu(0x7fff_ffff),
        KnownField::GoldilocksField => bu(0xFFFF_FFFF_0000_0001),
        KnownField::Bn254Field => BigUint::from_str_radix("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10).unwrap(),
    }
}
/// any integer around the interesting sizes
fn num<S: Src + ?Sized>(s: &mut S, p: &BigUint) -> BigUint {
    match s.choose(6) {
        0 => bu(s.u64()),
        1 => bu(s.u32() as u64),
        2 => p + bu(s.choose(4) as u64),
        3 => p - bu(1 + s.choose(4) as u64),
        4 => (p - bu(1)) / bu(2) + bu(s.choose(3) as u64),
        _ => { let mut n = bu(0); for _ in 0..4 { n = (n << 64usize) + bu(s.u64()); } n >> (s.choose(256) as usize) }
    }
}
fn el<F: FieldElement, S: Src + ?Sized>(s: &mut S) -> (F, BigUint) {
    let p = p_of::<F>();
    let n = num(s, &p) % &p;
    (F::checked_from(n.clone()).unwrap(), n)
}
fn roundtrip<F: FieldElement, S: Src + ?Sized>(s: &mut S) -> R {
    let (f, n) = el::<F, S>(s);
    let b = f.to_bytes_le();
    ensure!(F::from_bytes_le(&b) == f, "bytes round trip", n);
    ensure!(BigUint::from_le_bytes(&b) == n, "to_bytes_le is the canonical value", n);
    ensure!(n.to_string().parse::<F>() == Ok(f), "decimal round trip", n);
    for radix in [2u32, 8, 10, 16, 36] {
        let t = n.in_radix(radix).to_string();
        ensure!(F::from_str_radix(&t, radix) == Ok(f), "radix round trip", n, radix);
    }
    ensure!(format!("{f:x}") == format!("{n:x}") && format!("{:x}", f.to_integer()) == format!("{n:x}") && format!("{}", f.to_integer()) == n.to_string(), "hex and decimal rendering", n);
    let d = format!("{f}");
    let back = match d.strip_prefix('-') { Some(q) => q.parse::<F>().map(|x| -x), None => d.parse::<F>() };
    ensure!(back == Ok(f), "rendering parses back to the same element", n, d);
    let j = serde_json::to_string(&f).unwrap();
    ensure!(serde_json::from_str::<F>(&j).ok() == Some(f), "JSON round trip", n, j);
    let c = serde_cbor::to_vec(&f).unwrap();
    ensure!(serde_cbor::from_slice::<F>(&c).ok() == Some(f), "CBOR round trip", n);
    ensure!(<Vec<F> as ReadWrite>::read(&mut Cursor::new(serde_cbor::to_vec(&vec![f, f]).unwrap())) == vec![f, f], "ReadWrite::read", n);
    let (g, m) = el::<F, S>(s);
    ensure!((f == g) == (n == m), "distinct values stay distinct", n, m);
    ensure!((f.to_bytes_le() == g.to_bytes_le()) == (n == m), "encodings are injective", n, m);
    Ok(())
}
/// decoding never panics, never wraps: in range -> that element, out of range -> an error
fn decode<F: FieldElement, S: Src + ?Sized>(s: &mut S) -> R {
    let p = p_of::<F>();
    let n = num(s, &p);
    match n.to_string().parse::<F>() {
        Ok(f) => ensure!(n < p && f.to_arbitrary_integer() == n, "from_str accepts exactly the canonical decimals", n),
        Err(_) => ensure!(n >= p, "from_str rejects only n >= p", n),
    }
    for radix in [2u32, 10, 16, 36] {
        match F::from_str_radix(&n.in_radix(radix).to_string(), radix) {
            Ok(f) => ensure!(n < p && f.to_arbitrary_integer() == n, "from_str_radix accepts exactly the canonical numerals", n, radix),
            Err(_) => ensure!(n >= p, "from_str_radix rejects only n >= p", n, radix),
        }
    }
    for t in ["", "-", "zz", "0x", "1 2", "١", "-5", "1.5", "1e3"] {
        ensure!(F::from_str_radix(t, 10).is_err() && t.parse::<F>().is_err(), "text that is no number is an error", t);
    }
    if let (Ok(u), true) = (u64::try_from(n.clone()), F::known_field() != Some(KnownField::Bn254Field)) {
        match serde_json::from_str::<F>(&u.to_string()) {
            Ok(f) => ensure!(n < p && f.to_arbitrary_integer() == n && F::checked_from(n.clone()) == Some(f), "JSON decoding accepts exactly the canonical numbers", n),
            Err(_) => ensure!(n >= p, "JSON decoding rejects only n >= p", n),
        }
        match serde_cbor::from_slice::<F>(&serde_cbor::to_vec(&u).unwrap()) {
            Ok(f) => ensure!(n < p && F::checked_from(n.clone()) == Some(f), "CBOR decoding accepts exactly the canonical numbers", n),
            Err(_) => ensure!(n >= p, "CBOR decoding rejects only n >= p", n),
        }
    }
    for t in ["-1", "\"5x\"", "null", "1.5"] {
        ensure!(serde_json::from_str::<F>(t).is_err(), "JSON that is no field element is an error", t);
    }
    Ok(())
}
/// Bn254 bytes (JSON array / CBOR bytes of the 32 little-endian bytes): canonical or rejected
fn bn_bytes<S: Src + ?Sized>(s: &mut S) -> R {
    let p = p_of::<Bn254Field>();
    let n = num(s, &p) % (bu(1) << 256usize);
    let mut b = n.to_le_bytes();
    b.resize(32, 0);
    let j = serde_json::to_string(&b).unwrap();
    match serde_json::from_str::<Bn254Field>(&format!("{{\"value\":{j}}}")) {
        Ok(f) => ensure!(n < p && f.to_arbitrary_integer() == n, "decoding accepts exactly the canonical bytes", n),
        Err(_) => ensure!(n >= p, "decoding rejects only n >= p", n),
    }
    Ok(())
}
fn csv<F: FieldElement, S: Src + ?Sized>(s: &mut S) -> R {
    let cols = 1 + s.choose(3) as usize;
    let names = ["a", "main::x[0]", "with,comma", "quo\"te", "row", "Rows", " sp ace "];
    let k = s.choose(names.len() as u32) as usize;
    let mut polys: Vec<(String, Vec<F>)> = vec![];
    for i in 0..cols {
        let len = s.choose(4) as usize;
        let name = names[(k + i) % names.len()].to_string();
        polys.push((name, (0..len).map(|_| el::<F, S>(s).0).collect()));
    }
    let refs: Vec<(&String, &[F])> = polys.iter().map(|(n, v)| (n, v.as_slice())).collect();
    for (i, m) in [CsvRenderMode::SignedBase10, CsvRenderMode::UnsignedBase10, CsvRenderMode::Hex].into_iter().enumerate() {
        let mut buf = vec![];
        write_polys_csv_file(&mut buf, m, &refs);
        let back = read_polys_csv_file::<F>(&mut Cursor::new(buf));
        ensure!(back == polys, "CSV round trip", i, polys, back);
    }
    Ok(())
}
macro_rules! all { ($($n:ident = $g:ident::<$f:ty>;)*) => { $( fn $n<S: Src + ?Sized>(s: &mut S) -> R { $g::<$f, S>(s) } )* } }
all! {
    bb_rt = roundtrip::<BabyBearField>; kb_rt = roundtrip::<KoalaBearField>; m31_rt = roundtrip::<Mersenne31Field>; gl_rt = roundtrip::<GoldilocksField>; bn_rt = roundtrip::<Bn254Field>;
    bb_dec = decode::<BabyBearField>; kb_dec = decode::<KoalaBearField>; m31_dec = decode::<Mersenne31Field>; gl_dec = decode::<GoldilocksField>; bn_dec = decode::<Bn254Field>;
    bb_csv = csv::<BabyBearField>; gl_csv = csv::<GoldilocksField>; bn_csv = csv::<Bn254Field>;
}
fn log2<S: Src + ?Sized>(s: &mut S) -> R {
    let k = s.choose(400) as usize;
    let one = || bu(1) << k;
    ensure!(log2_exact(one()) == Some(k), "log2_exact of a power of two", k);
    let n = num(s, &p_of::<Bn254Field>());
    let m = if s.flip() { one() + bu(s.choose(3) as u64) } else { n };
    match log2_exact(m.clone()) {
        Some(i) => ensure!(m == bu(1) << i, "Some(i) only for 2^i", m, i),
        None => { for i in 0..420usize { ensure!(m != bu(1) << i, "None only for non-powers", m); } }
    }
    Ok(())
}
/// the file based writer, in a scratch directory
fn file<S: Src + ?Sized>(s: &mut S) -> R {
    let dir = std::env::temp_dir().join(format!("vh-c03-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("x.cbor");
    let v: Vec<(String, Vec<GoldilocksField>)> = (0..s.choose(3)).map(|i| (format!("c{i}"), (0..s.choose(4)).map(|_| el::<GoldilocksField, S>(s).0).collect())).collect();
    ReadWrite::write(&v, &path).unwrap();
    let back: Vec<(String, Vec<GoldilocksField>)> = ReadWrite::read(&mut std::fs::File::open(&path).unwrap());
    let _ = std::fs::remove_dir_all(&dir);
    ensure!(back == v, "file round trip", v);
    Ok(())
}
contracts!(contracts_c03: bb_rt, kb_rt, m31_rt, gl_rt, bn_rt, bb_dec, kb_dec, m31_dec, gl_dec, bn_dec, bn_bytes, bb_csv, gl_csv, bn_csv, log2, file);

//! Input sources.  A contract is a function `fn(&mut S) -> R` over a source `S`: under Kani the
//! source is symbolic (every value at once); natively it is an exhaustive odometer, a seeded
//! sampler, or the replay of a recorded trace.
pub enum Stop {
    /// precondition not met
    Skip,
    /// postcondition violated
    Fail(String),
}
pub type R = Result<(), Stop>;

pub trait Src {
    /// any value in 0..n, exhaustively enumerated in bounded mode (small n)
    fn choose(&mut self, n: u32) -> u32;
    /// any value in 0..=max; bounded mode uses a boundary table, sampled mode mixes both
    fn big(&mut self, max: u64) -> u64;
    fn assume(&mut self, c: bool) -> R;
    fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }
    fn u32(&mut self) -> u32 {
        self.big(u32::MAX as u64) as u32
    }
    fn u64(&mut self) -> u64 {
        self.big(u64::MAX)
    }
    fn u128(&mut self) -> u128 {
        let hi = self.u64() as u128;
        (hi << 64) | self.u64() as u128
    }
    /// true when inputs are symbolic
    fn symbolic(&self) -> bool {
        false
    }
}

#[cfg(kani)]
pub struct Sym;
#[cfg(kani)]
impl Src for Sym {
    fn choose(&mut self, n: u32) -> u32 {
        let x: u32 = kani::any();
        kani::assume(x < n);
        x
    }
    fn big(&mut self, max: u64) -> u64 {
        let x: u64 = kani::any();
        kani::assume(x <= max);
        x
    }
    fn assume(&mut self, c: bool) -> R {
        kani::assume(c);
        Ok(())
    }
    fn symbolic(&self) -> bool {
        true
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $m:literal $(, $a:expr)* $(,)?) => {{
        #[cfg(kani)]
        {
            assert!($c, $m);
        }
        #[cfg(not(kani))]
        {
            if !($c) {
                return Err($crate::gen::Stop::Fail(format!("{}: {}{}", stringify!($c), $m, String::new() $(+ &format!(" [{} = {:?}]", stringify!($a), $a))*)));
            }
        }
    }};
}

fn boundary(max: u64) -> Vec<u64> {
    let mut v = vec![0, 1, 2, 3, max, max - 1, max - 2, max / 2, max / 2 + 1, max / 2 - 1];
    let mut b = 4u64;
    loop {
        v.extend([b - 1, b, b + 1]);
        if b >= 1 << 63 { break; }
        b <<= 1;
    }
    const P: [u64; 4] = [0xFFFF_FFFF_0000_0001, 0x7800_0001, 0x7f00_0001, 0x7fff_ffff];
    for p in P {
        v.extend([p - 2, p - 1, p, p.wrapping_add(1), p / 2, p / 2 + 1, p.wrapping_mul(2), p.wrapping_mul(2) + 1]);
    }
    v.extend([0xffff_ffff_ffff_ffff, 0xffff_ffff_0000_0000, 0x1_0000_0000, 0xffff_fffe_ffff_ffff, 0xaaaa_aaaa_aaaa_aaaa, 0x5555_5555_5555_5555, 1234567, 0x1234_5678_9abc_def0]);
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}

thread_local! { static TABLE: std::cell::RefCell<std::collections::HashMap<u64, std::rc::Rc<Vec<u64>>>> = Default::default(); }
fn table(max: u64) -> std::rc::Rc<Vec<u64>> {
    TABLE.with(|t| t.borrow_mut().entry(max).or_insert_with(|| std::rc::Rc::new(boundary(max))).clone())
}

/// Depth-first odometer over all choice sequences.
pub struct Exhaustive {
    stack: Vec<(u32, u32, u64)>, // index, arity, value
    pos: usize,
}
impl Exhaustive {
    pub fn new() -> Self {
        Exhaustive { stack: vec![], pos: 0 }
    }
    pub fn restart(&mut self) {
        self.pos = 0;
    }
    /// advance; false when the space is exhausted
    pub fn next(&mut self) -> bool {
        self.stack.truncate(self.pos);
        while let Some((i, n, _)) = self.stack.pop() {
            if i + 1 < n {
                self.stack.push((i + 1, n, 0));
                return true;
            }
        }
        false
    }
    pub fn trace(&self) -> Vec<u64> {
        self.stack[..self.pos].iter().map(|x| x.2).collect()
    }
    fn step(&mut self, n: u32, f: impl Fn(u32) -> u64) -> u64 {
        assert!(n > 0);
        if self.pos == self.stack.len() {
            self.stack.push((0, n, 0));
        }
        let e = &mut self.stack[self.pos];
        e.1 = n;
        e.2 = f(e.0);
        let r = e.2;
        self.pos += 1;
        r
    }
}
impl Src for Exhaustive {
    fn choose(&mut self, n: u32) -> u32 {
        self.step(n, |i| i as u64) as u32
    }
    fn big(&mut self, max: u64) -> u64 {
        if max < 16 {
            return self.step(max as u32 + 1, |i| i as u64);
        }
        let t = table(max);
        self.step(t.len() as u32, |i| t[i as usize])
    }
    fn assume(&mut self, c: bool) -> R {
        if c { Ok(()) } else { Err(Stop::Skip) }
    }
}

pub struct Sampler {
    pub state: u64,
    pub trace: Vec<u64>,
}
impl Sampler {
    pub fn new(seed: u64) -> Self {
        Sampler { state: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03, trace: vec![] }
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}
impl Src for Sampler {
    fn choose(&mut self, n: u32) -> u32 {
        let r = (self.raw() % n as u64) as u32;
        self.trace.push(r as u64);
        r
    }
    fn big(&mut self, max: u64) -> u64 {
        let k = self.raw();
        let r = if k & 1 == 0 && max >= 16 {
            let q = self.raw();
            let t = table(max);
            t[(q % t.len() as u64) as usize]
        } else {
            let q = self.raw() >> ((k >> 1) % 64);
            if max == u64::MAX { q } else { q % (max + 1) }
        };
        self.trace.push(r);
        r
    }
    fn assume(&mut self, c: bool) -> R {
        if c { Ok(()) } else { Err(Stop::Skip) }
    }
}

/// Replays a recorded trace (from the odometer, the sampler, or a Kani counterexample).
pub struct Replay {
    pub vals: Vec<u64>,
    pub pos: usize,
}
impl Replay {
    fn next(&mut self) -> u64 {
        let r = self.vals.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        r
    }
}
impl Src for Replay {
    fn choose(&mut self, n: u32) -> u32 {
        (self.next() % n as u64) as u32
    }
    fn big(&mut self, max: u64) -> u64 {
        let v = self.next();
        if max == u64::MAX { v } else { v % (max + 1) }
    }
    fn assume(&mut self, c: bool) -> R {
        if c { Ok(()) } else { Err(Stop::Skip) }
    }
}

#[macro_export]
macro_rules! contracts {
    ($fname:ident: $($n:ident),* $(,)?) => {
        #[cfg(not(kani))]
        pub fn $fname() -> Vec<(&'static str, $crate::Contract)> {
            vec![$((stringify!($n), (|s: &mut dyn $crate::gen::Src| $n(s)) as $crate::Contract)),*]
        }
    };
}
/// one Kani proof per contract; the cover keeps the precondition honest
#[macro_export]
macro_rules! proofs {
    ($unwind:literal: $($n:ident),* $(,)?) => {
        #[cfg(kani)]
        pub mod proofs {
            use super::*;
            $(
                #[kani::proof]
                #[kani::unwind($unwind)]
                pub fn $n() {
                    let _ = super::$n(&mut $crate::gen::Sym);
                    kani::cover!(true, "precondition reachable");
                }
            )*
        }
    };
}

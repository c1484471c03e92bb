#![allow(clippy::all, unused_imports, unused_macros, unexpected_cfgs)]
#[macro_use]
pub mod gen;
pub mod field;
#[cfg(feature = "c01")]
pub mod c_field;
#[cfg(feature = "c02")]
pub mod c_field31;

#[cfg(feature = "c03")]
pub mod c_enc;

#[cfg(any(feature = "c04", feature = "c05"))]
pub mod c_range;

#[cfg(all(feature = "solver", not(kani)))]
pub mod ex;
#[cfg(all(any(feature = "c06", feature = "c07"), not(kani)))]
pub mod c_expr;

#[cfg(all(feature = "solver", not(kani)))]
pub mod sys;
#[cfg(all(feature = "solver", not(kani)))]
pub mod plant;
#[cfg(all(any(feature = "c08", feature = "c09", feature = "c10"), not(kani)))]
pub mod c_solve;

#[cfg(feature = "c11")]
pub mod c_bus;

#[cfg(all(any(feature = "c12", feature = "c13", feature = "c14"), not(kani)))]
pub mod c_opt;

#[cfg(all(feature = "apc", not(kani)))]
pub mod ta;
#[cfg(all(any(feature = "c15", feature = "c20"), not(kani)))]
pub mod c_apc;
#[cfg(all(any(feature = "c16", feature = "c20"), not(kani)))]
pub mod c_blocks;
#[cfg(feature = "c17")]
pub mod c_exec;
#[cfg(feature = "c21")]
pub mod c_riscv;
#[cfg(all(feature = "c21", any(kani, feature = "private")))]
pub mod c_lift;
#[cfg(all(any(feature = "c21", feature = "c22"), not(kani)))]
pub mod c_elf;

pub type Contract = fn(&mut dyn gen::Src) -> gen::R;

#[cfg(not(kani))]
/// name -> contract, for the native driver
pub fn registry() -> Vec<(&'static str, Contract)> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, Contract)> = vec![];
    #[cfg(feature = "c01")]
    v.extend(c_field::contracts_c01());
    #[cfg(feature = "c02")]
    v.extend(c_field31::contracts_c02());
    #[cfg(feature = "c03")]
    v.extend(c_enc::contracts_c03());
    #[cfg(feature = "c04")]
    v.extend(c_range::contracts_c04());
    #[cfg(feature = "c05")]
    v.extend(c_range::contracts_c05());
    #[cfg(feature = "c06")]
    v.extend(c_expr::contracts_c06());
    #[cfg(feature = "c07")]
    v.extend(c_expr::contracts_c07());
    #[cfg(feature = "c08")]
    v.extend(c_solve::contracts_c08());
    #[cfg(feature = "c09")]
    v.extend(c_solve::contracts_c09());
    #[cfg(all(feature = "c09", feature = "private"))]
    v.extend(c_solve::contracts_c09p());
    #[cfg(feature = "c10")]
    v.extend(c_solve::contracts_c10());
    #[cfg(feature = "c11")]
    v.extend(c_bus::contracts_c11());
    #[cfg(all(feature = "c11", feature = "private"))]
    v.extend(c_bus::contracts_c11p());
    #[cfg(feature = "c12")]
    v.extend(c_opt::contracts_c12());
    #[cfg(feature = "c13")]
    v.extend(c_opt::contracts_c13());
    #[cfg(feature = "c14")]
    v.extend(c_opt::contracts_c14());
    #[cfg(all(feature = "c14", feature = "private"))]
    v.extend(c_opt::contracts_c14p());
    #[cfg(feature = "c15")]
    v.extend(c_apc::contracts_c15());
    #[cfg(all(feature = "c15", feature = "private"))]
    v.extend(c_apc::contracts_c15p());
    #[cfg(feature = "c16")]
    v.extend(c_blocks::contracts_c16());
    #[cfg(feature = "c20")]
    v.extend(c_blocks::contracts_c20());
    #[cfg(feature = "c17")]
    v.extend(c_exec::contracts_c17());
    #[cfg(all(feature = "c17", feature = "private"))]
    v.extend(c_exec::contracts_c17p());
    #[cfg(feature = "c18")]
    v.extend(c_exec::contracts_c18());
    #[cfg(feature = "c19")]
    v.extend(c_exec::contracts_c19());
    #[cfg(all(feature = "c21", feature = "private"))]
    v.extend(c_lift::contracts_c21s());
    #[cfg(feature = "c21")]
    v.extend(c_elf::contracts_c21());
    #[cfg(all(feature = "c21", feature = "private"))]
    v.extend(c_elf::contracts_c21p());
    #[cfg(all(feature = "c22", feature = "private"))]
    v.extend(c_lift::contracts_c22s());
    #[cfg(feature = "c22")]
    v.extend(c_elf::contracts_c22());
    v
}


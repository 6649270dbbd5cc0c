mod api;
mod c_abi;
mod golden;
mod hyb;
mod model;
mod pbt;
mod props_bind;
mod props_bytes;
mod props_core;
mod props_ffi;
mod props_hybrid;
mod props_leak;
mod props_more;
mod props_scheme;
mod props_sym;
mod refimpl;
mod runner;
mod sched;
#[cfg(feature = "alt")]
mod sym;
#[cfg(feature = "toy")]
mod toy;

#[global_allocator]
static ALLOC: pbt::Meter = pbt::Meter;

pub fn subs(prop: &str) -> Vec<pbt::Sub> {
    let mut v = vec![];
    v.extend(props_core::subs(prop));
    v.extend(props_scheme::subs(prop));
    v.extend(props_bytes::subs(prop));
    v.extend(props_hybrid::subs(prop));
    v.extend(props_ffi::subs(prop));
    v.extend(props_bind::subs(prop));
    v.extend(props_more::subs(prop));
    v.extend(props_sym::subs(prop));
    v.extend(props_leak::subs(prop));
    v
}

fn main() {
    pbt::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(runner::main(&args));
}

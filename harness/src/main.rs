mod api;
mod bld;
mod churn;
mod conc;
mod eq;
mod auto;
mod iter;
mod many;
mod model;
mod pol;
mod seq;
mod tim;
mod wear;
mod unit;
#[global_allocator]
static A: mcrt::alloc::McAlloc = mcrt::alloc::McAlloc;
fn main() {
    let mut us = Vec::new();
    us.extend(seq::units());
    us.extend(conc::units());
    us.extend(eq::units());
    us.extend(iter::units());
    us.extend(auto::units());
    us.extend(pol::units());
    us.extend(tim::units());
    us.extend(wear::units());
    us.extend(many::units());
    us.extend(bld::units());
    us.extend(churn::units());
    unit::main(us);
}

#[global_allocator]
static ALLOC: mc_core::CountingAlloc = mc_core::CountingAlloc;

mod announce;
mod prim;

fn main() {
    mc_core::main(&[("C05", prim::c05), ("C28", prim::c28), ("C30", announce::c30)]);
}

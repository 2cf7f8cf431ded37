#[global_allocator]
static ALLOC: mc_core::CountingAlloc = mc_core::CountingAlloc;

mod wrap;

fn main() {
    mc_core::main(&[("C23", wrap::c23)]);
}

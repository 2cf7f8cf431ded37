#[global_allocator]
static ALLOC: mc_core::CountingAlloc = mc_core::CountingAlloc;

mod state;

fn main() {
    mc_core::main(&[("C22", state::c22)]);
}

#[global_allocator]
static ALLOC: mc_core::CountingAlloc = mc_core::CountingAlloc;

mod bytes;
mod rebuild;

fn main() {
    mc_core::main(&[
        ("C06", rebuild::c06),
        ("C24", bytes::c24),
        ("C26", rebuild::c26),
    ]);
}

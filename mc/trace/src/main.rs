#[global_allocator]
static ALLOC: mc_core::CountingAlloc = mc_core::CountingAlloc;

mod debug;
mod path;
mod stack;

fn main() {
    mc_core::main(&[
        ("C17", stack::c17),
        ("C18", path::c18),
        ("C19", path::c19),
        ("C20", path::c20),
        ("C21", debug::c21),
    ]);
}

#[global_allocator]
static ALLOC: mc_core::CountingAlloc = mc_core::CountingAlloc;

mod reader;
mod roundtrip;
mod writer;

fn main() {
    mc_core::main(&[
        ("C01", reader::c01),
        ("C02", reader::c02),
        ("C03", writer::c03),
        ("C04", roundtrip::c04),
    ]);
}

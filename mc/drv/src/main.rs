#[global_allocator]
static ALLOC: mc_core::CountingAlloc = mc_core::CountingAlloc;

mod de;
mod ser;

fn main() {
    mc_core::main(&[
        ("C10", ser::c10),
        ("C11", ser::c11),
        ("C12", de::c12),
        ("C13", de::c13),
        ("C14", |r| {
            ser::c14(r);
            de::c14(r)
        }),
        ("C15", |r| {
            ser::c15(r);
            de::c15(r)
        }),
        ("C16", |r| {
            ser::c16(r);
            de::c16(r)
        }),
    ]);
}

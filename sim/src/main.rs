#[global_allocator]
static A: simcore::alloc::SimAlloc = simcore::alloc::SimAlloc;
fn main() {
    scen::main()
}

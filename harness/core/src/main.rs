fn main() {
    engine::main(vp_core::props())
}

fn main() {
    hx::main(&hx::NoTypes)
}

fn main() {
    vh::main_loop::worker_main()
}

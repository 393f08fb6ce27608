fn main() { symrt_native::main(hp03::TABLE) }

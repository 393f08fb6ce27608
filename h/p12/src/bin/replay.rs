fn main() { symrt_native::main(hp12::TABLE) }

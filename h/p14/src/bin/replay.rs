fn main() { symrt_native::main(hp14::TABLE) }

fn main() { symrt_native::main(hp28::TABLE) }

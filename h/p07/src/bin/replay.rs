fn main() { symrt_native::main(hp07::TABLE) }

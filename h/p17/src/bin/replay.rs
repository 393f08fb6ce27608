fn main() { symrt_native::main(hp17::TABLE) }

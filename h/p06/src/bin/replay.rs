fn main() { symrt_native::main(hp06::TABLE) }

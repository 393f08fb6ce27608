fn main() { symrt_native::main(hp26::TABLE) }

fn main() { symrt_native::main(hp02::TABLE) }

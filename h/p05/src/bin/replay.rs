fn main() { symrt_native::main(hp05::TABLE) }

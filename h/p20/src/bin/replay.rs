fn main() { symrt_native::main(hp20::TABLE) }

fn main() { symrt_native::main(hp24::TABLE) }

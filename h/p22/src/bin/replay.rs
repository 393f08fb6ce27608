fn main() { symrt_native::main(hp22::TABLE) }

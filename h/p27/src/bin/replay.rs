fn main() { symrt_native::main(hp27::TABLE) }

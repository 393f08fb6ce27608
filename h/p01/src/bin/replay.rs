fn main() { symrt_native::main(hp01::TABLE) }

fn main() { symrt_native::main(hp16::TABLE) }

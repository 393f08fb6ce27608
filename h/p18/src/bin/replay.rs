fn main() { symrt_native::main(hp18::TABLE) }

fn main() { symrt_native::main(hp25::TABLE) }

fn main() { symrt_native::main(hp21::TABLE) }

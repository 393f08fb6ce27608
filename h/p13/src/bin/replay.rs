fn main() { symrt_native::main(hp13::TABLE) }

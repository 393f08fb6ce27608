fn main() { symrt_native::main(hp19::TABLE) }

fn main() { symrt_native::main(hp09::TABLE) }

fn main() { symrt_native::main(hp04::TABLE) }

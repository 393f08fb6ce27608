fn main() { symrt_native::main(hp23::TABLE) }

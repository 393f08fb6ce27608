fn main() { symrt_native::main(hp08::TABLE) }

fn main() { symrt_native::main(hp11::TABLE) }

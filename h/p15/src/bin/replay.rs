fn main() { symrt_native::main(hp15::TABLE) }

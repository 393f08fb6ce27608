fn main() { symrt_native::main(hp10::TABLE) }

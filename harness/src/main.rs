fn main() { bsv::supervise::main() }

fn main() { rhcheck::run(rhcheck::checks::all()) }

fn main() {
  dbmlcheck::cli::main(dbmlcheck::props::all());
}

mod props;
fn main() { kdlcheck::cli::main(props::find) }

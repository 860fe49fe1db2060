mod lsp;
use kdlcheck::driver::Prop;
fn find(id: &str) -> Option<Box<dyn Prop>> {
    Some(match id { "C19" => Box::new(lsp::Lsp), _ => return None })
}
fn main() { kdlcheck::cli::main(find) }

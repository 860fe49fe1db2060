mod convert;
mod fallback;
use kdlcheck::driver::Prop;
fn find(id: &str) -> Option<Box<dyn Prop>> {
    Some(match id { "C16" => Box::new(convert::Convert), "C17" => Box::new(fallback::Fallback), _ => return None })
}
fn main() { kdlcheck::cli::main(find) }

mod api;
mod roundtrip;
mod serdep;
mod text;
use kdlcheck::driver::Prop;
pub fn find(id: &str) -> Option<Box<dyn Prop>> {
    Some(match id {
        "C01" => Box::new(text::Text(id.into(), text::roundtrip)),
        "C04" => Box::new(text::Text(id.into(), text::autoformat)),
        "C05" => Box::new(text::Text(id.into(), text::total)),
        "C06" => Box::new(text::Text(id.into(), text::spans)),
        "C07" => Box::new(text::Text(id.into(), text::conforms)),
        "C08" => Box::new(text::Strings),
        "C09" => Box::new(text::Numbers),
        "C18" => Box::new(text::Text(id.into(), text::clears)),
        "C02" => Box::new(api::Values),
        "C03" => Box::new(api::Built),
        "C10" => Box::new(api::NodeOps),
        "C11" => Box::new(api::DocOps),
        "C12" => Box::new(api::Laws),
        "C13" => Box::new(serdep::Numbers),
        "C14" => Box::new(roundtrip::Typed),
        "C15" => Box::new(serdep::Shapes),
        _ => return None,
    })
}

use kproofs::*;
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    #[cfg(not(kani))]
    kproofs::kani::INPUT.with(|i| *i.borrow_mut() = a[1..].iter().map(|h| (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect()).collect());
    match a[0].as_str() {
        "eq_is_equality_of_content" => value_laws::eq_is_equality_of_content(),
        "equal_values_hash_equally" => value_laws::equal_values_hash_equally(),
        "shown_i64" => serde_numbers::shown_i64(),
        "shown_u64" => serde_numbers::shown_u64(),
        "shown_i128" => serde_numbers::shown_i128(),
        "shown_f64" => serde_numbers::shown_f64(),
        "widening_is_exact" => serde_numbers::widening_is_exact(),
        x => panic!("no harness {x}"),
    }
    println!("replayed: holds");
}

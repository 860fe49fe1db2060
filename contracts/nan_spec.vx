pub uninterp spec fn f64_is_nan(f: f64) -> bool;

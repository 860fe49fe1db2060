pub mod conv;
pub mod driver;
pub mod ref2;
pub mod textgen;
pub mod cli;

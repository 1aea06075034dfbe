pub mod cost;
pub mod cov;
pub mod dict;
pub mod engine;
pub mod gen;
pub mod guided;
pub mod imp;
pub mod json;
pub mod layout;
pub mod model;
pub mod props;
pub mod props2;
pub mod refp;
pub mod soup;
pub mod src;

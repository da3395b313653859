pub mod api;
pub mod dd;
pub mod dict;
pub mod fw;
pub mod gen;
pub mod props;
pub mod refm;
pub mod rng;

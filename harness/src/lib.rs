#[cfg(feature = "replay")]
pub mod replay;
pub mod sym;
#[macro_use]
pub mod shapes;
pub mod model;
pub mod props;
#[cfg(feature = "p_double")]
pub mod double_src;

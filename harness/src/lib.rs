//! Runtime monitors for mplx-rewards
pub mod checks;
pub mod gen;
pub mod hostile;
pub mod meter;
pub mod model;
pub mod reasons;
pub mod rng;
pub mod svm;
pub mod vary;
pub mod wire;
pub mod work;
pub mod world;

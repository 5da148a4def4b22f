//! tonic as seen by the code under test inside the model checker.
pub use real_tonic::*;
pub mod transport;

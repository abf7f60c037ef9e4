//! Runner shared by every check: seeded generation, shrinking, counting, replay and evidence.
pub mod big;
pub mod gen;
pub mod refs;
pub mod runner;
pub use gen::*;
pub use proptest::prelude::{any, prop, prop_oneof, Just, Strategy};
pub use runner::*;
pub use serde::{Deserialize, Serialize};

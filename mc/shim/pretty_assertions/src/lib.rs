pub use core::{assert_eq, assert_ne};

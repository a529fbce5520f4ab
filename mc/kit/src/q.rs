//! Exact rational arithmetic for reference models.
pub use num_bigint::BigInt;
pub use num_rational::BigRational as Q;
use num_traits::{Signed, ToPrimitive, Zero, One};

pub fn q(n: i128) -> Q { Q::from_integer(BigInt::from(n)) }
pub fn qu(n: u128) -> Q { Q::from_integer(BigInt::from(n)) }
pub fn qf(n: i128, d: i128) -> Q { Q::new(BigInt::from(n), BigInt::from(d)) }
/// fixed point with 18 decimals
pub fn fixed(inner: i128) -> Q { qf(inner, 1_000_000_000_000_000_000) }
pub fn fixedu(inner: u128) -> Q { Q::new(BigInt::from(inner), BigInt::from(1_000_000_000_000_000_000u128)) }
pub fn floor(x: &Q) -> i128 { x.floor().to_integer().to_i128().expect("range") }
pub fn ceil(x: &Q) -> i128 { x.ceil().to_integer().to_i128().expect("range") }
pub fn zero() -> Q { Q::zero() }
pub fn one() -> Q { Q::one() }
pub fn abs(x: &Q) -> Q { x.abs() }
pub fn f(x: &Q) -> f64 { x.to_f64().unwrap_or(f64::NAN) }
pub fn min<'a>(a: &'a Q, b: &'a Q) -> &'a Q { if a <= b { a } else { b } }
pub fn max<'a>(a: &'a Q, b: &'a Q) -> &'a Q { if a >= b { a } else { b } }

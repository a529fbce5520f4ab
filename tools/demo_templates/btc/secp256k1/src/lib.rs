//! The subset of the secp256k1 0.20 API (git rev 8e61874) that interbtc uses, over the cached 0.24.3.
pub use inner::{constants, ffi, Error, Secp256k1, AllPreallocated, SecretKey, Context, Signing, Verification};
#[cfg(feature = "rand-std")]
pub use inner::rand;
use inner::Scalar;

#[derive(Copy, Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct PublicKey(pub inner::PublicKey);

impl PublicKey {
    pub fn from_slice(b: &[u8]) -> Result<Self, Error> { inner::PublicKey::from_slice(b).map(PublicKey) }
    pub fn from_secret_key<C: Signing>(secp: &Secp256k1<C>, sk: &SecretKey) -> Self {
        PublicKey(inner::PublicKey::from_secret_key(secp, sk))
    }
    pub fn serialize(&self) -> [u8; constants::PUBLIC_KEY_SIZE] { self.0.serialize() }
    /// 0.20: fails with InvalidTweak unless `other` is 32 bytes and a valid non-zero scalar.
    pub fn mul_assign<C: Verification>(&mut self, secp: &Secp256k1<C>, other: &[u8]) -> Result<(), Error> {
        if other.len() != 32 { return Err(Error::InvalidTweak); }
        let mut b = [0u8; 32];
        b.copy_from_slice(other);
        let s = Scalar::from_be_bytes(b).map_err(|_| Error::InvalidTweak)?;
        self.0 = self.0.mul_tweak(secp, &s)?;
        Ok(())
    }
    pub fn add_exp_assign<C: Verification>(&mut self, secp: &Secp256k1<C>, other: &[u8]) -> Result<(), Error> {
        if other.len() != 32 { return Err(Error::InvalidTweak); }
        let mut b = [0u8; 32];
        b.copy_from_slice(other);
        let s = Scalar::from_be_bytes(b).map_err(|_| Error::InvalidTweak)?;
        self.0 = self.0.add_exp_tweak(secp, &s)?;
        Ok(())
    }
}
impl core::ops::Deref for PublicKey { type Target = inner::PublicKey; fn deref(&self) -> &inner::PublicKey { &self.0 } }

#![allow(clippy::all)]
pub mod sr25519 { mod app { use sp_application_crypto::{app_crypto, sr25519}; app_crypto!(sr25519, sp_core::crypto::KeyTypeId(*b"aura")); } pub type AuthorityId = app::Public; }

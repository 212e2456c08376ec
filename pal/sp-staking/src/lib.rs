//! Offline stand-in.
pub type SessionIndex = u32;

pub type SessionIndex = u32;

// Serde implementations for newtypes that mostly just forward.
pub mod newtypes;
// Serde implementations that do something more complicated, for
// "essential" types.
pub mod essentials;

//! Intentionally empty, see Cargo.toml.

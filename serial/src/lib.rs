//! Saving and restoring baselines: P27 (what was saved comes back) and P28 (whatever the bytes).
pub mod bytes;
pub mod shapes;
pub mod trip;
pub mod wire;

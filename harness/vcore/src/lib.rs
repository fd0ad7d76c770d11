pub mod alloc;
pub mod case;
pub mod engine;
pub mod gen;
pub mod hist;
pub mod oracle;
pub mod rng;
pub mod shrink;
pub mod tsan;

pub use orx_concurrent_iter::*;

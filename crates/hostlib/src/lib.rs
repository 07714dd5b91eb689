pub use thiserror::Error;

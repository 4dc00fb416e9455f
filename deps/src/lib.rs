pub use {diesel, log, serde};

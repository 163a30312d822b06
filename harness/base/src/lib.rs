pub use oak_runtime;

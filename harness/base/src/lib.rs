pub use derive_builder;

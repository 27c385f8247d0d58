//! Builds rust-cpython for the modules of the Python checks.

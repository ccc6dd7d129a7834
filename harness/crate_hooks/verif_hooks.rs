//! Mounted inside the acorn crate by harness/mirror.py. Read-only access to crate-private items.

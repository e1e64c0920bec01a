//! Types with unknown `rename_all` rules: each of them has to be rejected at compile time
//! (checked by /verif/check.py, which looks for an error in every one of them).
#[cfg(feature = "reject")]
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/reject.rs"));

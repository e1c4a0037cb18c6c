#![allow(clippy::all)]
#![allow(dead_code)]
#![allow(unused)]
extern crate alloc;
pub mod env;
pub mod sx;

/// The library keeps this module to itself: its source is compiled here as it is.
#[cfg(feature = "x509")]
#[path = "../../build/farm/spdmlib/src/crypto/x509v3.rs"]
mod x509v3;
#[cfg(feature = "x509")]
use spdmlib::{error, protocol};

macro_rules! groups {
    ($($feat:literal $m:ident),* $(,)?) => {
        $(#[cfg(feature = $feat)] pub mod $m;)*
        /// name -> harness, for the native replay
        pub fn table(name: &str) -> Option<extern "C" fn()> {
            $(#[cfg(feature = $feat)]
            if let Some(f) = $m::TABLE.iter().find(|x| x.0 == name) {
                return Some(f.1);
            })*
            None
        }
    };
}
groups!("probe" probe, "neg" neg, "sess" sess, "gate" gate, "kex" kex, "attest" attest, "data" data, "total" total, "rneg" rneg, "ratt" ratt, "rkex" rkex, "encap" encap, "rcert" rcert, "x509" x509, "wire" wire, "rtotal" rtotal, "pair" pair);

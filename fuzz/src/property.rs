//! The bytes of libFuzzer spell a case of the property
//! named by VERIF_PROPERTY; the oracle is the property's own.
#![no_main]
libfuzzer_sys::fuzz_target!(|data: &[u8]| vharness::fuzz::one(data));

#![feature(try_trait_v2, step_trait, trusted_len)]
#![allow(clippy::all, dead_code)]
pub mod models;
pub mod props;
pub mod spec;
pub mod verif;

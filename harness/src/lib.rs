//! Entry points from which the static analyser follows the code of flatdata.
//!
//! Nothing here is ever run. Each function named `r_*` is the root of one analysed call graph; the
//! types named `Abs*` stand for an arbitrary flatdata type: their `SIZE_IN_BYTES` is kept as a
//! symbol by the analyser.
#![feature(try_trait_v2)]
#![allow(dead_code, bare_trait_objects, deprecated, unused_doc_comments, clippy::all)]

#[macro_use]
extern crate flatdata;

pub mod abs;
pub mod archives;
pub mod bits;
pub mod containers;
pub mod iters;
pub mod keep;
pub mod layouts;
pub mod models;
pub mod storages;

//! Reference models: the executable specifications that runs are compared with.
#![allow(clippy::all)]
pub mod cipher;
pub mod hash;
pub mod keys;
pub mod num;
pub mod selftest;
pub mod text;

#![cfg(kani)]
#![allow(dead_code)]
#![feature(allocator_api)]
#![recursion_limit = "1024"]
pub mod rtape;
pub mod tape;
pub mod util;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c11;
mod c12;
mod c13;
mod c18;
mod c19;
pub mod c07;
pub mod sha;
mod c09;
mod c10;
pub mod bw;
pub mod c14;

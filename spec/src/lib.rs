#![allow(dead_code, unused_imports, unused_variables, non_snake_case)]
#[path = "/repo/src/core/mod.rs"]
mod core;

mod c01;
mod c02;
mod c03;
mod c10;
mod c11;
mod c13;
mod c25;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22; mod c26; mod c27; mod c28; mod c29; mod c30; mod c23;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c14;
mod c12;
mod c15;
mod c16;
mod c17;

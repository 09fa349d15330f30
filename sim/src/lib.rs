//! The simulator of the command line programs, and what the library simulator shares with it.
#![allow(dead_code)]
pub mod case;
pub mod codegen;
pub mod gen;
pub mod json;
pub mod mini;
pub mod nq;
pub mod os;
pub mod refm;
pub mod rng;
pub mod scen;
pub mod val;
pub mod work;

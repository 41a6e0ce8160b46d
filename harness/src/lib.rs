extern crate alloc;
pub mod cosim;
pub mod fuel;
pub mod gen;
pub mod model;
pub mod props;
pub mod refp;
pub mod rawfuzz;
pub mod runner;
pub mod treesim;
pub mod util;
pub mod pages;
pub mod steps;
pub mod remote;
pub mod transcript;
pub mod heap;

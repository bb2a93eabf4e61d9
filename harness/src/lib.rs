//! Harnesses: each `h_*` function states one property over symbolic inputs, calling the real code of /repo.
pub mod intr;
pub mod alloc;
pub mod ring;
pub mod verdict;
pub mod runners;
pub mod passes;
pub mod crud;
pub mod texts;
pub mod measurers;
pub mod asyn;
pub mod conc;
pub mod reports;
pub mod panics;
pub mod rows;

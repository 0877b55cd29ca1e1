//! Shared machinery of the property checks: deterministic generated-case runner
//! on top of proptest, evidence and replay files, crash and hang supervision.

pub mod cli;
pub mod dngmini;
pub mod fill;
pub mod pack;
pub mod foreign;
pub mod ftp;
pub mod ljref;
pub mod picture;
pub mod rawgen;
pub mod runner;
pub mod tiffmini;
pub mod vendor;
pub mod vfile;
pub mod rw2;
pub mod worker;
pub mod mutate;

pub use runner::{main_with, nontrivial, trivial, Cls, Outcome, Runner};

#[macro_export]
macro_rules! ensure {
  ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
  ($a:expr, $b:expr, $($m:tt)*) => { match (&$a, &$b) { (a, b) => if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); } } };
}

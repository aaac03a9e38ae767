//! Offline stand-in: the checked code only names this crate (`extern crate`).

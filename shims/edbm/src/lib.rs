//! Offline stand-in for EDBM (github.com/Ecdar/EDBM, not available here): difference bound matrices and
//! federations (finite unions of them) with the public API the checked code uses.
//!
//! Clock 0 is the reference clock; all clocks are non-negative reals. Every operation is exact.
pub mod util { pub mod bounds; pub mod constraints; }
pub mod zones;

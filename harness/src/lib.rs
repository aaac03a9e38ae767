pub mod driver;
pub mod model;
pub mod points;
pub mod region;
pub mod report;
pub mod sem;
pub mod cat;
pub mod wire;
pub mod sched;
pub mod project;
pub mod walk;

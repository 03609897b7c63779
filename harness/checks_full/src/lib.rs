pub mod env;
pub mod sqlmodel;
pub mod faults;
pub mod http;

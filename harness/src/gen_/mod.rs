pub mod ast; pub mod types;
pub mod guided;
pub mod conc;
pub mod mutate;

pub mod mem; pub mod ty; pub mod machine;
pub mod wf;

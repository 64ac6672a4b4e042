pub mod ast;
pub mod gen;
pub mod interp;
pub mod print;

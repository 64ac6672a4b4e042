pub mod lang;
pub mod run;
pub mod src;
pub use run::{fail, guard, panic_sig, Check, Failure, Info, Res};
pub use src::Src;

pub mod e2e;
pub mod families;
pub mod r#gen;
pub mod host;
pub mod interp;
pub mod ir;
pub mod sym;
pub mod term;
pub mod vc;
pub mod txn;

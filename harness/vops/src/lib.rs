pub mod elems;
pub mod interp;
pub mod multi;
pub mod run;

//! Harnesses: each `h_*` function states one property over arbitrary (symbolic) inputs in terms of
//! the public API of `chf`.  Sizes and shapes come in as concrete arguments.

mod consts;
mod hash;
mod spec;
mod value;
mod vp;

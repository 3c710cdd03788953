#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/rest_all.rs ONLY=decl
fn main() {}

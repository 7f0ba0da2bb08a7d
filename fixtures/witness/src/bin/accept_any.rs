#![allow(warnings)]
use pen_ffi_witness::*;
use std::{cell::Cell, rc::Rc};
#[ffi::any]
#[derive(Clone)]
struct Foo(std::sync::Arc<u64>);
fn main() { let x: ffi::Any = Foo(Default::default()).into(); }

#![allow(warnings)]
use pen_ffi_witness::*;
use std::{cell::Cell, rc::Rc};
#[ffi::any]
#[derive(Clone)]
struct Foo(Rc<u64>);
fn main() {}

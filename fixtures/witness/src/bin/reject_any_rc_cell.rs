#![allow(warnings)]
use pen_ffi_witness::*;
use std::{cell::Cell, rc::Rc};
#[ffi::any]
#[derive(Clone)]
struct Foo(Box<Cell<u64>>);
fn main() {}

#![allow(warnings)]
use pen_ffi_witness::*;
use std::{cell::Cell, rc::Rc};
#[ffi::any]
struct Foo(Box<u64>);
fn main() {}

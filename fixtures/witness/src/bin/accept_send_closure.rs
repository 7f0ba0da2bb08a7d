#![allow(warnings)]
use pen_ffi_witness::*;
use std::{cell::Cell, rc::Rc};
fn main() { send(give::<ffi::Closure>()) }

#![allow(warnings)]
use pen_ffi_witness::*;
use std::{cell::Cell, rc::Rc};
extern "C" fn c(_: &mut ffi::cps::AsyncStack, _: ()) {}
fn s(_: &mut ffi::cps::AsyncStack, _: ffi::cps::ContinuationFunction<()>) {}
fn main() {
    let mut stack = ffi::cps::AsyncStack::<()>::new(0);
    let rc = Rc::new(1);
    stack.suspend(s, c, Box::pin(async move { drop(rc) }));
    send(stack);
}

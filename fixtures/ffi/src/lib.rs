//! Uses every macro of the FFI library, so that what they expand to can be analysed.
#![allow(warnings)]

extern "Rust" {
    fn marker_unit(x: ffi::Number, y: ffi::ByteString);
    fn marker_value(x: ffi::Number, y: ffi::ByteString) -> ffi::Number;
    fn marker_result(x: ffi::Number, y: ffi::ByteString) -> Result<ffi::Number, ffi::Error>;
    fn marker_three(x: ffi::Number, y: ffi::Number, z: ffi::Number) -> ffi::Number;
    fn marker_three_unit(x: ffi::Number, y: ffi::Number, z: ffi::Number);
    fn marker_change(x: &mut ffi::Number);
}

#[ffi::any]
#[derive(Clone)]
pub struct Foo {
    value: std::sync::Arc<f64>,
}

#[ffi::any]
#[derive(Clone)]
pub struct Bar {
    value: std::sync::Arc<bool>,
}

#[ffi::bindgen]
fn sync_unit(x: ffi::Number, y: ffi::ByteString) {
    unsafe { marker_unit(x, y) }
}

#[ffi::bindgen]
fn sync_value(x: ffi::Number, y: ffi::ByteString) -> ffi::Number {
    unsafe { marker_value(x, y) }
}

#[ffi::bindgen]
fn sync_result(x: ffi::Number, y: ffi::ByteString) -> Result<ffi::Number, ffi::Error> {
    unsafe { marker_result(x, y) }
}

#[ffi::bindgen]
async fn async_unit(x: ffi::Number, y: ffi::ByteString) {
    unsafe { marker_unit(x, y) }
}

#[ffi::bindgen]
async fn async_value(x: ffi::Number, y: ffi::ByteString) -> ffi::Number {
    unsafe { marker_value(x, y) }
}

#[ffi::bindgen]
async fn async_result(x: ffi::Number, y: ffi::ByteString) -> Result<ffi::Number, ffi::Error> {
    unsafe { marker_result(x, y) }
}

#[ffi::bindgen]
fn sync_three(x: ffi::Number, mut y: ffi::Number, z: ffi::Number) -> ffi::Number {
    unsafe { marker_change(&mut y) }
    unsafe { marker_three(x, y, z) }
}

#[ffi::bindgen]
fn sync_three_unit(x: ffi::Number, mut y: ffi::Number, z: ffi::Number) {
    unsafe { marker_change(&mut y) }
    unsafe { marker_three_unit(x, y, z) }
}

#[ffi::bindgen]
async fn async_three(x: ffi::Number, mut y: ffi::Number, z: ffi::Number) -> ffi::Number {
    unsafe { marker_change(&mut y) }
    unsafe { marker_three(x, y, z) }
}

#[ffi::bindgen]
async fn async_three_unit(x: ffi::Number, mut y: ffi::Number, z: ffi::Number) {
    unsafe { marker_change(&mut y) }
    unsafe { marker_three_unit(x, y, z) }
}

#[ffi::bindgen]
fn sync_none() -> ffi::Number {
    unsafe { marker_three(1.0.into(), 2.0.into(), 3.0.into()) }
}

ffi::import!(imported_value, fn(x: ffi::Number, y: ffi::ByteString) -> ffi::Number);
ffi::import!(imported_future, async fn(x: ffi::Number, y: ffi::ByteString) -> ffi::Number);

ffi::import!(imported_three, async fn(x: ffi::Number, y: ffi::Number, z: ffi::Number) -> ffi::Number);
ffi::import!(imported_values, fn(x: ffi::Number, y: ffi::Number, z: ffi::Number) -> ffi::Number);

pub async fn use_import_three(x: ffi::Number, y: ffi::Number, z: ffi::Number) -> ffi::Number {
    imported_three(x, y, z).await
}

pub async fn use_call_three(closure: ffi::Closure<ffi::Number>, x: ffi::Number, y: ffi::Number, z: ffi::Number) -> ffi::Number {
    ffi::call!(fn(ffi::Number, ffi::Number, ffi::Number) -> ffi::Number, closure, x, y, z).await
}

pub async fn use_import(x: ffi::Number, y: ffi::ByteString) -> ffi::Number {
    imported_future(x, y).await
}

pub async fn use_call(closure: ffi::Closure<ffi::Number>, x: ffi::Number, y: ffi::ByteString) -> ffi::Number {
    ffi::call!(fn(ffi::Number, ffi::ByteString) -> ffi::Number, closure, x, y).await
}

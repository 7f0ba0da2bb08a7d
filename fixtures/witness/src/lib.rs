//! What the witnesses demand of a type.
pub fn send<T: Send>(_: T) {}
pub fn sync<T: Sync>(_: &T) {}
pub fn give<T>() -> T {
    loop {}
}

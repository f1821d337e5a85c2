// @attach server/src/engine/storage/mod.rs
// @feature p12
// @native
//! access to the test file system
use super::common::interface::fs::{File, FileSystem, FileWrite};
pub fn put(path: &str, data: &[u8]) {
    let _ = FileSystem::remove_file(path);
    let mut f = File::create(path).unwrap();
    f.fwrite_all(data).unwrap();
}
pub fn get(path: &str) -> Vec<u8> { FileSystem::read(path).unwrap() }

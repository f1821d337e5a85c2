// @attach server/src/engine/storage/common/interface/fs.rs
// @feature p12
//! P12: real files (the test build otherwise routes every file to a virtual file system) and the contract of `fwrite_all_count`.
use super::*;
use crate::vp::*;

#[cfg(all(test, not(kani)))]
pub fn local_create(path: &str) -> IoResult<File> { let _ = std_fs::remove_file(path); Ok(File { f: AnyFile::Local(std_fs::File::options().create_new(true).read(true).write(true).open(path)?) }) }
#[cfg(all(test, not(kani)))]
pub fn local_open(path: &str) -> IoResult<File> { Ok(File { f: AnyFile::Local(std_fs::File::options().read(true).write(true).open(path)?) }) }

/// a writer that takes any number of the offered bytes, or refuses
pub struct Scripted<const N: usize> { pub got: [u8; N], pub n: usize, pub over: bool, pub calls: usize, pub plan: [u8; 8] }
impl<const N: usize> FileWriteScript for Scripted<N> {
    fn take(&mut self, buf: &[u8]) -> IoResult<u64> {
        let p = if self.calls < 8 { self.plan[self.calls] } else { 255 };
        self.calls += 1;
        if p == 254 { return Err(Error::from(ErrorKind::Other)) }
        let k = if p as usize > buf.len() { buf.len() } else { p as usize };
        let mut i = 0;
        while i < k {
            if self.n < N { self.got[self.n] = buf[i]; self.n += 1 } else { self.over = true }
            i += 1
        }
        Ok(k as u64)
    }
}
trait FileWriteScript { fn take(&mut self, buf: &[u8]) -> IoResult<u64>; }
impl<const N: usize> Write for Scripted<N> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> { self.take(buf).map(|v| v as usize) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// whatever sequence of short writes and errors the file answers with: what reached the file is the prefix of the data of the length
/// reported, and success means all of it
pub fn write_all<const N: usize>(g: &mut Gen) {
    let data: [u8; N] = g.array();
    let len = g.range(0, N);
    let mut plan: [u8; 8] = g.array();
    if Gen::NATIVE { let mut i = 0; while i < 8 { plan[i] = match plan[i] % 8 { 0 => 254, 1 => 0, 2 => 255, v => v }; i += 1 } }
    let mut w = Scripted::<N> { got: [0; N], n: 0, over: false, calls: 0, plan };
    let (cnt, r) = w.fwrite_all_count(&data[..len]);
    g.cover(w.calls > 1 && r.is_ok());
    assert!(!w.over && w.n <= len, "C[write]: more bytes reached the file than were to be written");
    assert!(cnt as usize == w.n, "C[write]: the reported count is not the number of bytes that reached the file");
    let i = g.range(0, N - 1);
    if i < w.n { assert!(w.got[i] == data[i], "C[write]: the bytes in the file are not a prefix of the data") }
    if r.is_ok() { assert!(w.n == len, "C[write]: success reported for a partial write") }
    core::mem::forget(r);
}
#[cfg(all(any(kani, test), feature = "vp_p12"))]
mod k { use super::*;
    #[cfg(kani)]
    mod st { pub fn format(_: core::fmt::Arguments<'_>) -> String { String::new() } }
    vp_kani!(kb_write_all, 6, write_all::<3>, kani::stub(std::fmt::format, st::format));
    vp_kani!(kbt_write_all, 10, write_all::<6>, kani::stub(std::fmt::format, st::format));
}
vp_native!(n_write_all, write_all::<24>, 48, 300);

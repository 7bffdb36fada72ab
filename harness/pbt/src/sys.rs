//! The few system calls the engine needs, without a libc dependency.
use std::ffi::c_void;
extern "C" {
    fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn mprotect(addr: *mut c_void, len: usize, prot: i32) -> i32;
    fn setrlimit(res: i32, rl: *const [u64; 2]) -> i32;
    fn getrlimit(res: i32, rl: *mut [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    pub fn _exit(code: i32) -> !;
}
pub const RLIMIT_FSIZE: i32 = 1;
pub const RLIMIT_CORE: i32 = 4;
pub const RLIMIT_AS: i32 = 9;
pub const RLIMIT_NOFILE: i32 = 7;
/// Sets the soft limit only.
pub fn limit(res: i32, v: u64) {
    unsafe {
        let mut cur = [0u64; 2];
        getrlimit(res, &mut cur);
        cur[0] = v.min(cur[1]);
        setrlimit(res, &cur);
    }
}
pub fn ignore_signal(sig: i32) { unsafe { signal(sig, 1); } }
/// Maps a file shared, for the parent to read after this process died.
pub fn map_shared(f: &std::fs::File, len: usize) -> *mut u64 {
    use std::os::unix::io::AsRawFd;
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap of the choice file failed");
    p as *mut u64
}
/// A region with unmapped pages on both sides; inputs are placed flush against either end.
pub struct Guard { base: *mut u8, size: usize }
impl Guard {
    pub fn new(size: usize) -> Guard {
        let page = 4096;
        let size = (size + page - 1) / page * page;
        unsafe {
            let p = mmap(std::ptr::null_mut(), size + 2 * page, 3, 0x22, -1, 0) as *mut u8;
            assert!(p as isize != -1, "mmap of the guard region failed");
            assert!(mprotect(p as *mut c_void, page, 0) == 0);
            assert!(mprotect(p.add(page + size) as *mut c_void, page, 0) == 0);
            Guard { base: p.add(page), size }
        }
    }
    /// The data, ending exactly at the unmapped page (or `gap` bytes before it).
    /// The lifetime is a lie: the caller keeps the results only until the next use.
    pub fn end(&self, data: &[u8], gap: usize) -> &'static [u8] {
        assert!(data.len() + gap <= self.size);
        unsafe {
            let p = self.base.add(self.size - data.len() - gap);
            std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
            std::slice::from_raw_parts(p, data.len())
        }
    }
    pub fn start(&self, data: &[u8], off: usize) -> &'static [u8] {
        assert!(data.len() + off <= self.size);
        unsafe {
            let p = self.base.add(off);
            std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
            std::slice::from_raw_parts(p, data.len())
        }
    }
    pub fn end_mut(&self, len: usize, fill: u8) -> &'static mut [u8] {
        assert!(len <= self.size);
        unsafe {
            let p = self.base.add(self.size - len);
            std::ptr::write_bytes(p, fill, len);
            std::slice::from_raw_parts_mut(p, len)
        }
    }
    pub fn capacity(&self) -> usize { self.size }
}
/// A great many zero bytes, which occupy memory only where they are written.
pub fn sparse(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x4022, -1, 0) } as *mut u8;
    assert!(p as isize != -1, "mmap of the sparse region failed");
    p
}
thread_local! { static G: [Guard; 2] = [Guard::new(1 << 20), Guard::new(1 << 20)]; }
/// Per-thread guard regions (0 for inputs, 1 for outputs).
pub fn with_guard<R>(which: usize, f: impl FnOnce(&Guard) -> R) -> R { G.with(|g| f(&g[which])) }

//! A simulated disk for paths under /simdisk/: contents in memory, read faults on demand.
use crate::*;
use libc::{c_char, c_int, c_void, size_t, ssize_t};

#[derive(Default, Clone)]
struct File {
    data: Vec<u8>,
    fail_after: Option<u64>,
    short: u64,
    eintr: bool,
    /// After so many opens and reads somebody writes something else into the file.
    swap: Option<(u64, Vec<u8>)>,
}
impl File {
    fn touched(&mut self) {
        if let Some((n, data)) = self.swap.take() {
            if n == 0 {
                self.data = data;
            } else {
                self.swap = Some((n - 1, data));
            }
        }
    }
}
struct Open {
    path: String,
    pos: usize,
    interrupted: bool,
}
static mut FILES: BTreeMap<String, File> = BTreeMap::new();
static mut OPEN: BTreeMap<c_int, Open> = BTreeMap::new();

#[allow(static_mut_refs)]
fn files() -> &'static mut BTreeMap<String, File> {
    unsafe { &mut FILES }
}
#[allow(static_mut_refs)]
fn opened() -> &'static mut BTreeMap<c_int, Open> {
    unsafe { &mut OPEN }
}
pub fn put(path: &str, data: Vec<u8>) {
    let f = files().entry(path.into()).or_default();
    f.data = data;
}
/// The file is overwritten after `n` more opens and reads of it.
pub fn swap(path: &str, n: u64, data: Vec<u8>) {
    files().get_mut(path).unwrap().swap = Some((n, data));
}
pub fn remove(path: &str) {
    files().remove(path);
}
/// Reads fail with EIO from this offset on.
pub fn fail_after(path: &str, off: u64) {
    files().get_mut(path).unwrap().fail_after = Some(off);
}
/// At most `n` bytes per read.
pub fn short(path: &str, n: u64) {
    files().get_mut(path).unwrap().short = n;
}
/// Every other read is interrupted.
pub fn eintr(path: &str) {
    files().get_mut(path).unwrap().eintr = true;
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let p = std::ffi::CStr::from_ptr(path).to_string_lossy();
    if active() && p.starts_with("/simdisk/") {
        let Some(f) = files().get_mut(p.as_ref()) else {
            *libc::__errno_location() = libc::ENOENT;
            return -1;
        };
        f.touched();
        let fd = os::raw(libc::SYS_memfd_create, c"sim".as_ptr() as usize, 1, 0, 0, 0, 0) as c_int;
        os::raw(libc::SYS_ftruncate, fd as usize, f.data.len(), 0, 0, 0, 0);
        opened().insert(fd, Open { path: p.into_owned(), pos: 0, interrupted: false });
        return fd;
    }
    let r = os::raw(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    opened().remove(&(r as c_int));
    r as c_int
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if active() {
        if let Some(o) = opened().get_mut(&fd) {
            let f = files().get_mut(&o.path).unwrap();
            f.touched();
            if f.eintr && !o.interrupted {
                o.interrupted = true;
                *libc::__errno_location() = libc::EINTR;
                return -1;
            }
            o.interrupted = false;
            let mut k = n.min(f.data.len().saturating_sub(o.pos));
            if f.short > 0 {
                k = k.min(f.short as usize);
            }
            if let Some(e) = f.fail_after {
                let left = (e as usize).saturating_sub(o.pos);
                if left == 0 {
                    *libc::__errno_location() = libc::EIO;
                    return -1;
                }
                k = k.min(left);
            }
            std::ptr::copy_nonoverlapping(f.data.as_ptr().add(o.pos), buf as *mut u8, k);
            o.pos += k;
            sched::point();
            return k as ssize_t;
        }
    }
    let r = os::raw(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    r
}

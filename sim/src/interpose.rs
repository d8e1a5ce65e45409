//! libc symbols the real std calls, redirected to the simulated OS while a run
//! is active in this process, and to the real kernel otherwise.

use crate::os::{is_sim_fd, Os, StatOut};
use crate::raw::{ret, sys6};
use crate::sched;
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::cell::UnsafeCell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, Ordering};

struct OsCell(UnsafeCell<Option<Os>>);
unsafe impl Sync for OsCell {}
static OS: OsCell = OsCell(UnsafeCell::new(None));
static ACTIVE: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);

pub fn install(os: Os) {
    unsafe { *OS.0.get() = Some(os) };
    ACTIVE.store(true, Ordering::SeqCst);
}
/// Harness-side access to the simulated OS.
pub fn with<T>(f: impl FnOnce(&mut Os) -> T) -> T {
    sched::quiet(|| {
        while LOCK
            .compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed)
            .is_err()
        {
            std::hint::spin_loop();
        }
        let r = f(unsafe { (*OS.0.get()).as_mut().unwrap() });
        LOCK.store(false, Ordering::Release);
        r
    })
}
#[inline]
fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed)
}
fn seterr(e: i32) {
    unsafe { *libc::__errno_location() = e };
}
unsafe fn cstr(p: *const c_char) -> String {
    String::from_utf8_lossy(CStr::from_ptr(p).to_bytes()).into_owned()
}
fn conv(r: Result<(), i32>) -> c_int {
    match r {
        Ok(()) => 0,
        Err(e) => {
            seterr(e);
            -1
        }
    }
}
fn enter() {
    sched::yield_point();
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if active() {
        enter();
        let p = cstr(path);
        return match with(|o| o.open(&p, flags)) {
            Ok(fd) => fd,
            Err(e) => {
                seterr(e);
                -1
            }
        };
    }
    ret(sys6(
        libc::SYS_openat,
        i64::from(libc::AT_FDCWD),
        path as i64,
        i64::from(flags),
        i64::from(mode),
        0,
        0,
    )) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(
    dir: c_int,
    path: *const c_char,
    flags: c_int,
    mode: mode_t,
) -> c_int {
    if active() && (dir == libc::AT_FDCWD || *path == b'/' as c_char) {
        return open64(path, flags, mode);
    }
    ret(sys6(
        libc::SYS_openat,
        i64::from(dir),
        path as i64,
        i64::from(flags),
        i64::from(mode),
        0,
        0,
    )) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if is_sim_fd(fd) {
        enter();
        let b = std::slice::from_raw_parts_mut(buf.cast::<u8>(), n);
        return match with(|o| o.read(fd, b, None)) {
            Ok(n) => n as ssize_t,
            Err(e) => {
                seterr(e);
                -1
            }
        };
    }
    ret(sys6(
        libc::SYS_read,
        i64::from(fd),
        buf as i64,
        n as i64,
        0,
        0,
        0,
    )) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(
    fd: c_int,
    buf: *mut c_void,
    n: size_t,
    off: off64_t,
) -> ssize_t {
    if is_sim_fd(fd) {
        enter();
        let b = std::slice::from_raw_parts_mut(buf.cast::<u8>(), n);
        return match with(|o| o.read(fd, b, Some(off as usize))) {
            Ok(n) => n as ssize_t,
            Err(e) => {
                seterr(e);
                -1
            }
        };
    }
    ret(sys6(
        libc::SYS_pread64,
        i64::from(fd),
        buf as i64,
        n as i64,
        off,
        0,
        0,
    )) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if is_sim_fd(fd) {
        if n == 0 {
            return 0;
        }
        return read(fd, (*iov).iov_base, (*iov).iov_len);
    }
    ret(sys6(
        libc::SYS_readv,
        i64::from(fd),
        iov as i64,
        i64::from(n),
        0,
        0,
        0,
    )) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if fd == 1 && active() && sched::is_task() {
        with(|o| o.changed.push(("output".into(), sched::root())));
    }
    if is_sim_fd(fd) {
        enter();
        let b = std::slice::from_raw_parts(buf.cast::<u8>(), n);
        return match with(|o| o.write(fd, b)) {
            Ok(n) => n as ssize_t,
            Err(e) => {
                seterr(e);
                -1
            }
        };
    }
    ret(sys6(
        libc::SYS_write,
        i64::from(fd),
        buf as i64,
        n as i64,
        0,
        0,
        0,
    )) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if is_sim_fd(fd) {
        if n == 0 {
            return 0;
        }
        return write(fd, (*iov).iov_base, (*iov).iov_len);
    }
    ret(sys6(
        libc::SYS_writev,
        i64::from(fd),
        iov as i64,
        i64::from(n),
        0,
        0,
        0,
    )) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if is_sim_fd(fd) {
        return conv(with(|o| o.close(fd)));
    }
    ret(sys6(libc::SYS_close, i64::from(fd), 0, 0, 0, 0, 0)) as c_int
}
unsafe fn fcntl_impl(fd: c_int, cmd: c_int, arg: libc::c_long) -> c_int {
    if is_sim_fd(fd) {
        return if with(|o| o.has_fd(fd)) {
            0
        } else {
            seterr(libc::EBADF);
            -1
        };
    }
    ret(sys6(libc::SYS_fcntl, i64::from(fd), i64::from(cmd), arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: libc::c_long) -> c_int {
    fcntl_impl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: libc::c_long) -> c_int {
    fcntl_impl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if is_sim_fd(fd) {
        return match with(|o| o.lseek(fd, off, whence)) {
            Ok(p) => p,
            Err(e) => {
                seterr(e);
                -1
            }
        };
    }
    ret(sys6(
        libc::SYS_lseek,
        i64::from(fd),
        off,
        i64::from(whence),
        0,
        0,
        0,
    ))
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if is_sim_fd(fd) {
        enter();
        return conv(with(|o| o.fsync(fd)));
    }
    ret(sys6(libc::SYS_fsync, i64::from(fd), 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if is_sim_fd(fd) {
        enter();
        return conv(with(|o| o.ftruncate(fd, len as usize)));
    }
    ret(sys6(libc::SYS_ftruncate, i64::from(fd), len, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        enter();
        let (a, b) = (cstr(a), cstr(b));
        return conv(with(|o| o.rename(&a, &b)));
    }
    ret(sys6(libc::SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if active() {
        enter();
        let a = cstr(a);
        return conv(with(|o| o.unlink(&a)));
    }
    ret(sys6(libc::SYS_unlink, a as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: mode_t) -> c_int {
    if active() {
        enter();
        let a = cstr(a);
        return conv(with(|o| o.mkdir(&a)));
    }
    ret(sys6(libc::SYS_mkdir, a as i64, i64::from(mode), 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn chdir(a: *const c_char) -> c_int {
    if active() {
        enter();
        let a = cstr(a);
        return conv(with(|o| o.chdir(&a)));
    }
    ret(sys6(libc::SYS_chdir, a as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    if active() {
        enter();
        let a = cstr(a);
        return conv(with(|o| o.rmdir(&a)));
    }
    ret(sys6(libc::SYS_rmdir, a as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, a: *const c_char, flags: c_int) -> c_int {
    if active() {
        enter();
        let mut p = cstr(a);
        if let (false, Some(d)) = (p.starts_with('/'), with(|o| o.dir_of(dir))) {
            p = format!("{d}/{p}");
        }
        return conv(with(|o| if flags & libc::AT_REMOVEDIR != 0 { o.rmdir(&p) } else { o.unlink(&p) }));
    }
    ret(sys6(libc::SYS_unlinkat, i64::from(dir), a as i64, i64::from(flags), 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if active() {
        enter();
        let (a, b) = (cstr(a), cstr(b));
        return conv(with(|o| o.link(&a, &b, true)));
    }
    ret(sys6(libc::SYS_symlink, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, flags: c_int) -> c_int {
    if active() {
        enter();
        let (a, b) = (cstr(a), cstr(b));
        return conv(with(|o| o.link(&a, &b, false)));
    }
    ret(sys6(libc::SYS_linkat, i64::from(d), a as i64, i64::from(e), b as i64, i64::from(flags), 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, mode: mode_t) -> c_int {
    if active() {
        enter();
        let a = cstr(a);
        return conv(with(|o| o.touch("chmod", &a)));
    }
    ret(sys6(libc::SYS_chmod, a as i64, i64::from(mode), 0, 0, 0, 0)) as c_int
}
fn touch_fd(what: &str, fd: c_int) -> c_int {
    enter();
    conv(with(|o| match o.path_of(fd) {
        Some(p) => o.touch(what, &p),
        None => Err(libc::EBADF),
    }))
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if is_sim_fd(fd) {
        return touch_fd("fchmod", fd);
    }
    ret(sys6(libc::SYS_fchmod, i64::from(fd), i64::from(mode), 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    if is_sim_fd(fd) {
        return touch_fd("futimens", fd);
    }
    ret(sys6(libc::SYS_utimensat, i64::from(fd), 0, t as i64, 0, 0, 0)) as c_int
}
/// advice and advisory locks are granted and change nothing
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if is_sim_fd(fd) {
        return 0;
    }
    ret(sys6(libc::SYS_flock, i64::from(fd), i64::from(op), 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, off: off64_t, len: off64_t, advice: c_int) -> c_int {
    if is_sim_fd(fd) {
        return 0;
    }
    -(sys6(libc::SYS_fadvise64, i64::from(fd), off, len, i64::from(advice), 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise(fd: c_int, off: off64_t, len: off64_t, advice: c_int) -> c_int {
    posix_fadvise64(fd, off, len, advice)
}

unsafe fn fill_statx(b: *mut libc::statx, s: StatOut) {
    let mut x: libc::statx = std::mem::zeroed();
    x.stx_mask = libc::STATX_BASIC_STATS;
    x.stx_blksize = 4096;
    x.stx_nlink = 1;
    x.stx_mode = mode_of(s) as u16;
    x.stx_ino = s.ino;
    x.stx_size = s.size;
    *b = x;
}
fn mode_of(s: StatOut) -> u32 {
    if s.is_dir {
        libc::S_IFDIR | 0o755
    } else if s.is_link {
        libc::S_IFLNK | 0o777
    } else {
        libc::S_IFREG | 0o644
    }
}

#[no_mangle]
pub unsafe extern "C" fn statx(
    fd: c_int,
    path: *const c_char,
    flags: c_int,
    mask: c_uint,
    buf: *mut libc::statx,
) -> c_int {
    if active() && !buf.is_null() && !path.is_null() {
        let p = cstr(path);
        let r = if p.is_empty() && is_sim_fd(fd) {
            enter();
            with(|o| o.fstat(fd))
        } else if p.is_empty() {
            Err(libc::EBADF)
        } else if let Some(d) = if fd == libc::AT_FDCWD || p.starts_with('/') { None } else { with(|o| o.dir_of(fd)) } {
            enter();
            with(|o| o.stat(&format!("{d}/{p}"), flags & libc::AT_SYMLINK_NOFOLLOW == 0))
        } else {
            enter();
            with(|o| o.stat(&p, flags & libc::AT_SYMLINK_NOFOLLOW == 0))
        };
        return match r {
            Ok(s) => {
                fill_statx(buf, s);
                0
            }
            Err(e) => {
                seterr(e);
                -1
            }
        };
    }
    ret(sys6(
        libc::SYS_statx,
        i64::from(fd),
        path as i64,
        i64::from(flags),
        i64::from(mask),
        buf as i64,
        0,
    )) as c_int
}
unsafe fn fill_stat(b: *mut libc::stat64, s: StatOut) {
    let mut x: libc::stat64 = std::mem::zeroed();
    x.st_mode = mode_of(s);
    x.st_ino = s.ino;
    x.st_nlink = 1;
    x.st_size = s.size as i64;
    *b = x;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut libc::stat64) -> c_int {
    if is_sim_fd(fd) {
        enter();
        return conv(with(|o| o.fstat(fd)).map(|s| fill_stat(buf, s)));
    }
    ret(sys6(libc::SYS_fstat, i64::from(fd), buf as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, buf: *mut libc::stat64) -> c_int {
    if active() {
        enter();
        let p = cstr(p);
        return conv(with(|o| o.stat(&p, true)).map(|s| fill_stat(buf, s)));
    }
    ret(sys6(libc::SYS_stat, p as i64, buf as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, buf: *mut libc::stat64) -> c_int {
    if active() {
        enter();
        let p = cstr(p);
        return conv(with(|o| o.stat(&p, false)).map(|s| fill_stat(buf, s)));
    }
    ret(sys6(libc::SYS_lstat, p as i64, buf as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if active() {
        enter();
        let p = cstr(p);
        return conv(with(|o| o.stat(&p, true)).map(|_| ()));
    }
    ret(sys6(
        libc::SYS_access,
        p as i64,
        i64::from(mode),
        0,
        0,
        0,
        0,
    )) as c_int
}

/// a directory of the simulated OS being listed
#[repr(C)]
struct SimDir {
    magic: u64,
    path: String,
    left: Vec<(String, bool, bool)>,
    entry: libc::dirent64,
}
const SIM_DIR: u64 = 0x5349_4d44_4952_4543;
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut SimDir {
    if active() {
        enter();
        let path = cstr(p);
        return match with(|o| o.list(&path)) {
            Ok(left) => sched::quiet(|| {
                with(|o| o.open_dirs += 1);
                Box::into_raw(Box::new(SimDir { magic: SIM_DIR, path, left, entry: std::mem::zeroed() }))
            }),
            Err(e) => {
                seterr(e);
                std::ptr::null_mut()
            }
        };
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut SimDir = std::mem::transmute(real(c"opendir"));
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut SimDir) -> *mut libc::dirent64 {
    if (*d).magic != SIM_DIR {
        let f: unsafe extern "C" fn(*mut SimDir) -> *mut libc::dirent64 = std::mem::transmute(real(c"readdir64"));
        return f(d);
    }
    enter();
    let d = &mut *d;
    let Some((name, dir, link)) = d.left.pop() else {
        return std::ptr::null_mut();
    };
    d.entry.d_ino = 1;
    d.entry.d_type = if dir {
        libc::DT_DIR
    } else if link {
        libc::DT_LNK
    } else {
        libc::DT_REG
    };
    let n = name.len().min(255);
    for (x, b) in d.entry.d_name.iter_mut().zip(name.as_bytes()[..n].iter().chain(&[0])) {
        *x = *b as c_char;
    }
    d.entry.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    &mut d.entry
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut SimDir) -> c_int {
    if (*d).magic != SIM_DIR {
        let f: unsafe extern "C" fn(*mut SimDir) -> c_int = std::mem::transmute(real(c"closedir"));
        return f(d);
    }
    sched::quiet(|| {
        (*d).magic = 0;
        with(|o| o.open_dirs = o.open_dirs.saturating_sub(1));
        drop(Box::from_raw(d));
    });
    0
}
/// a descriptor of the directory: its metadata is asked for by name from there
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut SimDir) -> c_int {
    if (*d).magic != SIM_DIR {
        let f: unsafe extern "C" fn(*mut SimDir) -> c_int = std::mem::transmute(real(c"dirfd"));
        return f(d);
    }
    let path = (*d).path.clone();
    with(|o| o.dir_fd(&path))
}

unsafe fn dup_out(s: &str) -> *mut c_char {
    let p = libc::malloc(s.len() + 1).cast::<u8>();
    std::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
    *p.add(s.len()) = 0;
    p.cast()
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if active() {
        enter();
        let p = cstr(p);
        return match with(|o| o.realpath(&p)) {
            Ok(s) => {
                if out.is_null() {
                    dup_out(&s)
                } else {
                    std::ptr::copy_nonoverlapping(s.as_ptr(), out.cast(), s.len());
                    *out.add(s.len()) = 0;
                    out
                }
            }
            Err(e) => {
                seterr(e);
                std::ptr::null_mut()
            }
        };
    }
    let f = libc::dlsym(libc::RTLD_NEXT, c"realpath".as_ptr());
    let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char =
        std::mem::transmute(f);
    f(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if active() {
        enter();
        let p = cstr(p);
        return match with(|o| o.readlink(&p)) {
            Ok(s) => {
                let k = s.len().min(n);
                std::ptr::copy_nonoverlapping(s.as_ptr(), buf.cast(), k);
                k as ssize_t
            }
            Err(e) => {
                seterr(e);
                -1
            }
        };
    }
    ret(sys6(
        libc::SYS_readlink,
        p as i64,
        buf as i64,
        n as i64,
        0,
        0,
        0,
    )) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if active() {
        enter();
        return match with(|o| o.getcwd()) {
            Ok(s) => {
                if buf.is_null() {
                    dup_out(&s)
                } else if s.len() + 1 > n {
                    seterr(libc::ERANGE);
                    std::ptr::null_mut()
                } else {
                    std::ptr::copy_nonoverlapping(s.as_ptr(), buf.cast(), s.len());
                    *buf.add(s.len()) = 0;
                    buf
                }
            }
            Err(e) => {
                seterr(e);
                std::ptr::null_mut()
            }
        };
    }
    let f = libc::dlsym(libc::RTLD_NEXT, c"getcwd".as_ptr());
    let f: unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char = std::mem::transmute(f);
    f(buf, n)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if active() {
        let b = std::slice::from_raw_parts_mut(buf.cast::<u8>(), n);
        with(|o| o.fill_random(b));
        return n as ssize_t;
    }
    ret(sys6(
        libc::SYS_getrandom,
        buf as i64,
        n as i64,
        i64::from(flags),
        0,
        0,
        0,
    )) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if active() {
        let now = with(|o| o.now_ns);
        // an arbitrary simulated epoch
        let now = now + 1_700_000_000_000_000_000;
        (*ts).tv_sec = (now / 1_000_000_000) as i64;
        (*ts).tv_nsec = (now % 1_000_000_000) as i64;
        return 0;
    }
    ret(sys6(
        libc::SYS_clock_gettime,
        i64::from(id),
        ts as i64,
        0,
        0,
        0,
        0,
    )) as c_int
}
unsafe fn sim_sleep(ts: *const libc::timespec) {
    let d = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
    with(|o| o.now_ns += d);
    sched::force_yield();
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if active() {
        sim_sleep(a);
        return 0;
    }
    ret(sys6(libc::SYS_nanosleep, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: libc::clockid_t,
    flags: c_int,
    a: *const libc::timespec,
    b: *mut libc::timespec,
) -> c_int {
    if active() {
        if flags == 0 {
            sim_sleep(a);
        } else {
            with(|o| {
                let t = ((*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64)
                    .saturating_sub(1_700_000_000_000_000_000);
                o.now_ns = o.now_ns.max(t);
            });
            sched::force_yield();
        }
        return 0;
    }
    let r = sys6(
        libc::SYS_clock_nanosleep,
        i64::from(id),
        i64::from(flags),
        a as i64,
        b as i64,
        0,
        0,
    );
    -r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() && sched::is_task() {
        sched::force_yield();
        return 0;
    }
    ret(sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

/// std's futexes come through here.
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if n == libc::SYS_futex && active() && sched::is_task() {
        let op = (b as c_int) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        match op {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                let to = if d == 0 {
                    None
                } else {
                    let ts = d as *const libc::timespec;
                    let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
                    if op == libc::FUTEX_WAIT_BITSET {
                        let now = with(|o| o.now_ns);
                        Some(t.saturating_sub(1_700_000_000_000_000_000).saturating_sub(now))
                    } else {
                        Some(t)
                    }
                };
                return ret(sched::futex_wait(a as usize, c as u32, to));
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                sched::yield_point();
                return sched::futex_wake(a as usize, c as u64);
            }
            _ => {}
        }
    }
    if n == libc::SYS_getrandom && active() {
        return getrandom(a as *mut c_void, b as usize, c as c_uint) as c_long;
    }
    if n == libc::SYS_statx && active() {
        return c_long::from(statx(
            a as c_int,
            b as *const c_char,
            c as c_int,
            d as c_uint,
            e as *mut libc::statx,
        ));
    }
    ret(sys6(n, a, b, c, d, e, f))
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Adopted {
    task: usize,
    start: Start,
    arg: *mut c_void,
}
extern "C" fn adopted_thread(a: *mut c_void) -> *mut c_void {
    let a = sched::quiet(|| unsafe { *Box::from_raw(a.cast::<Adopted>()) });
    sched::live(a.task, || (a.start)(a.arg))
}
fn real(name: &std::ffi::CStr) -> *mut c_void {
    sched::quiet(|| unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) })
}
/// Threads the code under test starts are tasks of the run like any other.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, start: Start, arg: *mut c_void) -> c_int {
    type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int;
    let create: Create = std::mem::transmute(real(c"pthread_create"));
    let Some(task) = (if active() { sched::adopt() } else { None }) else {
        return create(t, attr, start, arg);
    };
    let a = sched::quiet(|| Box::into_raw(Box::new(Adopted { task, start, arg })));
    let r = sched::quiet(|| create(t, attr, adopted_thread, a.cast()));
    sched::adopted(task, (r == 0).then(|| *t));
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    type Join = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
    let join: Join = std::mem::transmute(real(c"pthread_join"));
    if active() {
        sched::join(t);
    }
    join(t, out)
}

/// Allocator: real malloc, plus a scheduling point before each allocation.
pub struct SimAlloc;
unsafe impl std::alloc::GlobalAlloc for SimAlloc {
    #[inline]
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        sched::yield_point();
        std::alloc::System.alloc(l)
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

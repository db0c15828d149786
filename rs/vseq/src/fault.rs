//! File system faults: the libc entry points the Rust standard library uses are
//! replaced in this program. While armed, every call on a file is a choice
//! point; `explore` enumerates all scripts of choices with a bounded number of
//! departures from "everything works".
use std::cell::{Cell, RefCell};

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static SCRIPT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static TRACE: RefCell<Vec<(u8, u8, &'static str)>> = const { RefCell::new(Vec::new()) };
    static MINE: RefCell<Vec<i32>> = const { RefCell::new(Vec::new()) };
}

fn armed() -> bool {
    ARMED.try_with(|a| a.get()).unwrap_or(false)
}

fn choose(n: u8, what: &'static str) -> u8 {
    ARMED.with(|a| a.set(false));
    let c = TRACE.with(|t| {
        let mut t = t.borrow_mut();
        let i = t.len();
        let c = SCRIPT.with(|s| s.borrow().get(i).copied().unwrap_or(0)).min(n - 1);
        t.push((c, n, what));
        c
    });
    ARMED.with(|a| a.set(true));
    c
}

fn err(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}

fn mine(fd: i32) -> bool {
    armed() && MINE.with(|m| m.borrow().contains(&fd))
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
    if mine(fd) && n > 0 {
        let m = match choose(if n > 2 { 8 } else { 5 }, "write") {
            0 => n,
            1 => return err(libc::EINTR),
            2 => return err(libc::ENOSPC),
            3 => return err(libc::EIO),
            4 => return 0,
            5 => 1,
            6 => n / 2,
            _ => n - 1,
        };
        return libc::syscall(libc::SYS_write, fd, buf, m) as isize;
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const libc::c_void, n: usize, off: i64) -> isize {
    if mine(fd) && n > 0 {
        let m = match choose(if n > 2 { 8 } else { 5 }, "pwrite") {
            0 => n,
            1 => return err(libc::EINTR),
            2 => return err(libc::ENOSPC),
            3 => return err(libc::EIO),
            4 => return 0,
            5 => 1,
            6 => n / 2,
            _ => n - 1,
        };
        return libc::syscall(libc::SYS_pwrite64, fd, buf, m, off) as isize;
    }
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, cnt: i32) -> isize {
    if mine(fd) && cnt > 0 {
        match choose(5, "writev") {
            0 => {}
            1 => return err(libc::EINTR),
            2 => return err(libc::ENOSPC),
            3 => return err(libc::EIO),
            _ => {
                // only part of the first buffer
                let v = &*iov;
                let m = (v.iov_len / 2).max(v.iov_len.min(1));
                return libc::syscall(libc::SYS_write, fd, v.iov_base, m) as isize;
            }
        }
    }
    libc::syscall(libc::SYS_writev, fd, iov, cnt) as isize
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, n: usize) -> isize {
    if mine(fd) && n > 0 {
        let m = match choose(if n > 2 { 5 } else { 3 }, "read") {
            0 => n,
            1 => return err(libc::EINTR),
            2 => return err(libc::EIO),
            3 => 1,
            _ => n / 2,
        };
        return libc::syscall(libc::SYS_read, fd, buf, m) as isize;
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}

unsafe fn do_open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    if armed() {
        match choose(5, "open") {
            0 => {}
            1 => return err(libc::EINTR) as i32,
            2 => return err(libc::ENOSPC) as i32,
            3 => return err(libc::EMFILE) as i32,
            _ => return err(libc::EACCES) as i32,
        }
    }
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as i32;
    if armed() && fd >= 0 {
        MINE.with(|m| m.borrow_mut().push(fd));
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    do_open(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
    if armed() {
        match choose(3, "rename") {
            0 => {}
            1 => return err(libc::ENOSPC) as i32,
            _ => return err(libc::EIO) as i32,
        }
    }
    libc::syscall(libc::SYS_rename, a, b) as i32
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    if mine(fd) {
        match choose(3, "ftruncate") {
            0 => {}
            1 => return err(libc::EINTR) as i32,
            _ => return err(libc::EIO) as i32,
        }
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as i32
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if armed() {
        MINE.with(|m| m.borrow_mut().retain(|x| *x != fd));
    }
    libc::syscall(libc::SYS_close, fd) as i32
}

pub type Step = (u8, u8, &'static str);

/// Was some call made to fail for good (not merely cut short or interrupted)?
pub fn failed(t: &[Step]) -> bool {
    t.iter().any(|s| match s.2 {
        "write" | "pwrite" => matches!(s.0, 2 | 3 | 4),
        "writev" => matches!(s.0, 2 | 3),
        "open" => s.0 >= 2,
        "read" => s.0 == 2,
        "rename" => s.0 >= 1,
        "ftruncate" => s.0 == 2,
        _ => false,
    })
}

pub fn show(t: &[Step]) -> String {
    let name = |s: &Step| match (s.2, s.0) {
        (w, 0) => w.to_string(),
        (w, c) => format!("{}!{}", w, c),
    };
    t.iter().map(name).collect::<Vec<_>>().join(" ")
}

/// Run `f` under every script with at most `dev` departures. `f` gets a guard to
/// arm around the calls under test. Returns the number of executions.
pub fn explore(dev: usize, max: u64, mut f: impl FnMut(&dyn Fn(&mut dyn FnMut())) -> (), mut check: impl FnMut(&[Step]) -> Result<(), String>) -> Result<(u64, u64, bool), String> {
    let mut script: Vec<u8> = vec![];
    let (mut n, mut pts) = (0, 0);
    loop {
        SCRIPT.with(|s| *s.borrow_mut() = script.clone());
        TRACE.with(|t| t.borrow_mut().clear());
        MINE.with(|t| t.borrow_mut().clear());
        f(&|g| {
            ARMED.with(|a| a.set(true));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g()));
            ARMED.with(|a| a.set(false));
            if let Err(e) = r {
                std::panic::resume_unwind(e)
            }
        });
        let tr = TRACE.with(|t| t.borrow().clone());
        n += 1;
        pts += tr.len() as u64;
        check(&tr)?;
        // next script: advance the last position that may still change
        let cs: Vec<u8> = tr.iter().map(|s| s.0).collect();
        let mut i = cs.len();
        let next = loop {
            if i == 0 {
                break None;
            }
            i -= 1;
            let before = cs[..i].iter().filter(|c| **c > 0).count();
            if cs[i] + 1 < tr[i].1 && (cs[i] > 0 || before < dev) {
                let mut s = cs[..i].to_vec();
                s.push(cs[i] + 1);
                break Some(s);
            }
        };
        match next {
            None => return Ok((n, pts, true)),
            Some(_) if n >= max => return Ok((n, pts, false)),
            Some(s) => script = s,
        }
    }
}

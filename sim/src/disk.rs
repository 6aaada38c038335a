//! The simulated disk: every path below /simdisk lives in memory, with an explicit split between
//! what a running system sees (page cache) and what a power loss would leave behind.
use crate::raw;
use crate::rng::Rng;
use crate::sched;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_void};

pub const ROOT: &str = "/simdisk";
const FD_BASE: i32 = 1 << 20;

/// Bytes as text, one character each.
mod latin1 {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.iter().map(|b| *b as char).collect::<String>())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        Ok(String::deserialize(d)?.chars().map(|c| c as u32 as u8).collect())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum DataOp {
    Write(usize, #[serde(with = "latin1")] Vec<u8>),
    Trunc(usize),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Inode {
    #[serde(with = "latin1")]
    data: Vec<u8>,
    #[serde(with = "latin1")]
    durable: Vec<u8>,
    /// Data written since the last sync, in order, each with the journal length at that moment.
    pending: Vec<(usize, DataOp)>,
    dir: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum MetaOp {
    Link(String, usize),
    Unlink(String),
    Rename(String, String),
    Trunc(usize, usize),
}

#[derive(Clone, Debug)]
struct OpenFile {
    ino: usize,
    pos: usize,
    append: bool,
    open: bool,
    readable: bool,
    writable: bool,
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Fault {
    /// The call fails with EIO.
    Eio,
    /// The call fails with ENOSPC (writes, opens for writing, mkdir); everything after it too.
    DiskFull,
    /// The call is interrupted (EINTR), to be retried by the caller.
    Eintr,
    /// Only this many bytes are transferred.
    Short(usize),
    /// The process is killed before the call takes effect.
    KillBefore,
    /// The process is killed after the call; a write transfers only this many bytes first.
    KillAfter(usize),
    /// Out of file descriptors.
    Emfile,
    /// The process takes a pause of so many simulated milliseconds inside the call.
    Slow(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PlannedFault {
    /// Index of the simulated I/O call, counted from the moment faults are armed.
    pub at: u64,
    pub fault: Fault,
}

#[derive(Default, Clone, Serialize, Deserialize)]
pub struct Disk {
    inodes: Vec<Inode>,
    names: BTreeMap<String, usize>,
    durable_names: BTreeMap<String, usize>,
    journal: Vec<MetaOp>,
    #[serde(skip)]
    files: Vec<OpenFile>,
    pub faults: Vec<PlannedFault>,
    pub armed: bool,
    pub full: bool,
    pub ops: u64,
    pub total_ops: u64,
    pub fired: BTreeMap<String, u64>,
    pub killed: bool,
    pub log: Vec<String>,
    #[serde(skip)]
    dirs: Vec<Vec<String>>,
}

/// What the simulated program printed, once it is caught.
static mut CAPTURE: Option<Vec<u8>> = None;

pub fn capture() {
    unsafe { CAPTURE = Some(vec![]) }
}
pub fn captured() -> String {
    unsafe { (*(&raw const CAPTURE)).as_ref().map_or(String::new(), |v| String::from_utf8_lossy(v).into_owned()) }
}

/// The process number the simulated program sees.
pub static mut PID: i32 = 0;
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if PID != 0 && sched::active() && sched::me() != 0 {
        return PID;
    }
    raw::libc6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as c_int
}

static mut EXIT: Option<i32> = None;
pub fn exited() -> Option<i32> {
    unsafe { EXIT }
}

/// A simulated program that ends itself.
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if sched::active() && sched::me() != 0 && CAPTURE_ON {
        sched::quiet(|| EXIT = Some(code));
        sched::die_here();
    }
    let f: extern "C" fn(c_int) -> ! = std::mem::transmute(real_fn(b"exit\0"));
    f(code)
}
/// Inside a simulated program?
static mut CAPTURE_ON: bool = false;
pub fn program(on: bool) {
    unsafe { CAPTURE_ON = on }
}

static mut DISK: *mut Disk = std::ptr::null_mut();

pub fn disk() -> &'static mut Disk {
    unsafe {
        if DISK.is_null() {
            DISK = Box::into_raw(Box::new(Disk::new()));
        }
        &mut *DISK
    }
}

/// From here on this is the disk.
pub fn install(d: Disk) {
    unsafe { DISK = Box::into_raw(Box::new(d)) }
}

impl Disk {
    pub fn new() -> Disk {
        let mut d = Disk::default();
        d.inodes.push(Inode { dir: true, ..Default::default() });
        d.names.insert(ROOT.to_string(), 0);
        d.durable_names.insert(ROOT.to_string(), 0);
        d
    }

    pub fn remove(&mut self, path: &str) {
        self.names.remove(path);
        self.durable_names.remove(path);
    }

    /// Every file and what a running system sees in it.
    pub fn all(&self) -> BTreeMap<String, Vec<u8>> {
        self.names.iter().filter(|(_, &i)| !self.inodes[i].dir).map(|(k, &i)| (k.clone(), self.inodes[i].data.clone())).collect()
    }

    /// Puts a file (and its directories) on the disk, durably.
    pub fn put(&mut self, path: &str, content: &[u8]) {
        let mut dir = String::new();
        let parts: Vec<&str> = path.trim_start_matches('/').split('/').collect();
        for p in &parts[..parts.len() - 1] {
            dir.push('/');
            dir.push_str(p);
            if !self.names.contains_key(&dir) {
                self.inodes.push(Inode { dir: true, ..Default::default() });
                self.names.insert(dir.clone(), self.inodes.len() - 1);
                self.durable_names.insert(dir.clone(), self.inodes.len() - 1);
            }
        }
        self.inodes.push(Inode { data: content.to_vec(), durable: content.to_vec(), ..Default::default() });
        self.names.insert(path.to_string(), self.inodes.len() - 1);
        self.durable_names.insert(path.to_string(), self.inodes.len() - 1);
    }

    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        self.names.get(path).map(|&i| self.inodes[i].data.clone())
    }

    pub fn list(&self, prefix: &str) -> Vec<String> {
        self.names.iter().filter(|(k, &i)| k.starts_with(prefix) && !self.inodes[i].dir).map(|(k, _)| k.clone()).collect()
    }

    pub fn arm(&mut self, faults: Vec<PlannedFault>) {
        self.faults = faults;
        self.armed = true;
        self.ops = 0;
        self.full = false;
        self.killed = false;
    }

    pub fn disarm(&mut self) {
        self.armed = false;
        self.full = false;
    }

    /// Everything written so far reaches the platter (an orderly shutdown).
    pub fn sync_all(&mut self) {
        for i in self.inodes.iter_mut() {
            i.durable = i.data.clone();
            i.pending.clear();
        }
        self.durable_names = self.names.clone();
        self.journal.clear();
    }

    /// Process death: the page cache survives, descriptors do not.
    pub fn process_crash(&mut self) {
        self.files.clear();
    }

    /// Power loss: only synced data surely survives; of the rest an arbitrary part does, metadata
    /// in order, data in any order and possibly torn.
    pub fn power_loss(&mut self, seed: u64) {
        let mut rng = Rng::new(seed);
        self.files.clear();
        let j = match rng.below(3) {
            0 => 0,
            1 => self.journal.len(),
            _ => rng.below(self.journal.len() + 1),
        };
        let mut names = self.durable_names.clone();
        for op in &self.journal[..j] {
            match op {
                MetaOp::Link(p, i) => {
                    names.insert(p.clone(), *i);
                }
                MetaOp::Unlink(p) => {
                    names.remove(p);
                }
                MetaOp::Rename(a, b) => {
                    if let Some(i) = names.remove(a) {
                        names.insert(b.clone(), i);
                    }
                }
                MetaOp::Trunc(..) => {}
            }
        }
        let mode = rng.below(3); // none, all, or any part of the unsynced data
        for ino in self.inodes.iter_mut() {
            let mut content = ino.durable.clone();
            for (at, op) in &ino.pending {
                match op {
                    DataOp::Trunc(n) => {
                        if *at <= j {
                            content.resize(*n, 0);
                        }
                    }
                    DataOp::Write(off, b) => {
                        let keep = match mode {
                            0 => 0,
                            1 => b.len(),
                            _ => match rng.below(3) {
                                0 => 0,
                                1 => b.len(),
                                _ => rng.below(b.len() + 1),
                            },
                        };
                        if keep > 0 {
                            if content.len() < off + keep {
                                content.resize(off + keep, 0);
                            }
                            content[*off..off + keep].copy_from_slice(&b[..keep]);
                        }
                    }
                }
            }
            ino.data = content.clone();
            ino.durable = content;
            ino.pending.clear();
        }
        self.names = names.clone();
        self.durable_names = names;
        self.journal.clear();
    }

    fn fire(&mut self, name: &str) {
        *self.fired.entry(name.to_string()).or_insert(0) += 1;
    }

    /// Counts an I/O call and returns the fault planned for it.
    fn op(&mut self, what: &str, path: &str) -> Option<Fault> {
        self.total_ops += 1;
        if self.log.len() < 400 {
            self.log.push(format!("{} {}", what, path));
        }
        if !self.armed {
            return None;
        }
        let k = self.ops;
        self.ops += 1;
        self.faults.iter().find(|f| f.at == k).map(|f| f.fault)
    }

    fn sync(&mut self, ino: usize) {
        let i = &mut self.inodes[ino];
        i.durable = i.data.clone();
        i.pending.clear();
        // the directory entry of the file itself becomes durable with it
        let mine: Vec<usize> = self
            .journal
            .iter()
            .enumerate()
            .filter(|(_, o)| matches!(o, MetaOp::Link(_, k) if *k == ino))
            .map(|(n, _)| n)
            .collect();
        if let Some(last) = mine.last() {
            // journals commit in order
            let upto = last + 1;
            for op in self.journal.drain(..upto).collect::<Vec<_>>() {
                match op {
                    MetaOp::Link(p, i) => {
                        self.durable_names.insert(p, i);
                    }
                    MetaOp::Unlink(p) => {
                        self.durable_names.remove(&p);
                    }
                    MetaOp::Rename(a, b) => {
                        if let Some(i) = self.durable_names.remove(&a) {
                            self.durable_names.insert(b, i);
                        }
                    }
                    MetaOp::Trunc(i, n) => {
                        let t = &mut self.inodes[i];
                        if i != ino {
                            t.durable.resize(n, 0);
                        }
                    }
                }
            }
            for i in self.inodes.iter_mut() {
                for p in i.pending.iter_mut() {
                    p.0 = p.0.saturating_sub(upto);
                }
            }
        }
        if self.inodes[ino].dir {
            // fsync on a directory: all its metadata
            let n = self.names.clone();
            self.durable_names = n;
            self.journal.clear();
        }
    }
}

fn kill_now() -> ! {
    // The calling process dies here: hand over to the controller and never come back.
    disk().killed = true;
    sched::die_here()
}

fn path_of(p: *const c_char) -> Option<String> {
    let s = unsafe { CStr::from_ptr(p) }.to_str().ok()?;
    let s2 = s.trim_end_matches('/');
    if s2 == ROOT || s2.starts_with("/simdisk/") {
        // collapse doubled slashes and "." parts
        let parts: Vec<&str> = s2.split('/').filter(|x| !x.is_empty() && *x != ".").collect();
        let mut out: Vec<&str> = vec![];
        for x in parts {
            if x == ".." {
                out.pop();
            } else {
                out.push(x);
            }
        }
        Some(format!("/{}", out.join("/")))
    } else {
        None
    }
}

fn fail(e: i32) -> i64 {
    raw::set_errno(e);
    -1
}

enum Go {
    On(Option<usize>, bool),
    Ret(i64),
}

/// Common fault handling; Go::On(limit, kill_after).
fn gate(what: &str, path: &str, writes: bool) -> Go {
    let d = disk();
    let f = d.op(what, path);
    if let Some(f) = f {
        match f {
            Fault::Eio => {
                d.fire("eio");
                return Go::Ret(fail(libc::EIO));
            }
            Fault::Emfile if what == "open" => {
                d.fire("emfile");
                return Go::Ret(fail(libc::EMFILE));
            }
            Fault::DiskFull => {
                d.full = true;
            }
            Fault::Eintr if what == "read" || what == "write" || what == "open" => {
                d.fire("eintr");
                return Go::Ret(fail(libc::EINTR));
            }
            Fault::Short(n) if what == "read" || what == "write" => {
                d.fire(if what == "read" { "short_read" } else { "short_write" });
                return Go::On(Some(n.max(1)), false);
            }
            Fault::KillBefore => {
                d.fire("kill_before_call");
                kill_now();
            }
            Fault::KillAfter(n) => {
                d.fire(if what == "write" { "kill_torn_write" } else { "kill_after_call" });
                return Go::On(Some(n), true);
            }
            Fault::Slow(ms) => {
                d.fire("slow_io");
                sched::sleep_ns(ms * 1_000_000);
            }
            _ => {}
        }
    }
    if disk().full && writes {
        disk().fire("disk_full");
        return Go::Ret(fail(libc::ENOSPC));
    }
    Go::On(None, false)
}

fn v_open(path: &str, flags: c_int) -> i64 {
    let acc = flags & libc::O_ACCMODE;
    let writable = acc != libc::O_RDONLY;
    let (_, kill) = match gate("open", path, flags & libc::O_CREAT != 0 && !disk().names.contains_key(path)) {
        Go::Ret(r) => return r,
        Go::On(l, k) => (l, k),
    };
    let d = disk();
    let ino = match d.names.get(path) {
        Some(&i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return fail(libc::EEXIST);
            }
            if d.inodes[i].dir && writable {
                return fail(libc::EISDIR);
            }
            if flags & libc::O_TRUNC != 0 && writable && !d.inodes[i].data.is_empty() {
                d.journal.push(MetaOp::Trunc(i, 0));
                let at = d.journal.len();
                d.inodes[i].data.clear();
                d.inodes[i].pending.push((at, DataOp::Trunc(0)));
            }
            i
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return fail(libc::ENOENT);
            }
            let parent = path.rsplit_once('/').map(|x| x.0).unwrap_or("/");
            if !d.names.contains_key(parent) {
                return fail(libc::ENOENT);
            }
            d.inodes.push(Inode::default());
            let i = d.inodes.len() - 1;
            d.names.insert(path.to_string(), i);
            d.journal.push(MetaOp::Link(path.to_string(), i));
            i
        }
    };
    if kill {
        kill_now();
    }
    let f = OpenFile {
        ino,
        pos: 0,
        append: flags & libc::O_APPEND != 0,
        open: true,
        readable: acc != libc::O_WRONLY,
        writable,
    };
    d.files.push(f);
    (FD_BASE as usize + d.files.len() - 1) as i64
}

fn file(fd: c_int) -> Option<&'static mut OpenFile> {
    if fd < FD_BASE {
        return None;
    }
    disk().files.get_mut((fd - FD_BASE) as usize).filter(|f| f.open)
}

fn v_read(fd: c_int, buf: *mut u8, len: usize) -> i64 {
    let f = match file(fd) {
        Some(f) if f.readable => f,
        _ => return fail(libc::EBADF),
    };
    let (lim, kill) = match gate("read", "", false) {
        Go::Ret(r) => return r,
        Go::On(l, k) => (l, k),
    };
    if kill {
        kill_now();
    }
    let data = &disk().inodes[f.ino].data;
    let n = data.len().saturating_sub(f.pos).min(len).min(lim.unwrap_or(usize::MAX));
    unsafe { std::ptr::copy_nonoverlapping(data.as_ptr().add(f.pos.min(data.len())), buf, n) };
    f.pos += n;
    n as i64
}

fn v_write(fd: c_int, buf: *const u8, len: usize) -> i64 {
    let f = match file(fd) {
        Some(f) if f.writable => f,
        _ => return fail(libc::EBADF),
    };
    let (lim, kill) = match gate("write", "", true) {
        Go::Ret(r) => return r,
        Go::On(l, k) => (l, k),
    };
    let n = len.min(lim.unwrap_or(usize::MAX));
    let b = unsafe { std::slice::from_raw_parts(buf, n) }.to_vec();
    let d = disk();
    let at = d.journal.len();
    let ino = &mut d.inodes[f.ino];
    if f.append {
        f.pos = ino.data.len();
    }
    if n > 0 {
        if ino.data.len() < f.pos + n {
            ino.data.resize(f.pos + n, 0);
        }
        ino.data[f.pos..f.pos + n].copy_from_slice(&b);
        ino.pending.push((at, DataOp::Write(f.pos, b)));
        f.pos += n;
    }
    if kill {
        kill_now();
    }
    n as i64
}

fn fill_stat(path: &str, st: *mut libc::stat64) -> i64 {
    let d = disk();
    match d.names.get(path) {
        None => fail(libc::ENOENT),
        Some(&i) => {
            stat_ino(i, st);
            0
        }
    }
}

fn stat_ino(i: usize, st: *mut libc::stat64) {
    let n = &disk().inodes[i];
    unsafe {
        std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
        (*st).st_mode = if n.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
        (*st).st_size = n.data.len() as i64;
        (*st).st_ino = i as u64 + 1;
        (*st).st_nlink = 1;
    }
}

fn fill_statx(i: usize, p: *mut libc::statx) {
    let n = &disk().inodes[i];
    unsafe {
        std::ptr::write_bytes(p as *mut u8, 0, std::mem::size_of::<libc::statx>());
        (*p).stx_mask = libc::STATX_BASIC_STATS;
        (*p).stx_mode = (if n.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 }) as u16;
        (*p).stx_size = n.data.len() as u64;
        (*p).stx_ino = i as u64 + 1;
        (*p).stx_nlink = 1;
    }
}

/// Runs `f` with preemption off when a simulated thread asks for a virtual object.
fn sim<T>(f: impl FnOnce() -> T) -> T {
    sched::quiet(|| {
        sched::io_point();
        let r = f();
        r
    })
}

macro_rules! on_path {
    ($p:expr, $path:ident, $body:expr, $real:expr) => {
        if sched::active() {
            if let Some($path) = sched::quiet(|| path_of($p)) {
                return sim(|| $body) as _;
            } else {
                return $real as _;
            }
        } else {
            return $real as _;
        }
    };
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    on_path!(p, path, v_open(&path, flags), raw::libc6(libc::SYS_openat, libc::AT_FDCWD as i64, p as i64, flags as i64 | libc::O_LARGEFILE as i64, mode as i64, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open64(p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        return sim(|| match file(fd) {
            Some(f) => match gate("close", "", false) {
                // the descriptor is gone whatever close returns
                Go::Ret(r) => {
                    f.open = false;
                    r
                }
                Go::On(_, k) => {
                    f.open = false;
                    if k {
                        kill_now();
                    }
                    0
                }
            },
            None => fail(libc::EBADF),
        }) as c_int;
    }
    raw::libc6(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    if fd >= FD_BASE {
        return sim(|| v_read(fd, buf as *mut u8, len)) as isize;
    }
    raw::libc6(libc::SYS_read, fd as i64, buf as i64, len as i64, 0, 0, 0) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    if fd >= FD_BASE {
        return sim(|| v_write(fd, buf as *const u8, len)) as isize;
    }
    if fd == 1 {
        if let Some(out) = &mut *(&raw mut CAPTURE) {
            sched::quiet(|| out.extend_from_slice(std::slice::from_raw_parts(buf as *const u8, len)));
            return len as isize;
        }
    }
    raw::libc6(libc::SYS_write, fd as i64, buf as i64, len as i64, 0, 0, 0) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if fd >= FD_BASE {
        return sim(|| {
            let mut all = vec![];
            for i in 0..n as usize {
                let v = &*iov.add(i);
                all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
            v_write(fd, all.as_ptr(), all.len())
        }) as isize;
    }
    raw::libc6(libc::SYS_writev, fd as i64, iov as i64, n as i64, 0, 0, 0) as isize
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if fd >= FD_BASE {
        return sim(|| {
            let v = &*iov;
            v_read(fd, v.iov_base as *mut u8, v.iov_len)
        }) as isize;
    }
    raw::libc6(libc::SYS_readv, fd as i64, iov as i64, n as i64, 0, 0, 0) as isize
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if fd >= FD_BASE {
        return sim(|| match file(fd) {
            Some(f) => {
                let len = disk().inodes[f.ino].data.len() as i64;
                let p = match whence {
                    libc::SEEK_SET => off,
                    libc::SEEK_CUR => f.pos as i64 + off,
                    _ => len + off,
                };
                f.pos = p.max(0) as usize;
                p
            }
            None => fail(libc::EBADF),
        });
    }
    raw::libc6(libc::SYS_lseek, fd as i64, off, whence as i64, 0, 0, 0)
}

#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}

unsafe fn do_fsync(fd: c_int, n: i64) -> c_int {
    if fd >= FD_BASE {
        return sim(|| match file(fd) {
            Some(f) => {
                let kill = match gate("fsync", "", false) {
                    Go::Ret(r) => return r,
                    Go::On(_, k) => k,
                };
                disk().sync(f.ino);
                if kill {
                    kill_now();
                }
                0
            }
            None => fail(libc::EBADF),
        }) as c_int;
    }
    raw::libc6(n, fd as i64, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_fsync(fd, libc::SYS_fsync)
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_fsync(fd, libc::SYS_fdatasync)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if fd >= FD_BASE {
        return sim(|| match file(fd) {
            Some(f) => {
                match gate("ftruncate", "", true) {
                    Go::Ret(r) => return r,
                    Go::On(..) => {}
                }
                let d = disk();
                d.journal.push(MetaOp::Trunc(f.ino, len as usize));
                let at = d.journal.len();
                d.inodes[f.ino].data.resize(len as usize, 0);
                d.inodes[f.ino].pending.push((at, DataOp::Trunc(len as usize)));
                0
            }
            None => fail(libc::EBADF),
        }) as c_int;
    }
    raw::libc6(libc::SYS_ftruncate, fd as i64, len, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if fd >= FD_BASE {
        return sim(|| match file(fd) {
            Some(f) => {
                stat_ino(f.ino, st);
                0
            }
            None => fail(libc::EBADF),
        }) as c_int;
    }
    raw::libc6(libc::SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    on_path!(p, path, fill_stat(&path, st), raw::libc6(libc::SYS_stat, p as i64, st as i64, 0, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    on_path!(p, path, fill_stat(&path, st), raw::libc6(libc::SYS_lstat, p as i64, st as i64, 0, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, p: *const c_char, flags: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    if dirfd >= FD_BASE {
        return sim(|| match file(dirfd) {
            Some(f) => {
                fill_statx(f.ino, out);
                0
            }
            None => fail(libc::EBADF),
        }) as c_int;
    }
    let real = || raw::libc6(libc::SYS_statx, dirfd as i64, p as i64, flags as i64, mask as i64, out as i64, 0);
    if p.is_null() {
        return real() as c_int;
    }
    on_path!(
        p,
        path,
        match disk().names.get(&path) {
            None => fail(libc::ENOENT),
            Some(&i) => {
                fill_statx(i, out);
                0
            }
        },
        real()
    )
}

#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    on_path!(
        p,
        path,
        if disk().names.contains_key(&path) { 0 } else { fail(libc::ENOENT) },
        raw::libc6(libc::SYS_access, p as i64, mode as i64, 0, 0, 0, 0)
    )
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if sched::active() {
        if let (Some(x), Some(y)) = (path_of(a), path_of(b)) {
            return sim(|| {
                let kill = match gate("rename", &y, false) {
                    Go::Ret(r) => return r,
                    Go::On(_, k) => k,
                };
                let d = disk();
                let r = match d.names.remove(&x) {
                    None => return fail(libc::ENOENT),
                    Some(i) => {
                        d.names.insert(y.clone(), i);
                        d.journal.push(MetaOp::Rename(x, y));
                        0
                    }
                };
                if kill {
                    kill_now();
                }
                r
            }) as c_int;
        }
    }
    raw::libc6(libc::SYS_rename, a as i64, b as i64, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    on_path!(
        p,
        path,
        {
            let kill = match gate("unlink", &path, false) {
                Go::Ret(r) => return r as c_int,
                Go::On(_, k) => k,
            };
            let d = disk();
            let r = if d.names.remove(&path).is_some() {
                d.journal.push(MetaOp::Unlink(path.clone()));
                0
            } else {
                fail(libc::ENOENT)
            };
            if kill {
                kill_now();
            }
            r as c_int
        },
        raw::libc6(libc::SYS_unlink, p as i64, 0, 0, 0, 0, 0)
    )
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: libc::mode_t) -> c_int {
    on_path!(
        p,
        path,
        {
            match gate("mkdir", &path, true) {
                Go::Ret(r) => return r as c_int,
                Go::On(..) => {}
            }
            let d = disk();
            if d.names.contains_key(&path) {
                fail(libc::EEXIST) as c_int
            } else {
                d.inodes.push(Inode { dir: true, ..Default::default() });
                let i = d.inodes.len() - 1;
                d.names.insert(path.clone(), i);
                d.journal.push(MetaOp::Link(path.clone(), i));
                0
            }
        },
        raw::libc6(libc::SYS_mkdir, p as i64, mode as i64, 0, 0, 0, 0)
    )
}

// Directory listing: only for virtual directories; everything else goes to the real libc.
#[repr(C)]
pub struct VDir {
    magic: u64,
    id: usize,
    pos: usize,
    ent: libc::dirent64,
}
const VMAGIC: u64 = 0x5349_4d44_4952_0001;

unsafe fn real_fn(name: &[u8]) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _)
}

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    if sched::active() {
        if let Some(path) = path_of(p) {
            return sim(|| {
                let d = disk();
                match gate("opendir", &path, false) {
                    Go::Ret(_) => return std::ptr::null_mut(),
                    Go::On(..) => {}
                }
                match d.names.get(&path) {
                    Some(&i) if d.inodes[i].dir => {}
                    _ => {
                        raw::set_errno(libc::ENOENT);
                        return std::ptr::null_mut();
                    }
                }
                let pre = format!("{}/", path);
                let list: Vec<String> =
                    d.names.keys().filter(|k| k.starts_with(&pre) && !k[pre.len()..].contains('/')).map(|k| k[pre.len()..].to_string()).collect();
                d.dirs.push(list);
                Box::into_raw(Box::new(VDir { magic: VMAGIC, id: d.dirs.len() - 1, pos: 0, ent: std::mem::zeroed() })) as *mut c_void
            });
        }
    }
    let f: extern "C" fn(*const c_char) -> *mut c_void = std::mem::transmute(real_fn(b"opendir\0"));
    f(p)
}

unsafe fn vdir(d: *mut c_void) -> Option<&'static mut VDir> {
    if sched::active() && !d.is_null() && *(d as *const u64) == VMAGIC {
        Some(&mut *(d as *mut VDir))
    } else {
        None
    }
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if let Some(v) = vdir(d) {
        return sched::quiet(|| {
            let list = &disk().dirs[v.id];
            if v.pos >= list.len() {
                return std::ptr::null_mut();
            }
            let n = list[v.pos].as_bytes();
            v.pos += 1;
            v.ent = std::mem::zeroed();
            v.ent.d_ino = v.pos as u64;
            v.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
            for (i, b) in n.iter().take(255).enumerate() {
                v.ent.d_name[i] = *b as c_char;
            }
            &mut v.ent as *mut _
        });
    }
    let f: extern "C" fn(*mut c_void) -> *mut libc::dirent64 = std::mem::transmute(real_fn(b"readdir64\0"));
    f(d)
}

#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if vdir(d).is_some() {
        drop(Box::from_raw(d as *mut VDir));
        return 0;
    }
    let f: extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(real_fn(b"closedir\0"));
    f(d)
}

/// Calls made through libc::syscall directly.
pub fn syscall_hook(_n: c_long, _a: c_long, _b: c_long, _c: c_long, _d: c_long, _e: c_long, _f: c_long) -> Option<c_long> {
    None
}

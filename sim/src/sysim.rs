//! Simulated operating system: an in-memory disk, a simulated clock and a simulated environment, reached by
//! the real code through the libc symbols its standard library calls (open64, write, read, clock_gettime, ...),
//! which this executable interposes. Calls of threads without a simulated world go to the kernel unchanged.

use libc::{c_char, c_int, c_long, c_void, off64_t, size_t, ssize_t};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::ffi::CStr;
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, PartialOrd, Ord, Hash)]
pub enum OpClass {
    Open,
    Write,
    Read,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum DiskFaultKind {
    /// fails with this errno, once
    Err(i32),
    /// fails with this errno, and so does every later call of the class
    ErrForever(i32),
    /// interrupted by a signal, n times in a row
    Eintr(u32),
    /// only this many bytes are transferred (at least one)
    Short(usize),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct DiskFault {
    pub class: OpClass,
    /// index of the call among the calls of its class
    pub at: usize,
    pub kind: DiskFaultKind,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize, Default)]
pub struct DiskPlan {
    #[serde(default)]
    pub faults: Vec<DiskFault>,
    /// total bytes the disk can hold
    #[serde(default)]
    pub capacity: Option<usize>,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize, Default)]
pub struct ClockPlan {
    /// nanoseconds since the epoch at the first reading
    pub start_ns: i64,
    /// added after each reading
    pub step_ns: i64,
    /// (reading index, jump in ns added before that reading)
    #[serde(default)]
    pub jumps: Vec<(usize, i64)>,
}

struct Inode {
    data: Vec<u8>,
}
struct Fd {
    inode: usize,
    /// a host file whose reading fails
    bad: Option<c_int>,
    host: bool,
    pos: usize,
    append: bool,
    read: bool,
    write: bool,
}

#[derive(Default, Clone, Debug)]
pub struct FsStats {
    pub opens: usize,
    pub writes: usize,
    pub reads: usize,
    pub eintr: u64,
    pub short: u64,
    pub errors: u64,
    pub enospc: u64,
    pub clock_reads: usize,
}

pub struct World {
    inodes: Vec<Inode>,
    names: BTreeMap<String, usize>,
    fds: HashMap<c_int, Fd>,
    next_fd: c_int,
    plan: DiskPlan,
    fired: Vec<u32>,
    forever: HashMap<OpClass, i32>,
    pub stats: FsStats,
    pub ops: Vec<String>,
    clock: Option<ClockPlan>,
    clock_off: i64,
    pub clock_values: Vec<i64>,
    env: HashMap<String, Option<std::ffi::CString>>,
    /// answer "no such file" for host files outside /sim (and serve the listed ones)
    host: bool,
    pub hostname: Result<String, i32>,
    pub username: Result<String, i32>,
    /// (path, errno when opened, errno when read)
    pub host_faults: Vec<(String, Option<i32>, Option<i32>)>,
    pub host_fired: u64,
    pub host_seen: u64,
    links: BTreeMap<String, String>,
    /// clock readings made before the resolution started
    pub clock_mark: usize,
    pub watch: String,
    /// the watched file was changed other than by appending, after `arm`
    pub shrunk: Option<String>,
    pub armed: bool,
    /// operations are not recorded
    pub quiet: bool,
    pub peak_files: usize,
}

pub trait Yielder: Send + Sync {
    fn yield_now(&self, what: &'static str);
}

pub struct Shared {
    pub w: Mutex<World>,
    pub yielder: Option<Arc<dyn Yielder>>,
}

thread_local! {
    static CUR: RefCell<Option<Arc<Shared>>> = const { RefCell::new(None) };
}

pub type Handle = Arc<Shared>;

pub fn new_world(plan: DiskPlan, yielder: Option<Arc<dyn Yielder>>) -> Handle {
    Arc::new(Shared {
        w: Mutex::new(World {
            inodes: vec![],
            names: BTreeMap::new(),
            fds: HashMap::new(),
            next_fd: 1_000_000,
            fired: vec![0; plan.faults.len()],
            plan,
            forever: HashMap::new(),
            stats: FsStats::default(),
            ops: vec![],
            clock: None,
            clock_off: 0,
            clock_values: vec![],
            env: HashMap::new(),
            host: false,
            hostname: Ok("simhost".into()),
            username: Ok("simuser".into()),
            host_faults: vec![],
            host_fired: 0,
            host_seen: 0,
            links: BTreeMap::new(),
            clock_mark: 0,
            watch: String::new(),
            shrunk: None,
            armed: false,
            quiet: false,
            peak_files: 0,
        }),
        yielder,
    })
}

pub struct Enter(Option<Handle>);
/// Puts the calling thread inside the simulated world until the guard is dropped.
pub fn enter(h: &Handle) -> Enter {
    let prev = CUR.with(|c| c.borrow_mut().replace(h.clone()));
    Enter(prev)
}
impl Drop for Enter {
    fn drop(&mut self) {
        let p = self.0.take();
        CUR.with(|c| *c.borrow_mut() = p);
    }
}

fn cur() -> Option<Handle> {
    CUR.try_with(|c| c.try_borrow().ok().and_then(|b| b.clone())).ok().flatten()
}

pub fn lock(h: &Handle) -> MutexGuard<'_, World> {
    h.w.lock().unwrap_or_else(|e| e.into_inner())
}

impl World {
    pub fn put(&mut self, path: &str, data: &[u8]) {
        self.inodes.push(Inode { data: data.to_vec() });
        self.names.insert(path.to_string(), self.inodes.len() - 1);
    }
    /// the faults of the program that runs next
    pub fn set_plan(&mut self, plan: DiskPlan) {
        self.set_faults(plan);
        self.fds.clear();
    }
    pub fn open_files(&self) -> usize {
        self.fds.len()
    }
    pub fn set_faults(&mut self, plan: DiskPlan) {
        self.fired = vec![0; plan.faults.len()];
        self.plan = plan;
        self.forever.clear();
        self.stats = FsStats::default();
    }
    pub fn get(&self, path: &str) -> Option<&[u8]> {
        self.names.get(path).map(|i| &self.inodes[*i].data[..])
    }
    pub fn watched_len(&self) -> usize {
        self.get(&self.watch).map(|d| d.len()).unwrap_or(0)
    }
    pub fn set_clock(&mut self, c: ClockPlan) {
        self.clock = Some(c);
    }
    pub fn set_env(&mut self, k: &str, v: Option<&str>) {
        self.env.insert(k.to_string(), v.map(|s| std::ffi::CString::new(s).unwrap()));
    }
    pub fn set_host(&mut self) {
        self.host = true;
    }
    pub fn link(&mut self, path: &str, target: &str) {
        self.links.insert(path.to_string(), target.to_string());
    }
    fn host_open_fault(&mut self, path: &str) -> Option<c_int> {
        if !path.starts_with("/sim/") {
            self.host_seen += 1;
        }
        let e = self.host_faults.iter().find(|f| f.0 == path)?.1?;
        self.host_fired += 1;
        Some(e)
    }
    fn total(&self) -> usize {
        self.inodes.iter().map(|i| i.data.len()).sum()
    }
    fn note(&mut self, s: String) {
        if self.ops.len() < 4000 && !self.quiet {
            self.ops.push(s);
        }
    }
    /// fault to apply to the current call of this class, if any
    fn fault(&mut self, class: OpClass) -> Option<DiskFaultKind> {
        let idx = match class {
            OpClass::Open => self.stats.opens,
            OpClass::Write => self.stats.writes,
            OpClass::Read => self.stats.reads,
        };
        if let Some(e) = self.forever.get(&class) {
            return Some(DiskFaultKind::Err(*e));
        }
        for i in 0..self.plan.faults.len() {
            let f = self.plan.faults[i].clone();
            if f.class != class || f.at != idx {
                continue;
            }
            match f.kind {
                DiskFaultKind::Eintr(n) => {
                    if self.fired[i] < n {
                        self.fired[i] += 1;
                        return Some(f.kind);
                    }
                }
                DiskFaultKind::ErrForever(e) => {
                    self.fired[i] += 1;
                    self.forever.insert(class, e);
                    return Some(DiskFaultKind::Err(e));
                }
                _ => {
                    if self.fired[i] == 0 {
                        self.fired[i] += 1;
                        return Some(f.kind);
                    }
                }
            }
        }
        None
    }
    fn change(&mut self, what: &str, before: Option<Vec<u8>>) {
        if !self.armed || self.watch.is_empty() {
            return;
        }
        if let Some(b) = before {
            let ok = match self.get(&self.watch) {
                Some(now) => now.len() >= b.len() && now[..b.len()] == b[..],
                None => b.is_empty(),
            };
            if !ok && self.shrunk.is_none() {
                self.shrunk = Some(what.to_string());
            }
        }
    }
    fn snapshot_if_armed(&self) -> Option<Vec<u8>> {
        if self.armed && !self.watch.is_empty() {
            Some(self.get(&self.watch).unwrap_or(&[]).to_vec())
        } else {
            None
        }
    }

    fn open(&mut self, path: &str, flags: c_int) -> Result<c_int, c_int> {
        if let Some(e) = self.host_open_fault(path) {
            self.note(format!("open {path} -> errno {e}"));
            return Err(e);
        }
        let host = !path.starts_with("/sim/");
        let f = if host { None } else { self.fault(OpClass::Open) };
        match f {
            Some(DiskFaultKind::Err(e)) => {
                self.stats.opens += 1;
                self.stats.errors += 1;
                self.note(format!("open {path} -> errno {e}"));
                return Err(e);
            }
            Some(DiskFaultKind::Eintr(_)) => {
                self.stats.eintr += 1;
                self.note(format!("open {path} -> EINTR"));
                return Err(libc::EINTR);
            }
            _ => (),
        }
        if !host {
            self.stats.opens += 1;
        }
        let acc = flags & libc::O_ACCMODE;
        let exists = self.names.contains_key(path);
        if !exists && flags & libc::O_CREAT == 0 {
            self.note(format!("open {path} -> ENOENT"));
            return Err(libc::ENOENT);
        }
        if exists && flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
            self.note(format!("open {path} -> EEXIST"));
            return Err(libc::EEXIST);
        }
        if !exists {
            self.inodes.push(Inode { data: vec![] });
            self.names.insert(path.to_string(), self.inodes.len() - 1);
        }
        let ino = self.names[path];
        if exists && flags & libc::O_TRUNC != 0 && acc != libc::O_RDONLY {
            let b = self.snapshot_if_armed();
            self.inodes[ino].data.clear();
            self.change("open with O_TRUNC", b);
        }
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(
            fd,
            Fd {
                inode: ino,
                bad: self.host_faults.iter().find(|f| f.0 == path).and_then(|f| f.2),
                host,
                pos: 0,
                append: flags & libc::O_APPEND != 0,
                read: acc == libc::O_RDONLY || acc == libc::O_RDWR,
                write: acc == libc::O_WRONLY || acc == libc::O_RDWR,
            },
        );
        self.peak_files = self.peak_files.max(self.fds.len());
        self.note(format!("open {path} -> ok"));
        Ok(fd)
    }

    fn write(&mut self, fd: c_int, data: &[u8], at: Option<usize>) -> Result<usize, c_int> {
        let mut n = data.len();
        match self.fault(OpClass::Write) {
            Some(DiskFaultKind::Err(e)) => {
                self.stats.writes += 1;
                self.stats.errors += 1;
                self.note(format!("write {n} -> errno {e}"));
                return Err(e);
            }
            Some(DiskFaultKind::Eintr(_)) => {
                self.stats.eintr += 1;
                self.note(format!("write {n} -> EINTR"));
                return Err(libc::EINTR);
            }
            Some(DiskFaultKind::Short(k)) => {
                if k.max(1) < n {
                    n = k.max(1);
                    self.stats.short += 1;
                }
            }
            _ => (),
        }
        self.stats.writes += 1;
        if let Some(cap) = self.plan.capacity {
            let room = cap.saturating_sub(self.total());
            if n > 0 && room == 0 {
                self.stats.enospc += 1;
                self.note(format!("write {n} -> ENOSPC"));
                return Err(libc::ENOSPC);
            }
            if n > room {
                n = room;
                self.stats.short += 1;
            }
        }
        let (ino, append, pos, w) = match self.fds.get(&fd) {
            Some(f) => (f.inode, f.append, f.pos, f.write),
            None => return Err(libc::EBADF),
        };
        if !w {
            return Err(libc::EBADF);
        }
        let len = self.inodes[ino].data.len();
        let start = match at {
            Some(p) => p,
            None if append => len,
            None => pos,
        };
        let b = if start < len { self.snapshot_if_armed() } else { None };
        let d = &mut self.inodes[ino].data;
        if d.len() < start + n {
            d.resize(start + n, 0);
        }
        d[start..start + n].copy_from_slice(&data[..n]);
        if at.is_none() {
            self.fds.get_mut(&fd).unwrap().pos = start + n;
        }
        self.change("write over existing bytes", b);
        self.note(format!("write {} -> {}", data.len(), n));
        Ok(n)
    }

    fn read(&mut self, fd: c_int, buf: &mut [u8], at: Option<usize>) -> Result<usize, c_int> {
        let mut n = buf.len();
        let mut host = false;
        if let Some(f) = self.fds.get(&fd) {
            host = f.host;
            if let Some(e) = f.bad {
                self.host_fired += 1;
                return Err(e);
            }
        }
        let f = if host { None } else { self.fault(OpClass::Read) };
        match f {
            Some(DiskFaultKind::Err(e)) => {
                self.stats.reads += 1;
                self.stats.errors += 1;
                self.note(format!("read {n} -> errno {e}"));
                return Err(e);
            }
            Some(DiskFaultKind::Eintr(_)) => {
                self.stats.eintr += 1;
                self.note(format!("read {n} -> EINTR"));
                return Err(libc::EINTR);
            }
            Some(DiskFaultKind::Short(k)) => {
                if k.max(1) < n {
                    n = k.max(1);
                    self.stats.short += 1;
                }
            }
            _ => (),
        }
        if !host {
            self.stats.reads += 1;
        }
        let f = self.fds.get_mut(&fd).ok_or(libc::EBADF)?;
        if !f.read {
            return Err(libc::EBADF);
        }
        let d = &self.inodes[f.inode].data;
        let p = at.unwrap_or(f.pos);
        let avail = d.len().saturating_sub(p);
        let n = n.min(avail);
        buf[..n].copy_from_slice(&d[p..p + n]);
        if at.is_none() {
            f.pos += n;
        }
        self.note(format!("read {} -> {}", buf.len(), n));
        Ok(n)
    }

    fn seek(&mut self, fd: c_int, off: i64, whence: c_int) -> Result<i64, c_int> {
        let f = self.fds.get_mut(&fd).ok_or(libc::EBADF)?;
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => f.pos as i64,
            libc::SEEK_END => self.inodes[f.inode].data.len() as i64,
            _ => return Err(libc::EINVAL),
        };
        let p = base + off;
        if p < 0 {
            return Err(libc::EINVAL);
        }
        f.pos = p as usize;
        Ok(p)
    }

    fn truncate(&mut self, fd: c_int, len: usize) -> Result<(), c_int> {
        let ino = self.fds.get(&fd).ok_or(libc::EBADF)?.inode;
        let b = self.snapshot_if_armed();
        self.inodes[ino].data.resize(len, 0);
        self.change("ftruncate", b);
        Ok(())
    }

    fn clock_now(&mut self) -> Option<i64> {
        let c = self.clock.clone()?;
        let k = self.stats.clock_reads;
        for (i, j) in &c.jumps {
            if *i == k {
                self.clock_off += j;
            }
        }
        // Linux keeps its clock between 1970 and 2232
        let v = (c.start_ns + c.step_ns * k as i64 + self.clock_off).clamp(0, 8_276_000_000_000_000_000);
        self.stats.clock_reads += 1;
        self.clock_values.push(v);
        Some(v)
    }

    fn owns_path(&self, p: &str) -> bool {
        p.starts_with("/sim/") || p == "/sim" || (self.host && p.starts_with('/')) || self.names.contains_key(p)
    }
}

fn errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

unsafe fn path_str<'a>(p: *const c_char) -> Option<&'a str> {
    if p.is_null() {
        return None;
    }
    CStr::from_ptr(p).to_str().ok()
}

fn ret(r: Result<i64, c_int>) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => {
            errno(e);
            -1
        }
    }
}

fn sim_path(h: &Handle, p: *const c_char) -> Option<String> {
    let s = unsafe { path_str(p)? };
    if lock(h).owns_path(s) {
        Some(s.to_string())
    } else {
        None
    }
}
fn is_sim_fd(fd: c_int) -> bool {
    fd >= 1_000_000
}
fn yield_point(h: &Handle, what: &'static str) {
    if let Some(y) = &h.yielder {
        y.yield_now(what);
    }
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let _u = crate::resource::uncounted();
    if let Some(h) = cur() {
        if let Some(p) = sim_path(&h, path) {
            yield_point(&h, "open");
            return ret(lock(&h).open(&p, flags).map(|x| x as i64)) as c_int;
        }
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let _u = crate::resource::uncounted();
    if let Some(h) = cur() {
        if let Some(p) = sim_path(&h, path) {
            yield_point(&h, "open");
            return ret(lock(&h).open(&p, flags).map(|x| x as i64)) as c_int;
        }
    }
    libc::syscall(libc::SYS_openat, dir, path, flags, mode) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let _u = crate::resource::uncounted();
    if is_sim_fd(fd) {
        if let Some(h) = cur() {
            yield_point(&h, "write");
            let s = std::slice::from_raw_parts(buf as *const u8, n);
            return ret(lock(&h).write(fd, s, None).map(|x| x as i64)) as ssize_t;
        }
        errno(libc::EBADF);
        return -1;
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    let _u = crate::resource::uncounted();
    if is_sim_fd(fd) {
        if let Some(h) = cur() {
            yield_point(&h, "write");
            let s = std::slice::from_raw_parts(buf as *const u8, n);
            return ret(lock(&h).write(fd, s, Some(off as usize)).map(|x| x as i64)) as ssize_t;
        }
    }
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    let _u = crate::resource::uncounted();
    if is_sim_fd(fd) {
        if let Some(h) = cur() {
            yield_point(&h, "write");
            let mut v = vec![];
            for k in 0..cnt as usize {
                let e = &*iov.add(k);
                if e.iov_len > 0 {
                    v.extend_from_slice(std::slice::from_raw_parts(e.iov_base as *const u8, e.iov_len));
                }
            }
            return ret(lock(&h).write(fd, &v, None).map(|x| x as i64)) as ssize_t;
        }
    }
    libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let _u = crate::resource::uncounted();
    if is_sim_fd(fd) {
        if let Some(h) = cur() {
            yield_point(&h, "read");
            let s = std::slice::from_raw_parts_mut(buf as *mut u8, n);
            return ret(lock(&h).read(fd, s, None).map(|x| x as i64)) as ssize_t;
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    let _u = crate::resource::uncounted();
    if is_sim_fd(fd) {
        if let Some(h) = cur() {
            yield_point(&h, "read");
            let s = std::slice::from_raw_parts_mut(buf as *mut u8, n);
            return ret(lock(&h).read(fd, s, Some(off as usize)).map(|x| x as i64)) as ssize_t;
        }
    }
    libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if is_sim_fd(fd) && cnt > 0 {
        // one segment is a legal short read
        let mut k = 0;
        while k + 1 < cnt as usize && (*iov.add(k)).iov_len == 0 {
            k += 1;
        }
        let e = &*iov.add(k);
        return read(fd, e.iov_base, e.iov_len);
    }
    libc::syscall(libc::SYS_readv, fd, iov, cnt) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _u = crate::resource::uncounted();
    if is_sim_fd(fd) {
        if let Some(h) = cur() {
            return match lock(&h).fds.remove(&fd) {
                Some(_) => 0,
                None => {
                    errno(libc::EBADF);
                    -1
                }
            };
        }
        return 0;
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if is_sim_fd(fd) {
        if let Some(h) = cur() {
            return ret(lock(&h).seek(fd, off, whence));
        }
    }
    libc::syscall(libc::SYS_lseek, fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let _u = crate::resource::uncounted();
    if is_sim_fd(fd) {
        if let Some(h) = cur() {
            return ret(lock(&h).truncate(fd, len as usize).map(|_| 0)) as c_int;
        }
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if is_sim_fd(fd) {
        return 0;
    }
    libc::syscall(libc::SYS_fsync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if is_sim_fd(fd) {
        return 0;
    }
    libc::syscall(libc::SYS_fdatasync, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if is_sim_fd(fd) {
        return 0;
    }
    libc::syscall(libc::SYS_flock, fd, op) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    let _u = crate::resource::uncounted();
    if is_sim_fd(fd) {
        if let Some(h) = cur() {
            if cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD {
                let mut w = lock(&h);
                let n = match w.fds.get(&fd) {
                    Some(f) => Fd { inode: f.inode, bad: f.bad, host: f.host, pos: f.pos, append: f.append, read: f.read, write: f.write },
                    None => {
                        errno(libc::EBADF);
                        return -1;
                    }
                };
                let k = w.next_fd;
                w.next_fd += 1;
                w.fds.insert(k, n);
                return k;
            }
            return 0;
        }
        return 0;
    }
    libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int
}

unsafe fn fill_stat(st: *mut libc::stat64, size: usize) {
    std::ptr::write_bytes(st, 0, 1);
    (*st).st_mode = libc::S_IFREG | 0o644;
    (*st).st_nlink = 1;
    (*st).st_size = size as i64;
    (*st).st_blksize = 4096;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if is_sim_fd(fd) {
        if let Some(h) = cur() {
            let w = lock(&h);
            if let Some(f) = w.fds.get(&fd) {
                fill_stat(st, w.inodes[f.inode].data.len());
                return 0;
            }
        }
        errno(libc::EBADF);
        return -1;
    }
    libc::syscall(libc::SYS_fstat, fd, st) as c_int
}
unsafe fn stat_path(path: *const c_char, st: *mut libc::stat64) -> Option<c_int> {
    let h = cur()?;
    let p = sim_path(&h, path)?;
    let w = lock(&h);
    Some(match w.get(&p) {
        Some(d) => {
            fill_stat(st, d.len());
            0
        }
        None => {
            errno(libc::ENOENT);
            -1
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat_path(path, st).unwrap_or_else(|| libc::syscall(libc::SYS_stat, path, st) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat_path(path, st).unwrap_or_else(|| libc::syscall(libc::SYS_lstat, path, st) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, st: *mut libc::statx) -> c_int {
    let sim: Option<Result<usize, c_int>> = (|| {
        let h = cur()?;
        if is_sim_fd(dir) {
            let w = lock(&h);
            return Some(match w.fds.get(&dir) {
                Some(f) => Ok(w.inodes[f.inode].data.len()),
                None => Err(libc::EBADF),
            });
        }
        let p = sim_path(&h, path)?;
        let w = lock(&h);
        let r = w.get(&p).map(|d| d.len()).ok_or(libc::ENOENT);
        Some(r)
    })();
    match sim {
        Some(Ok(size)) => {
            std::ptr::write_bytes(st, 0, 1);
            (*st).stx_mask = libc::STATX_BASIC_STATS;
            (*st).stx_mode = (libc::S_IFREG | 0o644) as u16;
            (*st).stx_nlink = 1;
            (*st).stx_size = size as u64;
            (*st).stx_blksize = 4096;
            0
        }
        Some(Err(e)) => {
            errno(e);
            -1
        }
        None => libc::syscall(libc::SYS_statx, dir, path, flags, mask, st) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if let Some(h) = cur() {
        if let Some(p) = sim_path(&h, path) {
            let mut w = lock(&h);
            let b = w.snapshot_if_armed();
            return if w.names.remove(&p).is_some() {
                w.change("unlink", b);
                0
            } else {
                errno(libc::ENOENT);
                -1
            };
        }
    }
    libc::syscall(libc::SYS_unlink, path) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let _u = crate::resource::uncounted();
    if let Some(h) = cur() {
        if let (Some(pa), Some(pb)) = (sim_path(&h, a), sim_path(&h, b)) {
            let mut w = lock(&h);
            let snap = w.snapshot_if_armed();
            return match w.names.remove(&pa) {
                Some(i) => {
                    w.names.insert(pb, i);
                    w.change("rename", snap);
                    0
                }
                None => {
                    errno(libc::ENOENT);
                    -1
                }
            };
        }
    }
    libc::syscall(libc::SYS_rename, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: libc::mode_t) -> c_int {
    if let Some(h) = cur() {
        if sim_path(&h, path).is_some() {
            return 0;
        }
    }
    libc::syscall(libc::SYS_mkdir, path, mode) as c_int
}
thread_local! {
    /// simulated time the model has taken on this thread since the run began
    static SPENT_NS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
pub fn spend(ns: i64) {
    SPENT_NS.with(|c| c.set(c.get() + ns));
}
pub fn spent_reset() -> i64 {
    SPENT_NS.with(|c| c.replace(0))
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if id == libc::CLOCK_REALTIME {
        if let Some(h) = cur() {
            if let Some(v) = lock(&h).clock_now() {
                (*ts).tv_sec = v.div_euclid(1_000_000_000);
                (*ts).tv_nsec = v.rem_euclid(1_000_000_000);
                return 0;
            }
        }
    }
    if crate::exec::IN_SIM.try_with(|c| c.get()).unwrap_or(0) > 0 {
        // the code under test sees simulated time only, in which evaluations of the model may last for days
        let base = if id == libc::CLOCK_REALTIME { 1_700_000_000_000_000_000 } else { 1_000_000_000_000_000 };
        let v: i64 = base + SPENT_NS.try_with(|c| c.get()).unwrap_or(0);
        (*ts).tv_sec = v.div_euclid(1_000_000_000);
        (*ts).tv_nsec = v.rem_euclid(1_000_000_000);
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    if let (Some(h), Some(n)) = (cur(), path_str(name)) {
        let w = lock(&h);
        if let Some(v) = w.env.get(n) {
            return match v {
                // lives as long as the world, which outlives the run
                Some(c) => c.as_ptr() as *mut c_char,
                None => std::ptr::null_mut(),
            };
        }
    }
    // the environment of the process, which nothing modifies
    let n = match path_str(name) {
        Some(s) => s,
        None => return std::ptr::null_mut(),
    };
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null_mut();
    }
    while !(*e).is_null() {
        let s = CStr::from_ptr(*e).to_bytes();
        if s.len() > n.len() && s[n.len()] == b'=' && &s[..n.len()] == n.as_bytes() {
            return (*e).add(n.len() + 1) as *mut c_char;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
extern "C" {
    static environ: *const *const c_char;
}

#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if let Some(h) = cur() {
        if let Some(p) = sim_path(&h, path) {
            let w = lock(&h);
            return match (w.links.get(&p), w.names.contains_key(&p)) {
                (Some(t), _) => {
                    let k = t.len().min(n);
                    std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
                    k as ssize_t
                }
                (None, true) => {
                    errno(libc::EINVAL);
                    -1
                }
                _ => {
                    errno(libc::ENOENT);
                    -1
                }
            };
        }
    }
    libc::syscall(libc::SYS_readlink, path, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn gethostname(buf: *mut c_char, n: size_t) -> c_int {
    let name: Result<String, i32> = match cur() {
        Some(h) if lock(&h).host => lock(&h).hostname.clone(),
        _ => {
            let mut u: libc::utsname = std::mem::zeroed();
            if libc::uname(&mut u) != 0 {
                return -1;
            }
            Ok(CStr::from_ptr(u.nodename.as_ptr()).to_string_lossy().into_owned())
        }
    };
    match name {
        Ok(s) => {
            let k = s.len().min(n.saturating_sub(1));
            std::ptr::copy_nonoverlapping(s.as_ptr(), buf as *mut u8, k);
            *buf.add(k) = 0;
            0
        }
        Err(e) => {
            errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpwuid_r(uid: libc::uid_t, pwd: *mut libc::passwd, buf: *mut c_char, n: size_t, result: *mut *mut libc::passwd) -> c_int {
    if let Some(h) = cur() {
        let w = lock(&h);
        if w.host {
            *result = std::ptr::null_mut();
            return match &w.username {
                // an unknown user is no error
                Err(0) => 0,
                Err(e) => *e,
                Ok(s) if s.len() + 1 > n => libc::ERANGE,
                Ok(s) => {
                    std::ptr::copy_nonoverlapping(s.as_ptr(), buf as *mut u8, s.len());
                    *buf.add(s.len()) = 0;
                    let empty = buf.add(s.len());
                    *pwd = libc::passwd {
                        pw_name: buf,
                        pw_passwd: empty,
                        pw_uid: uid,
                        pw_gid: uid,
                        pw_gecos: empty,
                        pw_dir: empty,
                        pw_shell: empty,
                    };
                    *result = pwd;
                    0
                }
            };
        }
    }
    type F = unsafe extern "C" fn(libc::uid_t, *mut libc::passwd, *mut c_char, size_t, *mut *mut libc::passwd) -> c_int;
    let f = libc::dlsym(libc::RTLD_NEXT, c"getpwuid_r".as_ptr());
    if f.is_null() {
        return libc::ENOSYS;
    }
    std::mem::transmute::<*mut c_void, F>(f)(uid, pwd, buf, n, result)
}

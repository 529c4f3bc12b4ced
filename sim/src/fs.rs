//! The simulated operating system: files below /simfs, the clock and random
//! bytes, with injected faults. Simulated files have real descriptors (memory
//! files) so that `fstat` and friends work, but every open, read, write, seek,
//! truncate, unlink and close goes through here.
#![allow(static_mut_refs)]

use crate::core::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::{c_char, c_void, CStr};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Role {
    /// Destination of `Workbook::save()`.
    Out,
    /// Temporary worksheet data.
    Temp,
    /// Images and VBA projects read by the library.
    Media,
    /// A user supplied writer.
    Writer,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Op {
    Open,
    Read,
    Write,
    Seek,
    Trunc,
    Unlink,
    Flush,
    Any,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    /// Fail with this errno.
    Errno(i32),
    /// Transfer at most this many bytes.
    Short(u32),
    /// Report that nothing was written (a writer returning `Ok(0)`), or end of
    /// file for a read.
    Zero,
}
/// The `at`-th matching operation and the following `n - 1` are hit.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    pub role: Role,
    pub op: Op,
    pub at: u64,
    pub n: u64,
    pub act: Act,
}
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct IoCfg {
    pub faults: Vec<Fault>,
    /// Storage limits in bytes, by role.
    #[serde(default)]
    pub quota: Vec<(Role, u64)>,
    /// Every transfer of these roles is cut to a pseudo-random length.
    #[serde(default)]
    pub dribble: Vec<(Role, u64)>,
    /// Probability in 1/1000 that an operation is interrupted (EINTR).
    #[serde(default)]
    pub eintr: u32,
    /// The same for the destination of a save.
    #[serde(default)]
    pub eintr_dest: u32,
    /// The temporary file system has no O_TMPFILE.
    #[serde(default)]
    pub no_otmpfile: bool,
    /// The default temporary directory cannot be used.
    #[serde(default)]
    pub no_default_tmp: bool,
    /// Seed of the random bytes handed to the process (hash seeds).
    #[serde(default)]
    pub entropy: u64,
    /// Wall clock at the start, in seconds from the epoch, and nanoseconds that
    /// pass with every reading.
    #[serde(default)]
    pub clock: i64,
    #[serde(default)]
    pub tick_ns: i64,
    /// Seed for `dribble` and `eintr`.
    #[serde(default)]
    pub seed: u64,
}

struct Inode {
    fd: i32,
    role: Role,
    bytes: u64,
}
struct OpenFile {
    inode: usize,
    pos: u64,
    append: bool,
    role: Role,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct IoStats {
    pub injected: BTreeMap<String, u64>,
    pub ops: BTreeMap<String, u64>,
    /// Where the first injected fault hit: step counter.
    pub first_hit: Option<u64>,
    pub leaked_fds: u64,
    pub left_files: Vec<String>,
    pub escapes: Vec<String>,
    pub clock_reads: u64,
    /// Directories (or paths) in which temporary files were created.
    pub temp_opens: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct WriteRec {
    pub inode: usize,
    pub off: u64,
    pub data: Vec<u8>,
}

pub struct Fs {
    pub cfg: IoCfg,
    names: BTreeMap<String, usize>,
    inodes: Vec<Inode>,
    fds: BTreeMap<i32, OpenFile>,
    counts: BTreeMap<(Role, Op), u64>,
    used: BTreeMap<Role, u64>,
    /// Faults of the operation in progress, counted from its start.
    armed: Option<(IoCfg, BTreeMap<(Role, Op), u64>, BTreeMap<Role, u64>)>,
    rng: Rng,
    ent: Rng,
    now_ns: i128,
    pub stats: IoStats,
    pub enabled: bool,
    /// Log of all writes to `Out` files, if wanted.
    pub log: Option<Vec<WriteRec>>,
    pub events: Vec<String>,
}
static mut FS: Option<Fs> = None;

unsafe fn memfd() -> i32 {
    raw3(libc::SYS_memfd_create, b"simfs\0".as_ptr() as i64, 1, 0) as i32
}

pub fn fs() -> &'static mut Fs {
    unsafe { FS.as_mut().expect("no simulated file system") }
}

fn role_of(path: &str) -> Role {
    if path.starts_with("/simfs/tmp") || path.starts_with("/simfs/alt") {
        Role::Temp
    } else if path.starts_with("/simfs/media") {
        Role::Media
    } else {
        Role::Out
    }
}

impl Fs {
    /// Replace the file system by an empty one with this configuration.
    pub fn reset(cfg: &IoCfg) {
        unsafe {
            if let Some(f) = FS.as_mut() {
                for i in &f.inodes {
                    raw3(libc::SYS_close, i.fd as i64, 0, 0);
                }
                let fds: Vec<i32> = f.fds.keys().copied().collect();
                for fd in fds {
                    raw3(libc::SYS_close, fd as i64, 0, 0);
                }
            }
            FS = Some(Fs {
                cfg: cfg.clone(),
                names: BTreeMap::new(),
                inodes: vec![],
                fds: BTreeMap::new(),
                counts: BTreeMap::new(),
                used: BTreeMap::new(),
                armed: None,
                rng: Rng::new(cfg.seed ^ 0xF11E),
                ent: Rng::new(cfg.entropy),
                now_ns: cfg.clock as i128 * 1_000_000_000,
                stats: IoStats::default(),
                enabled: true,
                log: None,
                events: vec![],
            });
        }
    }
    fn new_inode(&mut self, role: Role) -> usize {
        let fd = unsafe { memfd() };
        self.inodes.push(Inode { fd, role, bytes: 0 });
        self.inodes.len() - 1
    }
    /// Create a file before the run.
    pub fn put(&mut self, path: &str, data: &[u8]) {
        let i = match self.names.get(path) {
            Some(i) => *i,
            None => {
                let i = self.new_inode(role_of(path));
                self.names.insert(path.to_string(), i);
                i
            }
        };
        unsafe {
            raw3(libc::SYS_ftruncate, self.inodes[i].fd as i64, 0, 0);
            let mut off = 0;
            while off < data.len() {
                let r = raw6(
                    libc::SYS_pwrite64,
                    self.inodes[i].fd as i64,
                    data[off..].as_ptr() as i64,
                    (data.len() - off) as i64,
                    off as i64,
                    0,
                    0,
                );
                assert!(r > 0);
                off += r as usize;
            }
        }
        self.inodes[i].bytes = data.len() as u64;
    }
    /// The current content of a file.
    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        let i = *self.names.get(path)?;
        let mut v = vec![0u8; self.inodes[i].bytes as usize];
        let mut off = 0;
        while off < v.len() {
            let r = unsafe {
                raw6(
                    libc::SYS_pread64,
                    self.inodes[i].fd as i64,
                    v[off..].as_mut_ptr() as i64,
                    (v.len() - off) as i64,
                    off as i64,
                    0,
                    0,
                )
            };
            if r <= 0 {
                break;
            }
            off += r as usize;
        }
        v.truncate(off);
        Some(v)
    }
    pub fn inode_of(&self, path: &str) -> Option<usize> {
        self.names.get(path).copied()
    }
    pub fn remove(&mut self, path: &str) {
        self.names.remove(path);
    }
    pub fn files(&self) -> Vec<String> {
        self.names.keys().cloned().collect()
    }
    pub fn open_fds(&self) -> usize {
        self.fds.len()
    }
    pub fn count(&self, role: Role, op: Op) -> u64 {
        self.counts.get(&(role, op)).copied().unwrap_or(0)
    }
    pub fn note(&mut self, s: String) {
        if self.events.len() < 400 {
            self.events.push(s);
        }
    }

    /// Account for one operation and decide whether a fault hits it.
    pub fn decide(&mut self, role: Role, op: Op, len: u64) -> Option<Act> {
        *self.stats.ops.entry(format!("{role:?}.{op:?}")).or_insert(0) += 1;
        let k = self.counts.entry((role, op)).or_insert(0);
        let idx = *k;
        *k += 1;
        let ka = self.counts.entry((role, Op::Any)).or_insert(0);
        let any_idx = *ka;
        *ka += 1;
        trace(0x10 + (role as u64) * 16 + op as u64 + (len << 12));
        if !self.enabled {
            return None;
        }
        let mut act = None;
        let zero = BTreeMap::new();
        let (faults, base) = match &self.armed {
            Some((c, b, _)) => (&c.faults, b),
            None => (&self.cfg.faults, &zero),
        };
        for f in faults {
            if f.role != role {
                continue;
            }
            let i = if f.op == Op::Any {
                any_idx - base.get(&(role, Op::Any)).unwrap_or(&0)
            } else if f.op == op {
                idx - base.get(&(role, op)).unwrap_or(&0)
            } else {
                continue;
            };
            if i >= f.at && i - f.at < f.n {
                act = Some(f.act);
                break;
            }
        }
        let eintr = if matches!(role, Role::Out | Role::Writer) { self.cfg.eintr_dest } else { self.cfg.eintr };
        if act.is_none() && eintr > 0 && matches!(op, Op::Read | Op::Write | Op::Open) {
            if self.rng.below(1000) < eintr as u64 {
                act = Some(Act::Errno(libc::EINTR));
            }
        }
        if act.is_none() && len > 1 && matches!(op, Op::Read | Op::Write) {
            for (r, max) in &self.cfg.dribble {
                if *r == role {
                    let m = (*max).max(1);
                    act = Some(Act::Short(1 + self.rng.below(m) as u32));
                }
            }
        }
        if op == Op::Write {
            let quota = match &self.armed {
                Some((c, _, u)) => c.quota.iter().find(|(r, _)| *r == role).map(|(_, q)| q + u.get(&role).unwrap_or(&0)),
                None => self.cfg.quota.iter().find(|(r, _)| *r == role).map(|(_, q)| *q),
            };
            if let Some(q) = quota {
                let used = *self.used.get(&role).unwrap_or(&0);
                let want = match act {
                    Some(Act::Short(n)) => len.min(n as u64),
                    Some(_) => 0,
                    None => len,
                };
                if used + want > q {
                    let left = q.saturating_sub(used);
                    act = Some(if left == 0 { Act::Errno(libc::ENOSPC) } else { Act::Short(left as u32) });
                    *self.stats.injected.entry(format!("{role:?}.full")).or_insert(0) += 1;
                    self.hit(role, op, any_idx, "quota");
                    if left > 0 {
                        return act;
                    }
                    return act;
                }
            }
        }
        if let Some(a) = act {
            let effective = match a {
                Act::Short(n) => (n as u64) < len,
                _ => true,
            };
            if effective {
                let name = match a {
                    Act::Errno(e) => format!("{role:?}.{op:?}.{}", errname(e)),
                    Act::Short(_) => format!("{role:?}.{op:?}.short"),
                    Act::Zero => format!("{role:?}.{op:?}.zero"),
                };
                self.hit(role, op, any_idx, &name);
                *self.stats.injected.entry(name).or_insert(0) += 1;
            } else {
                return None;
            }
        }
        act
    }
    fn hit(&mut self, role: Role, op: Op, idx: u64, what: &str) {
        if self.stats.first_hit.is_none() {
            self.stats.first_hit = Some(steps());
        }
        trace(hash_bytes(what.as_bytes()));
        let s = format!("step {} task {}: {role:?} operation {idx} ({op:?}): {what}", steps(), tid());
        self.note(s);
    }
    /// Start an operation with its own faults, or end it.
    pub fn arm(&mut self, c: Option<&IoCfg>) {
        self.armed = c.map(|c| (c.clone(), self.counts.clone(), self.used.clone()));
    }
    pub fn counts(&self) -> BTreeMap<(Role, Op), u64> {
        self.counts.clone()
    }
    /// Bytes written in a role, for the storage limit.
    pub fn charge(&mut self, role: Role, n: u64) {
        *self.used.entry(role).or_insert(0) += n;
    }
    pub fn used(&self, role: Role) -> u64 {
        *self.used.get(&role).unwrap_or(&0)
    }
    pub fn now(&mut self) -> i128 {
        self.stats.clock_reads += 1;
        let t = self.peek();
        self.now_ns += self.cfg.tick_ns as i128;
        t
    }
    /// The wall clock without the effect of reading it.
    pub fn peek(&self) -> i128 {
        // From 1970 to 9999.
        (self.now_ns + (mono_ns() as i128 - 1_000_000_000)).clamp(0, 253_402_300_799_000_000_000)
    }
    pub fn jump_clock(&mut self, secs: i64) {
        self.now_ns += secs as i128 * 1_000_000_000;
    }
    pub fn set_clock(&mut self, secs: i64) {
        self.now_ns = secs as i128 * 1_000_000_000;
    }
}

pub fn errname(e: i32) -> &'static str {
    match e {
        libc::ENOSPC => "ENOSPC",
        libc::EIO => "EIO",
        libc::EINTR => "EINTR",
        libc::EMFILE => "EMFILE",
        libc::EACCES => "EACCES",
        libc::ENOENT => "ENOENT",
        libc::EDQUOT => "EDQUOT",
        libc::EFBIG => "EFBIG",
        libc::EAGAIN => "EAGAIN",
        libc::EPIPE => "EPIPE",
        libc::EROFS => "EROFS",
        libc::ESPIPE => "ESPIPE",
        libc::EOPNOTSUPP => "EOPNOTSUPP",
        libc::ESTALE => "ESTALE",
        libc::EEXIST => "EEXIST",
        libc::EISDIR => "EISDIR",
        _ => "errno",
    }
}

// ---------------------------------------------------------------------------
// Interposed libc functions.
// ---------------------------------------------------------------------------
unsafe fn simulated() -> bool {
    in_task() && FS.is_some()
}
unsafe fn sim_fd(fd: i32) -> bool {
    simulated() && FS.as_ref().unwrap().fds.contains_key(&fd)
}

unsafe fn do_open(path: *const c_char, flags: i32, mode: u32) -> i64 {
    let p = CStr::from_ptr(path).to_string_lossy().into_owned();
    if !simulated() || !p.starts_with("/simfs") {
        if simulated() && flags & libc::O_ACCMODE != libc::O_RDONLY {
            busy(|| fs().stats.escapes.push(p.clone()));
            return -(libc::EACCES as i64);
        }
        return raw6(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, flags as i64 | libc::O_LARGEFILE as i64, mode as i64, 0, 0);
    }
    point();
    busy(|| {
        let f = fs();
        let role = role_of(&p);
        match f.decide(role, Op::Open, 0) {
            Some(Act::Errno(e)) => return -(e as i64),
            _ => {}
        }
        if f.cfg.no_default_tmp && p.starts_with("/simfs/tmp") {
            *f.stats.injected.entry("Temp.default-dir-unusable".into()).or_insert(0) += 1;
            return -(libc::EACCES as i64);
        }
        let dir = matches!(p.as_str(), "/simfs/tmp" | "/simfs/alt" | "/simfs/out" | "/simfs/media" | "/simfs");
        if role == Role::Temp {
            f.stats.temp_opens.push(p.clone());
        }
        let inode;
        if flags & libc::O_TMPFILE == libc::O_TMPFILE {
            if f.cfg.no_otmpfile {
                *f.stats.injected.entry("Temp.no-O_TMPFILE".into()).or_insert(0) += 1;
                return -(libc::EOPNOTSUPP as i64);
            }
            if !dir {
                return -(libc::ENOENT as i64);
            }
            inode = f.new_inode(role);
        } else if dir {
            return -(libc::EISDIR as i64);
        } else {
            let parent = p.rsplit_once('/').map(|x| x.0).unwrap_or("");
            if !matches!(parent, "/simfs/tmp" | "/simfs/alt" | "/simfs/out" | "/simfs/media") {
                return -(libc::ENOENT as i64);
            }
            match f.names.get(&p) {
                Some(i) => {
                    if flags & (libc::O_CREAT | libc::O_EXCL) == (libc::O_CREAT | libc::O_EXCL) {
                        return -(libc::EEXIST as i64);
                    }
                    inode = *i;
                    if flags & libc::O_TRUNC != 0 {
                        raw3(libc::SYS_ftruncate, f.inodes[inode].fd as i64, 0, 0);
                        f.inodes[inode].bytes = 0;
                    }
                }
                None => {
                    if flags & libc::O_CREAT == 0 {
                        return -(libc::ENOENT as i64);
                    }
                    inode = f.new_inode(role);
                    f.names.insert(p.clone(), inode);
                }
            }
        }
        let fd = raw3(libc::SYS_dup, f.inodes[inode].fd as i64, 0, 0);
        if fd < 0 {
            return fd;
        }
        f.fds.insert(fd as i32, OpenFile { inode, pos: 0, append: flags & libc::O_APPEND != 0, role });
        fd
    })
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: i32, mode: u32) -> i32 {
    ret(do_open(path, flags, mode)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: i32, mode: u32) -> i32 {
    ret(do_open(path, flags, mode)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const c_char, flags: i32, mode: u32) -> i32 {
    if *path == b'/' as c_char {
        ret(do_open(path, flags, mode)) as i32
    } else {
        ret(raw6(libc::SYS_openat, dir as i64, path as i64, flags as i64, mode as i64, 0, 0)) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const c_char, flags: i32, mode: u32) -> i32 {
    openat(dir, path, flags, mode)
}

unsafe fn do_rw(fd: i32, buf: *mut c_void, len: usize, at: Option<u64>, write: bool) -> i64 {
    point();
    busy(|| {
        let f = fs();
        let (inode, pos, append, role) = {
            let o = &f.fds[&fd];
            (o.inode, o.pos, o.append, o.role)
        };
        let op = if write { Op::Write } else { Op::Read };
        let mut n = len as u64;
        match f.decide(role, op, n) {
            Some(Act::Errno(e)) => return -(e as i64),
            Some(Act::Short(k)) => n = n.min(k as u64),
            Some(Act::Zero) => return 0,
            None => {}
        }
        let mut off = at.unwrap_or(pos);
        if write && append && at.is_none() {
            off = f.inodes[inode].bytes;
        }
        let nr = if write { libc::SYS_pwrite64 } else { libc::SYS_pread64 };
        let r = raw6(nr, f.inodes[inode].fd as i64, buf as i64, n as i64, off as i64, 0, 0);
        if r > 0 {
            if write {
                f.charge(role, r as u64);
                let end = off + r as u64;
                if end > f.inodes[inode].bytes {
                    f.inodes[inode].bytes = end;
                }
                if let Some(l) = f.log.as_mut() {
                    if f.inodes[inode].role == Role::Out {
                        l.push(WriteRec {
                            inode,
                            off,
                            data: std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec(),
                        });
                    }
                }
            }
            if at.is_none() {
                f.fds.get_mut(&fd).unwrap().pos = off + r as u64;
            }
        }
        r
    })
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut c_void, len: usize) -> isize {
    if sim_fd(fd) {
        return ret(do_rw(fd, buf, len, None, false)) as isize;
    }
    ret(raw3(libc::SYS_read, fd as i64, buf as i64, len as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const c_void, len: usize) -> isize {
    if sim_fd(fd) {
        return ret(do_rw(fd, buf as *mut c_void, len, None, true)) as isize;
    }
    if simulated() && (fd == 1 || fd == 2) {
        return len as isize;
    }
    ret(raw3(libc::SYS_write, fd as i64, buf as i64, len as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut c_void, len: usize, off: i64) -> isize {
    if sim_fd(fd) {
        return ret(do_rw(fd, buf, len, Some(off as u64), false)) as isize;
    }
    ret(raw6(libc::SYS_pread64, fd as i64, buf as i64, len as i64, off, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const c_void, len: usize, off: i64) -> isize {
    if sim_fd(fd) {
        return ret(do_rw(fd, buf as *mut c_void, len, Some(off as u64), true)) as isize;
    }
    ret(raw6(libc::SYS_pwrite64, fd as i64, buf as i64, len as i64, off, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if sim_fd(fd) {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    if simulated() && (fd == 1 || fd == 2) {
        let mut t = 0;
        for i in 0..n as usize {
            t += (*iov.add(i)).iov_len;
        }
        return t as isize;
    }
    ret(raw3(libc::SYS_writev, fd as i64, iov as i64, n as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if sim_fd(fd) {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret(raw3(libc::SYS_readv, fd as i64, iov as i64, n as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if sim_fd(fd) {
        point();
        return ret(busy(|| {
            let f = fs();
            let role = f.fds[&fd].role;
            // A pure position query is not a fault point of its own.
            if !(off == 0 && whence == libc::SEEK_CUR) {
                if let Some(Act::Errno(e)) = f.decide(role, Op::Seek, 0) {
                    return -(e as i64);
                }
            }
            let size = f.inodes[f.fds[&fd].inode].bytes as i64;
            let o = f.fds.get_mut(&fd).unwrap();
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => o.pos as i64,
                libc::SEEK_END => size,
                _ => return -(libc::EINVAL as i64),
            };
            if base + off < 0 {
                return -(libc::EINVAL as i64);
            }
            o.pos = (base + off) as u64;
            base + off
        }));
    }
    ret(raw3(libc::SYS_lseek, fd as i64, off, whence as i64))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    if sim_fd(fd) {
        point();
        return ret(busy(|| {
            let f = fs();
            let (role, inode) = (f.fds[&fd].role, f.fds[&fd].inode);
            if let Some(Act::Errno(e)) = f.decide(role, Op::Trunc, 0) {
                return -(e as i64);
            }
            raw3(libc::SYS_ftruncate, f.inodes[inode].fd as i64, len, 0);
            f.inodes[inode].bytes = len as u64;
            0
        })) as i32;
    }
    ret(raw3(libc::SYS_ftruncate, fd as i64, len, 0)) as i32
}
unsafe fn do_sync(fd: i32, nr: i64) -> i32 {
    if sim_fd(fd) {
        point();
        return ret(busy(|| {
            let f = fs();
            let role = f.fds[&fd].role;
            match f.decide(role, Op::Flush, 0) {
                Some(Act::Errno(e)) => -(e as i64),
                _ => 0,
            }
        })) as i32;
    }
    ret(raw3(nr, fd as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    do_sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    do_sync(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if sim_fd(fd) {
        busy(|| {
            fs().fds.remove(&fd);
            trace(0xC105E);
        });
    }
    ret(raw3(libc::SYS_close, fd as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: i32) -> i32 {
    let r = ret(raw3(libc::SYS_dup, fd as i64, 0, 0)) as i32;
    if r >= 0 && sim_fd(fd) {
        busy(|| {
            let f = fs();
            let o = &f.fds[&fd];
            let n = OpenFile { inode: o.inode, pos: o.pos, append: o.append, role: o.role };
            f.fds.insert(r, n);
        });
    }
    r
}
unsafe fn do_unlink(path: *const c_char) -> i64 {
    let p = CStr::from_ptr(path).to_string_lossy().into_owned();
    if !simulated() {
        return raw3(libc::SYS_unlink, path as i64, 0, 0);
    }
    if !p.starts_with("/simfs") {
        busy(|| fs().stats.escapes.push(p.clone()));
        return -(libc::EACCES as i64);
    }
    point();
    busy(|| {
        let f = fs();
        // A failing unlink would leave the file by the fault's own definition.
        let _ = f.decide(role_of(&p), Op::Unlink, 0);
        match f.names.remove(&p) {
            Some(_) => 0,
            None => -(libc::ENOENT as i64),
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> i32 {
    ret(do_unlink(path)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: i32, path: *const c_char, flags: i32) -> i32 {
    if simulated() {
        return ret(do_unlink(path)) as i32;
    }
    ret(raw3(libc::SYS_unlinkat, dir as i64, path as i64, flags as i64)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> i32 {
    if simulated() {
        let (a, b) = (
            CStr::from_ptr(a).to_string_lossy().into_owned(),
            CStr::from_ptr(b).to_string_lossy().into_owned(),
        );
        point();
        return ret(busy(|| {
            let f = fs();
            match f.names.remove(&a) {
                Some(i) => {
                    f.inodes[i].role = role_of(&b);
                    f.names.insert(b, i);
                    0
                }
                None => -(libc::ENOENT as i64),
            }
        })) as i32;
    }
    ret(raw3(libc::SYS_rename, a as i64, b as i64, 0)) as i32
}
unsafe fn path_fd(path: *const c_char) -> Option<Result<i32, i64>> {
    if !simulated() {
        return None;
    }
    let p = CStr::from_ptr(path).to_string_lossy().into_owned();
    if !p.starts_with("/simfs") {
        return None;
    }
    Some(busy(|| {
        let f = fs();
        match f.names.get(&p) {
            Some(i) => Ok(f.inodes[*i].fd),
            None if matches!(p.as_str(), "/simfs/tmp" | "/simfs/alt" | "/simfs/out" | "/simfs/media" | "/simfs") => {
                Err(0)
            }
            None => Err(-(libc::ENOENT as i64)),
        }
    }))
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const c_char, flags: i32, mask: u32, out: *mut c_void) -> i32 {
    if !path.is_null() && *path == b'/' as c_char {
        match path_fd(path) {
            Some(Ok(fd)) => {
                return ret(raw6(
                    libc::SYS_statx,
                    fd as i64,
                    b"\0".as_ptr() as i64,
                    libc::AT_EMPTY_PATH as i64,
                    mask as i64,
                    out as i64,
                    0,
                )) as i32
            }
            Some(Err(0)) => {
                return ret(raw6(
                    libc::SYS_statx,
                    libc::AT_FDCWD as i64,
                    b"/\0".as_ptr() as i64,
                    0,
                    mask as i64,
                    out as i64,
                    0,
                )) as i32
            }
            Some(Err(e)) => return ret(e) as i32,
            None => {}
        }
    }
    ret(raw6(libc::SYS_statx, dir as i64, path as i64, flags as i64, mask as i64, out as i64, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: i32, ao: *mut i64, b: i32, bo: *mut i64, len: usize, flags: u32,
) -> isize {
    if simulated() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    ret(raw6(libc::SYS_copy_file_range, a as i64, ao as i64, b as i64, bo as i64, len as i64, flags as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: i32, b: i32, off: *mut i64, n: usize) -> isize {
    if simulated() {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(raw6(libc::SYS_sendfile, a as i64, b as i64, off as i64, n as i64, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: i32, ao: *mut i64, b: i32, bo: *mut i64, n: usize, fl: u32) -> isize {
    if simulated() {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(raw6(libc::SYS_splice, a as i64, ao as i64, b as i64, bo as i64, n as i64, fl as i64)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    if simulated() {
        busy(|| {
            let f = fs();
            let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
            for c in out.chunks_mut(8) {
                let v = f.ent.next().to_le_bytes();
                c.copy_from_slice(&v[..c.len()]);
            }
        });
        return len as isize;
    }
    ret(raw3(libc::SYS_getrandom, buf as i64, len as i64, flags as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if simulated() {
        busy(|| {
            if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
                let t = fs().now();
                (*ts).tv_sec = t.div_euclid(1_000_000_000) as i64;
                (*ts).tv_nsec = t.rem_euclid(1_000_000_000) as i64;
            } else {
                advance_ns(1_000);
                let m = mono_ns();
                (*ts).tv_sec = (m / 1_000_000_000) as i64;
                (*ts).tv_nsec = (m % 1_000_000_000) as i64;
            }
        });
        return 0;
    }
    ret(raw3(libc::SYS_clock_gettime, clk as i64, ts as i64, 0)) as i32
}

// ---------------------------------------------------------------------------
// A user supplied writer with the same fault model.
// ---------------------------------------------------------------------------
pub struct SimWriter {
    pub buf: std::sync::Arc<std::sync::Mutex<Vec<u8>>>,
    pub pos: u64,
}
impl SimWriter {
    pub fn new() -> (SimWriter, std::sync::Arc<std::sync::Mutex<Vec<u8>>>) {
        let b = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
        (SimWriter { buf: b.clone(), pos: 0 }, b)
    }
}
impl std::io::Write for SimWriter {
    fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
        point();
        busy(|| {
            let f = fs();
            let mut n = data.len() as u64;
            match f.decide(Role::Writer, Op::Write, n) {
                Some(Act::Errno(e)) => return Err(std::io::Error::from_raw_os_error(e)),
                Some(Act::Short(k)) => n = n.min(k as u64),
                Some(Act::Zero) => return Ok(0),
                None => {}
            }
            f.charge(Role::Writer, n);
            let mut b = self.buf.lock().unwrap();
            let end = self.pos as usize + n as usize;
            if b.len() < end {
                b.resize(end, 0);
            }
            b[self.pos as usize..end].copy_from_slice(&data[..n as usize]);
            self.pos = end as u64;
            Ok(n as usize)
        })
    }
    fn flush(&mut self) -> std::io::Result<()> {
        point();
        busy(|| match fs().decide(Role::Writer, Op::Flush, 0) {
            Some(Act::Errno(e)) => Err(std::io::Error::from_raw_os_error(e)),
            _ => Ok(()),
        })
    }
}
impl std::io::Seek for SimWriter {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        point();
        busy(|| {
            let query = matches!(p, std::io::SeekFrom::Current(0));
            if !query {
                if let Some(Act::Errno(e)) = fs().decide(Role::Writer, Op::Seek, 0) {
                    return Err(std::io::Error::from_raw_os_error(e));
                }
            }
            let n = match p {
                std::io::SeekFrom::Start(n) => n as i64,
                std::io::SeekFrom::Current(d) => self.pos as i64 + d,
                std::io::SeekFrom::End(d) => self.buf.lock().unwrap().len() as i64 + d,
            };
            if n < 0 {
                return Err(std::io::Error::from_raw_os_error(libc::EINVAL));
            }
            self.pos = n as u64;
            Ok(n as u64)
        })
    }
}

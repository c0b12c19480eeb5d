//! The seams: intercepted libc calls, the allocator, and the thread scheduler.
//!
//! The simulator binaries define `open64`, `read`, `statx`, ... themselves (see [`interpose!`]), so
//! every call the Rust standard library makes on behalf of the code under test arrives here. Calls
//! from threads that are not simulated (or from the simulator itself) pass straight through.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

use serde::{Deserialize, Serialize};

use crate::rng::{mix, Rng};

// ---------------------------------------------------------------------------------------------
// raw system calls

#[allow(clippy::too_many_arguments)]
unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

unsafe fn ret(r: c_long) -> c_long {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

unsafe fn fail(errno: c_int) -> c_long {
    *libc::__errno_location() = errno;
    -1
}

fn futex_wait(w: &AtomicU32, val: u32) {
    unsafe {
        raw(libc::SYS_futex, w.as_ptr() as c_long, libc::FUTEX_WAIT as c_long, val as c_long, 0, 0, 0);
    }
}
fn futex_wake(w: &AtomicU32) {
    unsafe {
        raw(libc::SYS_futex, w.as_ptr() as c_long, libc::FUTEX_WAKE as c_long, i32::MAX as c_long, 0, 0, 0);
    }
}

// ---------------------------------------------------------------------------------------------
// per-thread state

thread_local! {
    /// Index of the simulated thread, -1 outside simulation.
    static TID: Cell<i32> = const { Cell::new(-1) };
    /// > 0 while simulator code runs: nothing is intercepted.
    static GUARD: Cell<u32> = const { Cell::new(0) };
    /// Seed for `getrandom` (hash keys) on this thread; 0 = not simulated.
    static HASHSEED: Cell<u64> = const { Cell::new(0) };
    /// What else differs between processes: process id and clock.
    static IDENTITY: Cell<u64> = const { Cell::new(0) };
}

struct Guard;
impl Guard {
    fn new() -> Guard {
        GUARD.with(|g| g.set(g.get() + 1));
        Guard
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        GUARD.with(|g| g.set(g.get() - 1));
    }
}

fn simulated() -> bool {
    TID.with(|t| t.get()) >= 0 && GUARD.with(|g| g.get()) == 0
}

/// Runs simulator code on a simulated thread without interception.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let _g = Guard::new();
    f()
}

// ---------------------------------------------------------------------------------------------
// file faults

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Call {
    Open,
    Read,
    Stat,
    Realpath,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FsAct {
    /// The call fails with this errno.
    Errno(i32),
    /// The call is interrupted (EINTR) and has to be repeated.
    Eintr,
    /// At most this many bytes are delivered.
    Short(u32),
    /// The file appears to end here.
    Eof,
    /// One delivered byte is flipped: offset in the delivered chunk, xor mask.
    Flip(u32, u8),
    /// `stat` reports this size.
    Size(u32),
}

impl FsAct {
    pub fn name(&self, c: Call) -> &'static str {
        match (c, self) {
            (Call::Open, FsAct::Eintr) => "open_eintr",
            (Call::Open, _) => "open_error",
            (Call::Read, FsAct::Eintr) => "read_eintr",
            (Call::Read, FsAct::Errno(_)) => "read_error",
            (Call::Read, FsAct::Short(_)) => "read_short",
            (Call::Read, FsAct::Eof) => "read_early_eof",
            (Call::Read, FsAct::Flip(..)) => "read_flipped_byte",
            (Call::Read, _) => "read_other",
            (Call::Stat, FsAct::Size(_)) => "stat_wrong_size",
            (Call::Stat, _) => "stat_error",
            (Call::Realpath, _) => "realpath_error",
        }
    }
}

/// Fault at the nth call (counted per kind of call, per thread-independent plan).
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct FsFault {
    pub call: Call,
    pub nth: u32,
    pub act: FsAct,
}

#[derive(Clone, Debug, Default)]
pub struct FileLog {
    pub path: Vec<u8>,
    pub flags: i32,
    pub fd: i32,
    pub open_errno: i32,
    pub data: Vec<u8>,
    /// The last read returned 0.
    pub eof: bool,
    pub read_errno: i32,
    pub closed: bool,
    pub tampered: bool,
}

#[derive(Default)]
pub struct FsState {
    pub faults: Vec<FsFault>,
    pub counts: [u32; 4],
    pub files: Vec<FileLog>,
    /// (call, act) of faults that actually fired, with the path they hit.
    pub fired: Vec<(Call, FsAct, Vec<u8>)>,
    /// Change to this directory (index into `chdirs`) at the nth open.
    pub chdirs: Vec<(u32, std::ffi::CString)>,
    pub realpaths: Vec<(Vec<u8>, i32)>,
    pub opens: u32,
}

struct Shared<T>(UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Shared<T> {}

static FS: Shared<FsState> = Shared(UnsafeCell::new(None));

/// Installs a file fault plan. Only one simulated thread runs at a time, so access is exclusive.
pub fn fs_install(st: FsState) {
    unsafe { *FS.0.get() = Some(st) }
}
pub fn fs_take() -> FsState {
    unsafe { (*FS.0.get()).take().unwrap_or_default() }
}

fn fs_fault(st: &mut FsState, call: Call, path: &[u8]) -> Option<FsAct> {
    let idx = call as usize;
    let n = st.counts[idx];
    st.counts[idx] += 1;
    let pos = st.faults.iter().position(|f| f.call == call && f.nth == n)?;
    let act = st.faults[pos].act.clone();
    st.fired.push((call, act.clone(), path.to_vec()));
    Some(act)
}

pub unsafe fn i_open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if simulated() {
        yield_point(1);
        let _g = Guard::new();
        if let Some(st) = (*FS.0.get()).as_mut() {
            let p = CStr::from_ptr(path).to_bytes().to_vec();
            let n = st.opens;
            st.opens += 1;
            for (at, dir) in &st.chdirs {
                if *at == n {
                    raw(libc::SYS_chdir, dir.as_ptr() as c_long, 0, 0, 0, 0, 0);
                }
            }
            match fs_fault(st, Call::Open, &p) {
                Some(FsAct::Errno(e)) => {
                    st.files.push(FileLog { path: p, flags, fd: -1, open_errno: e, closed: true, ..Default::default() });
                    return fail(e) as c_int;
                }
                Some(FsAct::Eintr) => return fail(libc::EINTR) as c_int,
                _ => {}
            }
            let r = raw(libc::SYS_open, path as c_long, flags as c_long, mode as c_long, 0, 0, 0);
            let mut log = FileLog { path: p, flags, fd: r as i32, ..Default::default() };
            if r < 0 {
                log.open_errno = -r as i32;
                log.closed = true;
            }
            st.files.push(log);
            return ret(r) as c_int;
        }
    }
    ret(raw(libc::SYS_open, path as c_long, flags as c_long, mode as c_long, 0, 0, 0)) as c_int
}

pub unsafe fn i_read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if simulated() {
        yield_point(2);
        let _g = Guard::new();
        if let Some(st) = (*FS.0.get()).as_mut() {
            if let Some(i) = st.files.iter().rposition(|f| f.fd == fd && !f.closed) {
                if n == 0 {
                    return 0;
                }
                let path = st.files[i].path.clone();
                let mut want = n;
                let mut flip = None;
                match fs_fault(st, Call::Read, &path) {
                    Some(FsAct::Errno(e)) => {
                        st.files[i].read_errno = e;
                        return fail(e) as isize;
                    }
                    Some(FsAct::Eintr) => return fail(libc::EINTR) as isize,
                    Some(FsAct::Short(k)) => want = want.min(k.max(1) as usize),
                    Some(FsAct::Eof) => {
                        st.files[i].tampered = true;
                        st.files[i].eof = true;
                        return 0;
                    }
                    Some(FsAct::Flip(o, m)) => flip = Some((o, m)),
                    _ => {}
                }
                if st.files[i].tampered && st.files[i].eof {
                    return 0;
                }
                let r = raw(libc::SYS_read, fd as c_long, buf as c_long, want as c_long, 0, 0, 0);
                if r > 0 {
                    let sl = std::slice::from_raw_parts_mut(buf as *mut u8, r as usize);
                    if let Some((o, m)) = flip {
                        sl[o as usize % r as usize] ^= m.max(1);
                        st.files[i].tampered = true;
                    }
                    st.files[i].data.extend_from_slice(sl);
                    st.files[i].eof = false;
                } else if r == 0 {
                    st.files[i].eof = true;
                } else {
                    st.files[i].read_errno = -r as i32;
                }
                return ret(r) as isize;
            }
        }
    }
    ret(raw(libc::SYS_read, fd as c_long, buf as c_long, n as c_long, 0, 0, 0)) as isize
}

pub unsafe fn i_statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut c_void) -> c_int {
    let mut size = None;
    if simulated() {
        let _g = Guard::new();
        if let Some(st) = (*FS.0.get()).as_mut() {
            match fs_fault(st, Call::Stat, b"") {
                Some(FsAct::Errno(e)) => return fail(e) as c_int,
                Some(FsAct::Size(s)) => size = Some(s),
                _ => {}
            }
        }
    }
    let r = raw(libc::SYS_statx, dirfd as c_long, path as c_long, flags as c_long, mask as c_long, buf as c_long, 0);
    if r == 0 {
        if let Some(s) = size {
            (*(buf as *mut libc::statx)).stx_size = s as u64;
        }
    }
    ret(r) as c_int
}

pub unsafe fn i_close(fd: c_int) -> c_int {
    if simulated() {
        let _g = Guard::new();
        if let Some(st) = (*FS.0.get()).as_mut() {
            if let Some(f) = st.files.iter_mut().rev().find(|f| f.fd == fd && !f.closed) {
                f.closed = true;
            }
        }
    }
    ret(raw(libc::SYS_close, fd as c_long, 0, 0, 0, 0, 0)) as c_int
}

type RealpathFn = unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char;

pub unsafe fn i_realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    static REAL: AtomicUsize = AtomicUsize::new(0);
    if REAL.load(SeqCst) == 0 {
        let p = libc::dlsym(libc::RTLD_NEXT, c"realpath".as_ptr());
        REAL.store(p as usize, SeqCst);
    }
    if simulated() {
        let _g = Guard::new();
        if let Some(st) = (*FS.0.get()).as_mut() {
            let p = CStr::from_ptr(path).to_bytes().to_vec();
            if let Some(FsAct::Errno(e)) = fs_fault(st, Call::Realpath, &p) {
                st.realpaths.push((p, e));
                fail(e);
                return std::ptr::null_mut();
            }
            st.realpaths.push((p, 0));
        }
    }
    let f: RealpathFn = std::mem::transmute(REAL.load(SeqCst));
    f(path, out)
}

pub unsafe fn i_getrandom(buf: *mut c_void, n: usize, flags: u32) -> isize {
    let s = HASHSEED.with(|h| h.get());
    if s != 0 {
        let mut z = s;
        for i in 0..n {
            if i % 8 == 0 {
                z = mix(z);
            }
            *(buf as *mut u8).add(i) = (z >> (8 * (i % 8))) as u8;
        }
        HASHSEED.with(|h| h.set(mix(z) | 1));
        return n as isize;
    }
    ret(raw(libc::SYS_getrandom, buf as c_long, n as c_long, flags as c_long, 0, 0, 0)) as isize
}

#[allow(clippy::too_many_arguments)]
pub unsafe fn i_syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_futex && simulated() {
        let op = b as c_int & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let _g = Guard::new();
            let word = &*(a as *const AtomicU32);
            if word.load(SeqCst) as i32 != c as i32 {
                return fail(libc::EAGAIN);
            }
            SCHED.futex_waits.fetch_add(1, SeqCst);
            if d != 0 {
                // timed wait: the simulated clock jumps, the wait times out
                return fail(libc::ETIMEDOUT);
            }
            blocked_switch();
            return 0; // spurious wake-ups are allowed; the caller re-checks
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            // every simulated waiter polls under the scheduler; wake real ones too
            return ret(raw(n, a, b, c, d, e, f));
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

/// Simulated time: a start that depends on the process, one microsecond per step, and what was slept.
static SLEPT: AtomicU64 = AtomicU64::new(0);

pub unsafe fn i_clock_gettime(clock: c_int, ts: *mut libc::timespec) -> c_int {
    if simulated() {
        let start = IDENTITY.with(|i| i.get()) % (40 * 365 * 86_400);
        let ns = now() * 1000 + SLEPT.load(SeqCst) + start.wrapping_mul(7919) % 1_000_000_000;
        (*ts).tv_sec = (946_684_800 + start + ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, clock as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}

pub unsafe fn i_getpid() -> c_int {
    if simulated() {
        return 2 + (IDENTITY.with(|i| i.get()) >> 20) as c_int % 32_000;
    }
    raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as c_int
}

/// The simulated clock jumps; another thread goes on.
pub unsafe fn i_sleep(clock: c_int, flags: c_int, ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if simulated() {
        let _g = Guard::new();
        if flags == 0 {
            SLEPT.fetch_add((*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64, SeqCst);
        }
        blocked_switch();
        return 0;
    }
    // clock_nanosleep returns the error number
    -raw(libc::SYS_clock_nanosleep, clock as c_long, flags as c_long, ts as c_long, rem as c_long, 0, 0) as c_int
}

pub unsafe fn i_sched_yield() -> c_int {
    if simulated() {
        let _g = Guard::new();
        blocked_switch();
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

#[macro_export]
macro_rules! interpose {
    () => {
        #[global_allocator]
        static SIM_ALLOC: $crate::sys::SimAlloc = $crate::sys::SimAlloc;
        mod sim_interpose {
            use std::os::raw::{c_char, c_int, c_long, c_void};
            #[no_mangle]
            pub unsafe extern "C" fn open64(p: *const c_char, f: c_int, m: u32) -> c_int {
                $crate::sys::i_open(p, f, m)
            }
            #[no_mangle]
            pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
                $crate::sys::i_read(fd, b, n)
            }
            #[no_mangle]
            pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, m: u32, b: *mut c_void) -> c_int {
                $crate::sys::i_statx(d, p, f, m, b)
            }
            #[no_mangle]
            pub unsafe extern "C" fn close(fd: c_int) -> c_int {
                $crate::sys::i_close(fd)
            }
            #[no_mangle]
            pub unsafe extern "C" fn realpath(p: *const c_char, o: *mut c_char) -> *mut c_char {
                $crate::sys::i_realpath(p, o)
            }
            #[no_mangle]
            pub unsafe extern "C" fn getrandom(b: *mut c_void, n: usize, f: u32) -> isize {
                $crate::sys::i_getrandom(b, n, f)
            }
            #[no_mangle]
            pub unsafe extern "C" fn clock_gettime(c: c_int, ts: *mut libc::timespec) -> c_int {
                $crate::sys::i_clock_gettime(c, ts)
            }
            #[no_mangle]
            pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
                $crate::sys::i_sleep(c, f, ts, rem)
            }
            #[no_mangle]
            pub unsafe extern "C" fn sched_yield() -> c_int {
                $crate::sys::i_sched_yield()
            }
            #[no_mangle]
            pub unsafe extern "C" fn getpid() -> c_int {
                $crate::sys::i_getpid()
            }
            #[no_mangle]
            pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
                $crate::sys::i_syscall(n, a, b, c, d, e, f)
            }
        }
    };
}

// ---------------------------------------------------------------------------------------------
// allocator: every allocation of a simulated thread is a scheduling point

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if simulated() {
            yield_point(3);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        if simulated() {
            yield_point(4);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if simulated() {
            yield_point(5);
        }
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------------------------------------
// scheduler: real threads, one runs at a time, switched only at intercepted points

pub const MAXT: usize = 8;
/// Exit status of a simulator process that gave up inside a run.
pub const EXIT_DEADLOCK: i32 = 97;
pub const EXIT_STEPS: i32 = 98;
pub const STEP_LIMIT: u64 = 50_000_000;

struct Sched {
    baton: [AtomicU32; MAXT],
    done: [AtomicBool; MAXT],
    n: AtomicUsize,
    steps: AtomicU64,
    next_switch: AtomicUsize,
    taken: AtomicU64,
    trace: AtomicU64,
    futex_waits: AtomicU64,
    idle_spins: AtomicU64,
    main: AtomicU32,
}
#[allow(clippy::declare_interior_mutable_const)]
const B0: AtomicU32 = AtomicU32::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const D0: AtomicBool = AtomicBool::new(true);
static SCHED: Sched = Sched {
    baton: [B0; MAXT],
    done: [D0; MAXT],
    n: AtomicUsize::new(0),
    steps: AtomicU64::new(0),
    next_switch: AtomicUsize::new(0),
    taken: AtomicU64::new(0),
    trace: AtomicU64::new(0),
    futex_waits: AtomicU64::new(0),
    idle_spins: AtomicU64::new(0),
    main: AtomicU32::new(0),
};

/// (step, choice): at this scheduling point, continue with the choice-th other live thread.
pub type Switches = Vec<(u64, u8)>;
static PLAN: Shared<Switches> = Shared(UnsafeCell::new(None));

#[derive(Clone, Debug, Default)]
pub struct SchedReport {
    pub steps: u64,
    pub switches: u64,
    pub trace: u64,
    pub futex_waits: u64,
}

fn others(me: usize) -> ([usize; MAXT], usize) {
    let n = SCHED.n.load(SeqCst);
    let mut o = [0; MAXT];
    let mut k = 0;
    for d in 1..n.max(1) {
        let t = (me + d) % n;
        if !SCHED.done[t].load(SeqCst) {
            o[k] = t;
            k += 1;
        }
    }
    (o, k)
}

fn hand_over(me: usize, to: usize) {
    let t = SCHED.trace.load(SeqCst);
    SCHED.trace.store(mix(t ^ mix(SCHED.steps.load(SeqCst)) ^ to as u64), SeqCst);
    SCHED.taken.fetch_add(1, SeqCst);
    SCHED.baton[me].store(0, SeqCst);
    SCHED.baton[to].store(1, SeqCst);
    futex_wake(&SCHED.baton[to]);
    while SCHED.baton[me].load(SeqCst) == 0 {
        futex_wait(&SCHED.baton[me], 0);
    }
}

/// A scheduling point of a simulated thread.
pub fn yield_point(_kind: u8) {
    let me = TID.with(|t| t.get());
    if me < 0 || GUARD.with(|g| g.get()) > 0 {
        return;
    }
    let me = me as usize;
    let _g = Guard::new();
    SCHED.idle_spins.store(0, SeqCst);
    let step = SCHED.steps.fetch_add(1, SeqCst) + 1;
    if step > STEP_LIMIT {
        unsafe { libc::_exit(EXIT_STEPS) }
    }
    let plan = unsafe { (*PLAN.0.get()).as_ref() };
    let Some(plan) = plan else { return };
    let k = SCHED.next_switch.load(SeqCst);
    if k < plan.len() && plan[k].0 <= step {
        SCHED.next_switch.store(k + 1, SeqCst);
        let (o, cnt) = others(me);
        if cnt > 0 {
            hand_over(me, o[plan[k].1 as usize % cnt]);
        }
    }
}

fn blocked_switch() {
    let me = TID.with(|t| t.get()) as usize;
    let spins = SCHED.idle_spins.fetch_add(1, SeqCst);
    if spins > 20_000 {
        unsafe { libc::_exit(EXIT_DEADLOCK) }
    }
    let (o, cnt) = others(me);
    if cnt > 0 {
        hand_over(me, o[0]);
    }
}

/// Steps taken so far by the run in progress (global event sequence number).
pub fn now() -> u64 {
    SCHED.steps.load(SeqCst)
}

/// Runs the bodies as simulated threads under the given switches. `hash_seeds[i]` seeds the hash
/// keys of thread i. Thread 0 starts; when a thread ends the next live one continues.
pub fn run_threads<'env>(
    bodies: Vec<Box<dyn FnOnce() + Send + 'env>>,
    switches: &Switches,
    hash_seeds: &[u64],
) -> SchedReport {
    let n = bodies.len();
    assert!(n > 0 && n <= MAXT);
    // threads of one process share its identity
    let same_process = n > 1;
    let first = mix(hash_seeds.first().copied().unwrap_or(1) ^ 0x1d);
    SLEPT.store(0, SeqCst);
    SCHED.n.store(n, SeqCst);
    for i in 0..MAXT {
        SCHED.baton[i].store(0, SeqCst);
        SCHED.done[i].store(i >= n, SeqCst);
    }
    SCHED.steps.store(0, SeqCst);
    SCHED.next_switch.store(0, SeqCst);
    SCHED.taken.store(0, SeqCst);
    SCHED.trace.store(0, SeqCst);
    SCHED.futex_waits.store(0, SeqCst);
    SCHED.idle_spins.store(0, SeqCst);
    SCHED.main.store(0, SeqCst);
    unsafe { *PLAN.0.get() = Some(switches.clone()) }
    std::thread::scope(|s| {
        let mut handles = Vec::new();
        for (i, body) in bodies.into_iter().enumerate() {
            let seed = hash_seeds.get(i).copied().unwrap_or(i as u64 + 1);
            // the main thread of a program has a name, others mostly not
            let b = match mix(seed ^ 0x77) % 5 {
                0 => std::thread::Builder::new().name("main".into()),
                1 => std::thread::Builder::new().name("rustc".into()),
                _ => std::thread::Builder::new(),
            };
            // values nested a hundred levels deep need more than the default in an unoptimised build
            let b = b.stack_size(32 << 20);
            let h = b.spawn_scoped(s, move || {
                while SCHED.baton[i].load(SeqCst) == 0 {
                    futex_wait(&SCHED.baton[i], 0);
                }
                HASHSEED.with(|h| h.set(mix(seed) | 1));
                IDENTITY.with(|h| h.set(if same_process { first } else { mix(seed ^ 0x1d) }));
                TID.with(|t| t.set(i as i32));
                body();
                TID.with(|t| t.set(-1));
                SCHED.done[i].store(true, SeqCst);
                let (o, cnt) = others(i);
                if cnt > 0 {
                    SCHED.baton[o[0]].store(1, SeqCst);
                    futex_wake(&SCHED.baton[o[0]]);
                } else {
                    SCHED.main.store(1, SeqCst);
                    futex_wake(&SCHED.main);
                }
            });
            handles.push(h.expect("thread"));
        }
        SCHED.baton[0].store(1, SeqCst);
        futex_wake(&SCHED.baton[0]);
        while SCHED.main.load(SeqCst) == 0 {
            futex_wait(&SCHED.main, 0);
        }
        for h in handles {
            let _ = h.join();
        }
    });
    unsafe { *PLAN.0.get() = None }
    SchedReport {
        steps: SCHED.steps.load(SeqCst),
        switches: SCHED.taken.load(SeqCst),
        trace: SCHED.trace.load(SeqCst),
        futex_waits: SCHED.futex_waits.load(SeqCst),
    }
}

/// Runs one operation on a fresh simulated thread (fresh hash keys from `hash_seed`), catching panics.
pub fn run_single<T: Send>(hash_seed: u64, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    let mut out: Option<Result<T, String>> = None;
    {
        let slot = &mut out;
        let body: Box<dyn FnOnce() + Send> = Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            outside(|| *slot = Some(r.map_err(panic_text)));
        });
        run_threads(vec![body], &Vec::new(), &[hash_seed]);
    }
    out.unwrap_or_else(|| Err("operation did not finish".into()))
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    outside(|| {
        if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

/// Random switches for a run of about `steps` steps.
pub fn random_switches(rng: &mut Rng, steps: u64, count: usize) -> Switches {
    let mut v: Switches = (0..count)
        .map(|_| (1 + rng.next() % steps.max(1), rng.below(MAXT) as u8))
        .collect();
    v.sort();
    v
}

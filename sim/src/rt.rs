//! The simulator's runtime: the seams for entropy, clock, memory and thread scheduling, and the
//! choice sequence every run is a function of.
//!
//! The binary defines `getrandom`, `syscall` and `clock_gettime`. On a thread that belongs to a
//! simulated run they are answered from the run's context; everywhere else they go to the kernel.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};

// ------------------------------------------------------------------------------------------------
// PRNG

#[derive(Clone)]
pub struct Prng {
    s: [u64; 2],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Prng {
    pub fn new(seed: u64) -> Prng {
        Prng {
            s: [mix(seed), mix(seed ^ 0xdead_beef_cafe_f00d) | 1],
        }
    }
    /// xorshift128+, finished with a multiply-mix so that all bits are usable.
    pub fn next(&mut self) -> u64 {
        let mut a = self.s[0];
        let b = self.s[1];
        self.s[0] = b;
        a ^= a << 23;
        self.s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        mix(self.s[1].wrapping_add(b))
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn fill(&mut self, buf: &mut [u8]) {
        for c in buf.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

// ------------------------------------------------------------------------------------------------
// Context of a run

pub const MAX_THREADS: usize = 8;

pub struct EntropyPlan {
    /// Number of the entropy call (counted from when the plan was set) that fails hard, if any.
    pub fail_call: Option<u64>,
    pub fail_errno: i32,
    /// Whether calls may deliver fewer bytes than asked for, and be interrupted.
    pub short: bool,
    pub eintr: bool,
    /// Interruptions still to come in a row, and how many long rows a run may see.
    pub burst: u64,
    pub storm: u64,
    pub calls: u64,
    pub failed: bool,
    pub rng: Prng,
}

pub struct Clock {
    pub secs: i64,
    pub nanos: i64,
    /// Advance per reading, in nanoseconds.
    pub tick: i64,
    /// Readings after which the clock jumps, and by how much (seconds).
    pub jumps: Vec<(u64, i64)>,
    pub readings: u64,
    pub log: Vec<(i64, u32)>,
    pub logging: bool,
    pub covered: u128,
}

pub struct Sched {
    pub active: bool,
    pub n: usize,
    pub done: [bool; MAX_THREADS],
    pub waiting: [bool; MAX_THREADS],
    pub steps: u64,
    pub switches: u64,
    /// Probability of a switch at a step, in 1/65536; and explicit preemption points.
    pub p: u64,
    pub points: Vec<u64>,
    pub alloc_points: bool,
    /// Steps at the edges between the library's basic blocks and at its accesses to statics.
    pub edges: bool,
    /// Probabilities there, in 1/65536: at an edge seldom reached so far, at another, at an access.
    pub p_rare: u64,
    pub p_edge: u64,
    pub p_static: u64,
    pub visits: Vec<u8>,
    pub edges_seen: u64,
    /// Preempted threads may stay away until a step.
    pub freeze: bool,
    pub frozen: [u64; MAX_THREADS],
    pub rng: Prng,
    pub stalled: u64,
    pub deadlock: bool,
    pub sig: u64,
    pub trace: Vec<(u64, u8)>,
}

pub struct Ctx {
    // choices
    pub rng: Prng,
    pub replay: Option<Vec<u64>>,
    pub pos: usize,
    pub rec: Vec<u64>,
    pub rec_fd: i32,
    // entropy
    pub ent: Prng,
    pub hash: Prng,
    pub ent_plan: EntropyPlan,
    pub ent_bytes: u64,
    // clock
    pub clock: Clock,
    /// A processor without AES instructions.
    pub plain_cpu: bool,
    // memory
    pub mem_cur: i64,
    pub mem_peak: i64,
    /// The lowest address of the stack seen at an allocation since the meter was started.
    pub stack_low: usize,
    pub mem_limit: i64,
    // threads
    pub sched: Sched,
    // record
    pub counts: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub sig: u64,
    pub nontrivial: bool,
    pub steps: u64,
    pub panic_msg: String,
    /// What the process wrote to files other than through the simulated ones.
    pub printed: Vec<u8>,
}

thread_local! {
    static CTX: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
    static TID: Cell<usize> = const { Cell::new(0) };
    static IN_RT: Cell<bool> = const { Cell::new(false) };
}

/// The token: which simulated thread may run; -1 is the coordinator.
static TOKEN: AtomicI32 = AtomicI32::new(-1);
static WAKE: [AtomicI32; MAX_THREADS + 1] = [const { AtomicI32::new(0) }; MAX_THREADS + 1];

#[inline]
fn ctx_ptr() -> *mut Ctx {
    CTX.try_with(|c| c.get()).unwrap_or(std::ptr::null_mut())
}

/// The current run's context. Panics outside a run.
pub fn ctx() -> &'static mut Ctx {
    let p = ctx_ptr();
    assert!(!p.is_null(), "no simulation context on this thread");
    unsafe { &mut *p }
}

pub fn has_ctx() -> bool {
    !ctx_ptr().is_null()
}

impl Ctx {
    pub fn new(seed: u64, replay: Option<Vec<u64>>) -> Box<Ctx> {
        Box::new(Ctx {
            rng: Prng::new(seed),
            replay,
            pos: 0,
            rec: Vec::new(),
            rec_fd: -1,
            ent: Prng::new(1),
            hash: Prng::new(2),
            ent_plan: EntropyPlan {
                fail_call: None,
                fail_errno: 0,
                short: false,
                eintr: false,
                burst: 0,
                storm: 20,
                calls: 0,
                failed: false,
                rng: Prng::new(3),
            },
            ent_bytes: 0,
            clock: Clock {
                secs: 1_600_000_000,
                nanos: 0,
                tick: 1000,
                jumps: Vec::new(),
                readings: 0,
                log: Vec::new(),
                logging: false,
                covered: 0,
            },
            plain_cpu: false,
            mem_cur: 0,
            mem_peak: 0,
            stack_low: usize::MAX,
            mem_limit: i64::MAX,
            sched: Sched {
                active: false,
                n: 0,
                done: [false; MAX_THREADS],
                waiting: [false; MAX_THREADS],
                steps: 0,
                switches: 0,
                p: 0,
                points: Vec::new(),
                alloc_points: false,
                edges: false,
                p_rare: 0,
                p_edge: 0,
                p_static: 0,
                visits: Vec::new(),
                edges_seen: 0,
                freeze: false,
                frozen: [0; MAX_THREADS],
                rng: Prng::new(4),
                stalled: 0,
                deadlock: false,
                sig: 0,
                trace: Vec::new(),
            },
            counts: BTreeMap::new(),
            trace: Vec::new(),
            sig: 0,
            nontrivial: false,
            steps: 0,
            panic_msg: String::new(),
            printed: Vec::new(),
        })
    }
}

pub fn set_ctx(p: *mut Ctx, tid: usize) {
    TID.with(|t| t.set(tid));
    CTX.with(|c| c.set(p));
}

// ------------------------------------------------------------------------------------------------
// Choices

/// Draws a choice below `n`.
pub fn draw(n: u64) -> u64 {
    let c = ctx();
    let v = match c.replay {
        Some(ref list) => {
            let v = list.get(c.pos).copied().unwrap_or(0);
            if n == 0 {
                0
            } else {
                v.min(n - 1)
            }
        }
        None => c.rng.below(n.max(1)),
    };
    c.pos += 1;
    c.rec.push(v);
    if c.rec_fd >= 0 {
        let b = v.to_le_bytes();
        unsafe { libc::write(c.rec_fd, b.as_ptr() as *const libc::c_void, 8) };
    }
    v
}

/// A draw in which 0 (the simplest choice) is taken with probability 1 - num/den.
pub fn chance(num: u64, den: u64) -> bool {
    // The simple outcome "false" is the smallest choice.
    draw(den) >= den - num
}

pub fn pick<'a, T>(list: &'a [T]) -> &'a T {
    &list[draw(list.len() as u64) as usize]
}

/// A size: mostly small, sometimes at a boundary, with 0 the simplest.
pub fn size(max: u64) -> u64 {
    match draw(8) {
        0..=4 => draw(8.min(max + 1)),
        5..=6 => draw(64.min(max + 1)),
        _ => draw(max + 1),
    }
}

pub fn seed_draw() -> u64 {
    // Small seeds shrink well, and 2^32 of them are plenty.
    draw(1 << 32)
}

pub fn count(what: &'static str) {
    *ctx().counts.entry(what).or_insert(0) += 1;
}

pub fn count_n(what: &'static str, n: u64) {
    if n > 0 {
        *ctx().counts.entry(what).or_insert(0) += n;
    }
}

/// Adds an event to the run's signature (its coverage identity).
pub fn sig(what: &str, val: u64) {
    let c = ctx();
    c.sig = mix(c.sig ^ hash_bytes(what.as_bytes()).wrapping_add(mix(val)));
}

/// The run has exercised and judged what the property is about.
pub fn judged() {
    ctx().nontrivial = true;
}

/// Adds a line to the readable trace of the run.
pub fn note<S: Into<String>>(s: S) {
    let c = ctx();
    if c.trace.len() < 400 {
        c.trace.push(s.into());
    }
}

// ------------------------------------------------------------------------------------------------
// Raw system calls

#[inline]
unsafe fn raw_syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        out("rcx") _, out("r11") _,
        options(nostack)
    );
    ret
}

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

unsafe fn finish(ret: i64) -> i64 {
    if (-4095..0).contains(&ret) {
        set_errno(-ret as i32);
        -1
    } else {
        ret
    }
}

fn futex_wait(a: &AtomicI32, val: i32) {
    unsafe {
        raw_syscall6(libc::SYS_futex, a as *const _ as i64, 128, val as i64, 0, 0, 0);
    }
}

fn futex_wake(a: &AtomicI32) {
    unsafe {
        raw_syscall6(libc::SYS_futex, a as *const _ as i64, 129, i32::MAX as i64, 0, 0, 0);
    }
}

pub fn die(code: i32) -> ! {
    unsafe {
        raw_syscall6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}

// ------------------------------------------------------------------------------------------------
// Entropy

unsafe fn sim_getrandom(p: *mut Ctx, buf: *mut u8, len: usize, flags: u32) -> isize {
    if len == 0 {
        return 0;
    }
    let c = &mut *p;
    let out = std::slice::from_raw_parts_mut(buf, len);
    if flags & 4 != 0 {
        // GRND_INSECURE: the keys of std's hash maps.
        c.hash.fill(out);
        return len as isize;
    }
    yield_point(1);
    let plan = &mut c.ent_plan;
    plan.calls += 1;
    if plan.fail_call.map_or(false, |n| plan.calls > n) {
        plan.failed = true;
        *c.counts.entry("entropy_hard_failure").or_insert(0) += 1;
        set_errno(plan.fail_errno);
        return -1;
    }
    if plan.eintr && (plan.burst > 0 || plan.rng.below(3) == 0) {
        if plan.burst > 0 {
            plan.burst -= 1;
        } else if plan.storm > 0 && plan.rng.below(30) == 0 {
            plan.burst = (4 << plan.rng.below(7)) + plan.rng.below(4);
            plan.storm -= 1;
        }
        *c.counts.entry("entropy_eintr").or_insert(0) += 1;
        set_errno(libc::EINTR);
        return -1;
    }
    let mut n = len;
    if plan.short && len > 1 && plan.rng.below(3) != 0 {
        n = 1 + plan.rng.below(len as u64 - 1) as usize;
        *c.counts.entry("entropy_short_read").or_insert(0) += 1;
    }
    c.ent.fill(&mut out[..n]);
    c.ent_bytes += n as u64;
    n as isize
}

/// Replaces the libc function for this process.
extern "C" {
    fn __real_rust_crypto_util_supports_aesni() -> u32;
}

/// Asked by the library and by rust-crypto before they use AES instructions.
#[no_mangle]
pub unsafe extern "C" fn __wrap_rust_crypto_util_supports_aesni() -> u32 {
    let p = ctx_ptr();
    if !p.is_null() && (*p).plain_cpu {
        return 0;
    }
    __real_rust_crypto_util_supports_aesni()
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
    let p = ctx_ptr();
    if p.is_null() {
        return finish(raw_syscall6(
            libc::SYS_getrandom,
            buf as i64,
            len as i64,
            flags as i64,
            0,
            0,
            0,
        )) as isize;
    }
    sim_getrandom(p, buf as *mut u8, len, flags)
}

/// Replaces the libc function for this process (the variadic arguments of `syscall` are passed in
/// registers exactly like those of this signature on this platform).
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: i64,
    a: i64,
    b: i64,
    c: i64,
    d: i64,
    e: i64,
    f: i64,
) -> i64 {
    let p = ctx_ptr();
    if !p.is_null() {
        if n == libc::SYS_getrandom {
            return sim_getrandom(p, a as *mut u8, b as usize, c as u32) as i64;
        }
        if n == libc::SYS_futex && (*p).sched.active {
            let op = (b & 0x7f) as i32;
            // FUTEX_WAIT and FUTEX_WAIT_BITSET: another simulated thread holds what this one
            // waits for, so let somebody else run and report a spurious wake-up.
            if op == 0 || op == 9 {
                if (*(a as *const AtomicI32)).load(Ordering::SeqCst) == c as i32 {
                    lock_wait();
                }
                set_errno(libc::EAGAIN);
                return -1;
            }
        }
    }
    finish(raw_syscall6(n, a, b, c, d, e, f))
}

// ------------------------------------------------------------------------------------------------
// Clock

pub fn clock_read(p: *mut Ctx) -> (i64, i64) {
    let k = unsafe { &mut (*p).clock };
    let now = (k.secs, k.nanos);
    k.readings += 1;
    if k.logging {
        k.log.push((now.0, now.1 as u32));
    }
    k.advance(k.tick as i128);
    let r = k.readings;
    if let Some(i) = k.jumps.iter().position(|j| j.0 <= r) {
        let (_, by) = k.jumps.remove(i);
        k.secs = (k.secs + by).max(0);
        *unsafe { &mut (*p).counts }.entry("clock_jump").or_insert(0) += 1;
    }
    now
}

impl Clock {
    pub fn advance(&mut self, ns: i128) {
        let mut total = self.secs as i128 * 1_000_000_000 + self.nanos as i128 + ns;
        if total < 0 {
            total = 0;
        }
        self.covered += ns.unsigned_abs();
        self.secs = (total / 1_000_000_000) as i64;
        self.nanos = (total % 1_000_000_000) as i64;
    }
}

/// Replaces the libc function for this process.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let p = ctx_ptr();
    if !p.is_null() && id == libc::CLOCK_REALTIME {
        yield_point(2);
        let (s, n) = clock_read(p);
        (*ts).tv_sec = s;
        (*ts).tv_nsec = n;
        return 0;
    }
    finish(raw_syscall6(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as libc::c_int
}

pub fn real_now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        raw_syscall6(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as i64, 0, 0, 0, 0);
    }
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

// ------------------------------------------------------------------------------------------------
// Output besides the simulated sinks: standard output, standard error and real files

unsafe fn keep_printed(c: &mut Ctx, buf: *const u8, len: usize) {
    if c.printed.len() < 1 << 22 {
        c.printed.extend_from_slice(std::slice::from_raw_parts(buf, len));
    }
    *c.counts.entry("write_beside_the_sink").or_insert(0) += 1;
}

/// Replaces the libc function for this process.
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, len: usize) -> isize {
    let p = ctx_ptr();
    if !p.is_null() && fd != (*p).rec_fd {
        keep_printed(&mut *p, buf as *const u8, len);
        return len as isize;
    }
    finish(raw_syscall6(libc::SYS_write, fd as i64, buf as i64, len as i64, 0, 0, 0)) as isize
}

/// Replaces the libc function for this process.
#[no_mangle]
pub unsafe extern "C" fn writev(fd: libc::c_int, v: *const libc::iovec, n: libc::c_int) -> isize {
    let p = ctx_ptr();
    if !p.is_null() && fd != (*p).rec_fd {
        let mut sum = 0;
        for i in 0..n.max(0) as usize {
            let e = &*v.add(i);
            keep_printed(&mut *p, e.iov_base as *const u8, e.iov_len);
            sum += e.iov_len;
        }
        return sum as isize;
    }
    finish(raw_syscall6(libc::SYS_writev, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
}

/// What was written to standard output, standard error or real files since the last call.
pub fn printed() -> Vec<u8> {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::mem::take(&mut ctx().printed)
}

/// Gives this process a standard output of its own for what the supervisor is told, and nothing
/// for the rest.
pub fn own_output() -> std::io::BufWriter<std::fs::File> {
    use std::os::unix::io::{AsRawFd, FromRawFd};
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
    unsafe {
        let fd = libc::dup(1);
        assert!(fd > 2 && libc::dup2(null.as_raw_fd(), 1) == 1);
        std::io::BufWriter::new(std::fs::File::from_raw_fd(fd))
    }
}

// ------------------------------------------------------------------------------------------------
// Memory

pub struct Meter;

#[global_allocator]
static METER: Meter = Meter;

#[inline]
fn note_alloc(size: usize) {
    let p = ctx_ptr();
    if p.is_null() {
        return;
    }
    let c = unsafe { &mut *p };
    c.mem_cur += size as i64;
    c.stack_low = c.stack_low.min(&p as *const _ as usize);
    if c.mem_cur > c.mem_peak {
        c.mem_peak = c.mem_cur;
        if c.mem_cur > c.mem_limit {
            die(77);
        }
    }
    if c.sched.active && c.sched.alloc_points {
        yield_point(3);
    }
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, l: Layout) {
        let p = ctx_ptr();
        if !p.is_null() {
            (*p).mem_cur -= l.size() as i64;
        }
        System.dealloc(ptr, l)
    }
    unsafe fn realloc(&self, ptr: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() {
            note_alloc(new - l.size());
        } else {
            let p = ctx_ptr();
            if !p.is_null() {
                (*p).mem_cur -= (l.size() - new) as i64;
            }
        }
        System.realloc(ptr, l, new)
    }
}

/// Runs `f` and returns its result with the peak of memory it had in use beyond the start.
pub fn metered<T>(limit: i64, f: impl FnOnce() -> T) -> (T, i64) {
    let base = ctx().mem_cur;
    ctx().mem_peak = base;
    ctx().mem_limit = base.saturating_add(limit);
    let r = f();
    let peak = ctx().mem_peak - base;
    ctx().mem_limit = i64::MAX;
    (r, peak)
}

/// Runs `f` and returns its result with the stack that it had in use at the deepest allocation.
#[inline(never)]
pub fn stack_metered<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let here = 0u8;
    ctx().stack_low = usize::MAX;
    let r = f();
    (r, (&here as *const u8 as usize).saturating_sub(ctx().stack_low))
}

// ------------------------------------------------------------------------------------------------
// Threads

fn me() -> usize {
    TID.with(|t| t.get())
}

fn pass_token(to: usize) {
    TOKEN.store(to as i32, Ordering::SeqCst);
    WAKE[to].fetch_add(1, Ordering::SeqCst);
    futex_wake(&WAKE[to]);
}

fn await_token(id: usize) {
    loop {
        let v = WAKE[id].load(Ordering::SeqCst);
        if TOKEN.load(Ordering::SeqCst) == id as i32 {
            return;
        }
        futex_wait(&WAKE[id], v);
    }
}

/// More than any run takes that ends at all.
const MAX_STEPS: u64 = 150_000_000;

/// A point at which the simulator may let another thread run.
#[inline]
pub fn yield_point(kind: u64) {
    let p = ctx_ptr();
    if p.is_null() {
        return;
    }
    let c = unsafe { &mut *p };
    c.steps += 1;
    if c.steps > MAX_STEPS {
        die(79);
    }
    if !c.sched.active || me() >= c.sched.n {
        return;
    }
    sched_step(c, kind, false);
}

fn lock_wait() {
    let c = ctx();
    if me() < c.sched.n {
        sched_step(c, 4, true);
    }
}

fn sched_step(c: &mut Ctx, kind: u64, blocked: bool) {
    if IN_RT.with(|f| f.replace(true)) {
        return;
    }
    let id = me();
    let s = &mut c.sched;
    s.steps += 1;
    s.waiting[id] = blocked;
    if blocked {
        s.stalled += 1;
        if s.stalled > 10_000 {
            s.deadlock = true;
            die(78);
        }
    } else {
        s.stalled = 0;
    }
    let step = s.steps;
    let p = match kind {
        5 => s.p_edge,
        6 => s.p_static,
        7 => s.p_rare,
        _ => s.p,
    };
    let want = blocked
        || (p > 0 && s.rng.below(65536) < p)
        || s.points.binary_search(&step).is_ok();
    if want {
        if let Some(to) = choose(s, id, blocked) {
            if s.freeze && !blocked && s.rng.below(2) == 0 {
                s.frozen[id] = step + (1 << s.rng.below(20));
            }
            s.switches += 1;
            s.sig = mix(s.sig ^ (to as u64) ^ (kind << 8) ^ (step << 16));
            if s.trace.len() < s.trace.capacity() {
                s.trace.push((step, to as u8));
            }
            pass_token(to);
            await_token(id);
        }
    }
    IN_RT.with(|f| f.set(false));
}

/// Another thread that is neither done nor kept away. One that cannot go on itself makes way for
/// one that does not wait, kept away or not, before another that does.
fn choose(s: &mut Sched, id: usize, must: bool) -> Option<usize> {
    for pass in 0..4 {
        let mut cand = [0usize; MAX_THREADS];
        let mut n = 0;
        for t in 0..s.n {
            let fit = match pass {
                0 => !s.waiting[t] && s.frozen[t] <= s.steps,
                1 => s.frozen[t] <= s.steps,
                2 => !s.waiting[t],
                _ => true,
            };
            let fit = if must && pass == 1 { !s.waiting[t] } else { fit };
            if t != id && !s.done[t] && fit {
                cand[n] = t;
                n += 1;
            }
        }
        if n > 0 {
            return Some(cand[s.rng.below(n as u64) as usize]);
        }
        if !must && pass == 1 {
            break;
        }
    }
    None
}

/// Whether the points the compiler added are in use.
static EDGES: AtomicBool = AtomicBool::new(false);

/// Numbers the edges; called before main, once or more, by the code the compiler adds.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let n = (stop as usize - start as usize) / 4;
    for i in 0..n {
        *start.add(i) = i as u32 + 1;
    }
    EDGE_COUNT.store(n as u64, Ordering::Relaxed);
}

pub static EDGE_COUNT: AtomicU64 = AtomicU64::new(0);

/// At each edge between basic blocks of the library.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *const u32) {
    if EDGES.load(Ordering::Relaxed) {
        edge(*guard as usize);
    }
}

#[cold]
fn edge(id: usize) {
    let p = ctx_ptr();
    if p.is_null() || IN_RT.with(|f| f.get()) {
        return;
    }
    let c = unsafe { &mut *p };
    if me() >= c.sched.n {
        return;
    }
    let v = &mut c.sched.visits[id];
    let rare = *v < 6;
    if rare {
        if *v == 0 {
            c.sched.edges_seen += 1;
        }
        *v += 1;
    }
    sched_step(c, if rare { 7 } else { 5 }, false);
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// At each access to memory in the library; those to what all threads share from the start count.
#[cold]
fn access(addr: usize) {
    let (a, b) = unsafe { (&raw const __data_start as usize, &raw const _end as usize) };
    if addr < a || addr >= b {
        return;
    }
    let p = ctx_ptr();
    if p.is_null() {
        return;
    }
    let c = unsafe { &mut *p };
    if me() < c.sched.n {
        sched_step(c, 6, false);
    }
}

macro_rules! accesses {
    ($($name:ident)*) => {$(
        #[no_mangle]
        pub extern "C" fn $name(addr: usize) {
            if EDGES.load(Ordering::Relaxed) {
                access(addr);
            }
        }
    )*};
}

accesses! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8
    __sanitizer_cov_load16 __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4
    __sanitizer_cov_store8 __sanitizer_cov_store16
}

/// Runs the closures as simulated threads, one at a time, with the scheduler deciding who runs.
pub fn run_threads<T: Send + 'static>(
    bodies: Vec<Box<dyn FnOnce() -> T + Send>>,
) -> Vec<std::thread::Result<T>> {
    let p = ctx_ptr() as usize;
    let n = bodies.len();
    assert!(n <= MAX_THREADS);
    {
        let s = &mut ctx().sched;
        s.n = n;
        s.done = [false; MAX_THREADS];
        s.waiting = [false; MAX_THREADS];
        s.stalled = 0;
        s.frozen = [0; MAX_THREADS];
        s.visits = vec![0; EDGE_COUNT.load(Ordering::Relaxed) as usize + 1];
        s.trace = Vec::with_capacity(4000);
    }
    TOKEN.store(-1, Ordering::SeqCst);
    set_ctx(std::ptr::null_mut(), 0);
    let mut handles = Vec::new();
    for (id, body) in bodies.into_iter().enumerate() {
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                await_token(id);
                set_ctx(p as *mut Ctx, id);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
                let c = unsafe { &mut *(p as *mut Ctx) };
                IN_RT.with(|f| f.set(true));
                c.sched.done[id] = true;
                c.sched.stalled = 0;
                let next = choose(&mut c.sched, id, true).unwrap_or(MAX_THREADS);
                set_ctx(std::ptr::null_mut(), 0);
                pass_token(next);
                r
            })
            .expect("spawn");
        handles.push(h);
    }
    let c = unsafe { &mut *(p as *mut Ctx) };
    c.sched.active = true;
    EDGES.store(c.sched.edges, Ordering::SeqCst);
    let first = c.sched.rng.below(n as u64) as usize;
    pass_token(first);
    await_token(MAX_THREADS);
    c.sched.active = false;
    EDGES.store(false, Ordering::SeqCst);
    let out = handles
        .into_iter()
        .map(|h| match h.join() {
            Ok(r) => r,
            Err(e) => Err(e),
        })
        .collect();
    set_ctx(p as *mut Ctx, MAX_THREADS);
    out
}

// ------------------------------------------------------------------------------------------------
// Executing one run

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub type Res = Result<(), Violation>;

pub fn fail<T>(class: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        class: class.into(),
        msg: msg.into(),
    })
}

pub struct Outcome {
    pub violation: Option<Violation>,
    pub rec: Vec<u64>,
    pub trace: Vec<String>,
    pub counts: BTreeMap<&'static str, u64>,
    pub sig: u64,
    pub nontrivial: bool,
    pub steps: u64,
    pub covered_ns: u128,
    pub log_hash: u64,
}

pub static RUN_NO: AtomicU64 = AtomicU64::new(0);

/// Executes a scenario on a fresh thread as a pure function of the seed or the choices.
pub fn execute(
    scenario: fn() -> Res,
    seed: u64,
    replay: Option<Vec<u64>>,
    rec_fd: i32,
) -> Outcome {
    let mut boxed = Ctx::new(seed, replay);
    boxed.rec_fd = rec_fd;
    let p = Box::into_raw(boxed) as usize;
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            set_ctx(p as *mut Ctx, MAX_THREADS);
            let (a, b, k) = (seed_draw(), seed_draw(), draw(1 << 16));
            if chance(1, 8) {
                ctx().plain_cpu = true;
                count("cpu_without_aes_instructions");
            }
            // The zone that local times are in; nothing the library does depends on it.
            if chance(1, 6) {
                let z = ["XXX-5:30", "XXX8", "XXX-14", "XXX11:59:30", "EST5EDT,M3.2.0,M11.1.0"];
                std::env::set_var("TZ", pick(&z));
                count("local_time_not_utc");
            } else {
                std::env::set_var("TZ", "UTC0");
            }
            {
                let c = ctx();
                c.ent = Prng::new(mix(a) ^ 0x11);
                c.hash = Prng::new(mix(b) ^ 0x22);
                c.clock.secs = 1_500_000_000 + k as i64 * 9973;
                c.clock.nanos = (mix(k) % 1_000_000_000) as i64;
            }
            let r = std::panic::catch_unwind(scenario);
            let v = match r {
                Ok(Ok(())) => None,
                Ok(Err(v)) => Some(v),
                Err(e) => {
                    // A panic that a scenario did not catch is a defect of the harness, unless
                    // the scenario says otherwise by catching it itself.
                    Some(Violation {
                        class: "HARNESS".into(),
                        msg: format!("harness panic: {} {}", panic_text(&e), ctx().panic_msg),
                    })
                }
            };
            set_ctx(std::ptr::null_mut(), 0);
            v
        })
        .expect("spawn");
    let v = h.join().unwrap_or_else(|_| {
        Some(Violation {
            class: "HARNESS".into(),
            msg: "run thread panicked".into(),
        })
    });
    let c = unsafe { Box::from_raw(p as *mut Ctx) };
    let mut lh = c.sig ^ c.sched.sig;
    for x in &c.rec {
        lh = mix(lh ^ x);
    }
    for t in &c.trace {
        lh = mix(lh ^ hash_bytes(t.as_bytes()));
    }
    lh = mix(lh ^ c.steps ^ c.ent_bytes.rotate_left(32) ^ (c.mem_peak as u64).rotate_left(16));
    if let Some(ref v) = v {
        lh = mix(lh ^ hash_bytes(v.msg.as_bytes()));
    }
    Outcome {
        violation: v,
        rec: c.rec.clone(),
        trace: c.trace.clone(),
        counts: c.counts.clone(),
        sig: mix(c.sig ^ c.sched.sig),
        nontrivial: c.nontrivial,
        steps: c.steps,
        covered_ns: c.clock.covered,
        log_hash: lh,
    }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Runs code of the library; a panic comes back as its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let place = if has_ctx() { std::mem::take(&mut ctx().panic_msg) } else { String::new() };
            Err(format!("panic: {} {}", panic_text(&e), place))
        }
    }
}

/// One-time initialisation, outside any run, of everything in the process that is lazy.
pub fn warm_up() {
    std::panic::set_hook(Box::new(|info| {
        let p = ctx_ptr();
        if !p.is_null() {
            let loc = info
                .location()
                .map(|l| {
                    let f = l.file();
                    let f = f.rsplit('/').next().unwrap_or(f);
                    format!("at {}:{}", f, l.line())
                })
                .unwrap_or_default();
            unsafe { (*p).panic_msg = loc };
        } else {
            eprintln!("panic outside a run: {}", info);
        }
    }));
    // The buffers that the standard library makes when they are first asked for.
    let _ = (std::io::stdout().lock(), std::io::stderr().lock());
    // Simulated, so that whatever the library keeps from here on is the same in every process.
    execute(warm_scenario, 0, Some(Vec::new()), -1);
}

fn warm_scenario() -> Res {
    let _ = kpdb::EntryUuid::new_random();
    let _ = kpdb::KeyFile::new_binary();
    let key = kpdb::CompositeKey::from_password("warm");
    let mut db = kpdb::Database::new(&key);
    db.transform_rounds = kpdb::TransformRounds(1);
    let mut out = Vec::new();
    let _ = db.save(&mut out);
    let _ = kpdb::Database::open(&mut &out[..], &key);
    Ok(())
}

//! The explorer: enumerates the jobs of a check exhaustively on all cores, executes every case on the
//! real crate, compares with the model, and turns panics, crashes, hangs and disagreements into a
//! replayable violation.
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

/// One explored input.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    /// use an SMBIOS 3 entry point (32-bit announced length) instead of an SMBIOS 2 one (16 bit)
    pub v3: bool,
    pub major: u8,
    pub minor: u8,
    /// announced table length
    pub len: u32,
    /// 0: buffer ends at an unmapped page, 1: buffer starts right after one, n >= 2: address is n - 2 modulo 64
    pub place: u8,
    /// job specific
    pub aux: u64,
    pub buf: Vec<u8>,
}

impl Case {
    pub fn hash(&self) -> u64 {
        let mut h = Fx(0x9E37_79B9_7F4A_7C15);
        h.add(self.v3 as u64 | (self.major as u64) << 8 | (self.minor as u64) << 16 | (self.place as u64) << 24 | (self.len as u64) << 32);
        h.add(self.aux);
        h.bytes(&self.buf);
        h.fin()
    }
}

/// A small non cryptographic hash (deterministic, unlike the std one).
pub struct Fx(pub u64);
impl Fx {
    #[inline]
    pub fn add(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(23) ^ v).wrapping_mul(0xff51_afd7_ed55_8ccd);
        self.0 ^= self.0 >> 29;
    }
    pub fn bytes(&mut self, b: &[u8]) {
        let mut c = b.chunks_exact(8);
        for x in &mut c {
            self.add(u64::from_le_bytes(x.try_into().unwrap()));
        }
        let mut last = [0u8; 8];
        let r = c.remainder();
        last[..r.len()].copy_from_slice(r);
        self.add(u64::from_le_bytes(last));
        self.add(b.len() as u64);
    }
    pub fn fin(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        x ^ (x >> 31)
    }
}
impl std::fmt::Write for Fx {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.as_bytes() {
            self.0 = (self.0 ^ *c as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        Ok(())
    }
}
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.fin()
    }
    fn write(&mut self, b: &[u8]) {
        self.bytes(b)
    }
}

/// Per evaluation statistics and scratch space.
#[derive(Default)]
pub struct Stats {
    pub transitions: u64,
    pub steps: u64,
    /// values a case enumerates itself (disjoint from those of the other cases)
    pub inner: u64,
    pub classes: BTreeMap<&'static str, u64>,
    pub quiet: bool,
}
impl Stats {
    #[inline]
    pub fn class(&mut self, c: &'static str) {
        if !self.quiet {
            *self.classes.entry(c).or_insert(0) += 1;
        }
    }
}

pub type Eval = Box<dyn Fn(&Case, &[u8], &mut Stats) -> Result<(), String> + Sync + Send>;
pub type Gen = Box<dyn Fn(usize, &mut Case, &mut dyn FnMut(&Case)) + Sync + Send>;

/// A finite space of cases, split in items for the worker threads, and the comparison made on each case.
pub struct Job {
    pub name: String,
    pub items: usize,
    pub gen: Gen,
    pub eval: Eval,
}
pub fn job(
    name: &str,
    items: usize,
    gen: impl Fn(usize, &mut Case, &mut dyn FnMut(&Case)) + Sync + Send + 'static,
    eval: impl Fn(&Case, &[u8], &mut Stats) -> Result<(), String> + Sync + Send + 'static,
) -> Job {
    Job { name: name.into(), items, gen: Box::new(gen), eval: Box::new(eval) }
}

// ---------------------------------------------------------------- memory placement

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn memfd_create(n: *const u8, f: u32) -> i32;
    fn ftruncate(fd: i32, l: i64) -> i32;
    fn close(fd: i32) -> i32;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
    fn sigaction(s: i32, n: *const SigAct, o: *mut SigAct) -> i32;
    fn sigaltstack(n: *const StackT, o: *mut StackT) -> i32;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
}
#[repr(C)]
struct SigAct {
    h: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
#[repr(C)]
struct StackT {
    sp: *mut u8,
    flags: i32,
    size: usize,
}

const PAGE: usize = 4096;
/// Memory with an inaccessible page on either side of the usable range.
pub struct Arena {
    base: *mut u8,
    pages: usize,
}
impl Arena {
    pub fn new(bytes: usize) -> Arena {
        let pages = bytes.div_ceil(PAGE) + 1;
        unsafe {
            let base = mmap(std::ptr::null_mut(), (pages + 2) * PAGE, 3, 0x22, -1, 0);
            assert!(base as isize != -1, "mmap failed");
            assert!(mprotect(base, PAGE, 0) == 0);
            assert!(mprotect(base.add((pages + 1) * PAGE), PAGE, 0) == 0);
            Arena { base, pages }
        }
    }
    pub fn place(&mut self, b: &[u8], place: u8) -> &[u8] {
        if b.len() + 64 > self.pages * PAGE {
            let n = Arena::new(b.len() + 64);
            unsafe { munmap(self.base, (self.pages + 2) * PAGE) };
            self.base = n.base;
            self.pages = n.pages;
        }
        unsafe {
            let lo = self.base.add(PAGE);
            let p = match place {
                0 => lo.add(self.pages * PAGE - b.len()),
                1 => lo,
                n => lo.add(n as usize - 2),
            };
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            std::slice::from_raw_parts(p, b.len())
        }
    }
}

/// A buffer of several GiB made of the same few pages over and over, with a writable tail of 128 KiB that
/// starts below `top`.
pub struct Huge {
    base: *mut u8,
    pub head: usize,
}
impl Huge {
    const TAIL: usize = 1 << 17;
    pub fn new(chunk: usize, top: usize, fill: impl Fn(&mut [u8])) -> Option<Huge> {
        unsafe {
            let head = top / chunk * chunk;
            assert!(top - head + 4096 < Self::TAIL);
            let fd = memfd_create(c"huge".as_ptr().cast(), 0);
            if fd < 0 {
                return None;
            }
            if ftruncate(fd, chunk as i64) != 0 {
                close(fd);
                return None;
            }
            // reserve the addresses, then fill them
            let base = mmap(std::ptr::null_mut(), head + Self::TAIL, 0, 0x4022, -1, 0);
            let w = mmap(std::ptr::null_mut(), chunk, 3, 1, fd, 0);
            if base as isize == -1 || w as isize == -1 {
                return None;
            }
            fill(std::slice::from_raw_parts_mut(w, chunk));
            munmap(w, chunk);
            let mut at = 0;
            while at < head {
                if mmap(base.add(at), chunk, 1, 0x11, fd, 0) as isize == -1 {
                    return None;
                }
                at += chunk;
            }
            close(fd);
            if mmap(base.add(head), Self::TAIL, 3, 0x32, -1, 0) as isize == -1 {
                return None;
            }
            Some(Huge { base, head })
        }
    }
    pub fn tail(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base.add(self.head), Self::TAIL) }
    }
    /// the buffer with this many bytes of the tail
    pub fn buf(&self, tail: usize) -> &[u8] {
        assert!(tail <= Self::TAIL);
        unsafe { std::slice::from_raw_parts(self.base, self.head + tail) }
    }
}

// ---------------------------------------------------------------- crash and hang capture

thread_local! {
    static CUR: Cell<(*const Case, u32)> = const { Cell::new((std::ptr::null(), 0)) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static CRASH_FD: AtomicUsize = AtomicUsize::new(usize::MAX);

pub fn encode(c: &Case, job: u32, why: &str) -> String {
    let mut s = String::new();
    let _ = write!(
        s,
        "job={} v3={} major={} minor={} len={} place={} aux={} why={}\nbuf=",
        job, c.v3 as u8, c.major, c.minor, c.len, c.place, c.aux, why.replace(['\n', '\r'], " ")
    );
    for b in &c.buf {
        let _ = write!(s, "{b:02x}");
    }
    s.push('\n');
    s
}
pub fn decode(text: &str) -> Option<(Case, u32, String)> {
    let mut l = text.lines();
    let head = l.next()?;
    let (head, why) = head.split_once(" why=")?;
    let mut c = Case::default();
    let mut job = 0;
    for kv in head.split(' ') {
        let (k, v) = kv.split_once('=')?;
        let n: u64 = v.parse().ok()?;
        match k {
            "job" => job = n as u32,
            "v3" => c.v3 = n != 0,
            "major" => c.major = n as u8,
            "minor" => c.minor = n as u8,
            "len" => c.len = n as u32,
            "place" => c.place = n as u8,
            "aux" => c.aux = n,
            _ => return None,
        }
    }
    let hex = l.next()?.strip_prefix("buf=")?.as_bytes();
    if hex.len() % 2 != 0 {
        return None;
    }
    for p in hex.chunks(2) {
        c.buf.push(u8::from_str_radix(std::str::from_utf8(p).ok()?, 16).ok()?);
    }
    Some((c, job, why.to_string()))
}

unsafe fn put(fd: i32, s: &[u8]) {
    let mut s = s;
    while !s.is_empty() {
        let n = write(fd, s.as_ptr(), s.len());
        if n <= 0 {
            break;
        }
        s = &s[n as usize..];
    }
}
unsafe fn put_num(fd: i32, mut v: u64) {
    let mut b = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        b[i] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    put(fd, &b[i..]);
}
/// async-signal-safe version of `encode`
unsafe fn dump(fd: i32, c: *const Case, job: u32, why: &[u8], sig: u64) {
    let c = &*c;
    for (k, v) in [
        (&b"job="[..], job as u64),
        (b" v3=", c.v3 as u64),
        (b" major=", c.major as u64),
        (b" minor=", c.minor as u64),
        (b" len=", c.len as u64),
        (b" place=", c.place as u64),
        (b" aux=", c.aux),
    ] {
        put(fd, k);
        put_num(fd, v);
    }
    put(fd, b" why=");
    put(fd, why);
    if sig != 0 {
        put_num(fd, sig);
    }
    put(fd, b"\nbuf=");
    let hex = b"0123456789abcdef";
    for b in &c.buf {
        put(fd, &[hex[(b >> 4) as usize], hex[(b & 15) as usize]]);
    }
    put(fd, b"\n");
}
pub const EXIT_CRASH: i32 = 86;
pub const EXIT_ENGINE: i32 = 3;

static DUMPING: AtomicBool = AtomicBool::new(false);
extern "C" fn on_signal(sig: i32) {
    unsafe {
        let (c, job) = CUR.get();
        if c.is_null() {
            _exit(EXIT_ENGINE);
        }
        if DUMPING.swap(true, SeqCst) {
            loop {
                std::hint::spin_loop();
            }
        }
        dump(CRASH_FD.load(Relaxed) as i32, c, job, b"killed by signal ", sig as u64);
        _exit(EXIT_CRASH);
    }
}
pub fn install(crash_file: &str) {
    use std::os::fd::IntoRawFd;
    let f = std::fs::File::create(crash_file).expect("crash file");
    CRASH_FD.store(f.into_raw_fd() as usize, Relaxed);
    for sig in [4, 6, 7, 8, 11] {
        let a = SigAct { h: on_signal as *const () as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
        unsafe { assert!(sigaction(sig, &a, std::ptr::null_mut()) == 0) };
    }
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if CUR.with(|c| c.get().0.is_null()) {
            // not while a case runs: the explorer itself
            eprintln!("ENGINE ERROR: panicked at {loc}: {m}");
            unsafe { _exit(EXIT_ENGINE) }
        }
        PANIC.with(|p| *p.borrow_mut() = format!("panicked at {loc}: {m}"));
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!("panicked at {loc}: {m}");
        }
    }));
}
fn altstack() {
    let size = 64 * 1024;
    let sp = Box::leak(vec![0u8; size].into_boxed_slice()).as_mut_ptr();
    let s = StackT { sp, flags: 0, size };
    unsafe { sigaltstack(&s, std::ptr::null_mut()) };
}

/// Run a part of a case on a thread of its own with a stack of that size.
pub fn on_stack<R: Send>(size: usize, f: impl FnOnce() -> R + Send) -> R {
    struct P((*const Case, u32));
    unsafe impl Send for P {}
    let cur = P(CUR.get());
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(size)
            .spawn_scoped(s, move || {
                let cur = cur;
                CUR.set(cur.0);
                let alt = vec![0u8; 64 * 1024];
                let on = StackT { sp: alt.as_ptr() as *mut u8, flags: 0, size: alt.len() };
                let mut old = StackT { sp: std::ptr::null_mut(), flags: 0, size: 0 };
                unsafe { sigaltstack(&on, &mut old) };
                let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()));
                unsafe { sigaltstack(&old, std::ptr::null_mut()) };
                r
            })
            .expect("thread")
            .join()
            .expect("thread")
    });
    r.unwrap_or_else(|m| {
        PANIC.with(|p| *p.borrow_mut() = m);
        std::panic::resume_unwind(Box::new(()))
    })
}

// ---------------------------------------------------------------- exploration

/// A set of 64-bit hashes kept as a bitmap; its size is a lower bound of the number of distinct elements.
pub struct Seen {
    bits: Vec<AtomicU64>,
    mask: u64,
}
impl Seen {
    pub fn new(log2: u32) -> Seen {
        let mut bits = Vec::new();
        bits.resize_with(1 << (log2 - 6), || AtomicU64::new(0));
        Seen { bits, mask: (1 << log2) - 1 }
    }
    #[inline]
    pub fn insert(&self, h: u64) -> bool {
        let b = h & self.mask;
        let w = &self.bits[(b >> 6) as usize];
        let m = 1u64 << (b & 63);
        if w.load(Relaxed) & m != 0 {
            return false;
        }
        w.fetch_or(m, Relaxed) & m == 0
    }
}

#[derive(Default)]
pub struct Report {
    pub cases: u64,
    pub states: u64,
    pub transitions: u64,
    pub classes: BTreeMap<&'static str, u64>,
    pub per_job: Vec<(String, u64, u64)>,
    pub samples: Vec<String>,
    pub violation: Option<(Case, u32, String)>,
}

struct Slot {
    counter: AtomicU64,
    case: UnsafeCell<*const Case>,
    job: AtomicU64,
    thread: AtomicUsize,
    active: AtomicBool,
}
unsafe impl Sync for Slot {}

/// Run one case; Err is a disagreement, a panic of the library included.
pub fn run_one(eval: &Eval, c: &Case, job: u32, arena: &mut Arena, st: &mut Stats) -> Result<(), String> {
    CUR.set((c, job));
    let buf = arena.place(&c.buf, c.place);
    let r = match catch_unwind(AssertUnwindSafe(|| eval(c, buf, st))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            if m.starts_with("panicked at src/") && !m.contains("PROPERTY:") {
                eprintln!("ENGINE ERROR: {m} on {}", encode(c, job, ""));
                unsafe { _exit(EXIT_ENGINE) }
            }
            Err(format!("the library {m}"))
        }
    };
    CUR.set((std::ptr::null(), 0));
    r
}

fn describe(j: &str, c: &Case) -> String {
    let mut s = format!("{j}: {} v{}.{} announced={} aux={} buf[{}]=", if c.v3 { "SM3" } else { "SM2" }, c.major, c.minor, c.len, c.aux, c.buf.len());
    for b in c.buf.iter().take(64) {
        let _ = write!(s, "{b:02x}");
    }
    if c.buf.len() > 64 {
        s.push_str("..");
    }
    s
}

pub fn explore(jobs: &[Job], threads: usize, cpu_limit: f64) -> Report {
    let seen = Seen::new(31);
    // work items: (job, item), interleaved so that all jobs make progress
    let mut work: Vec<(u32, u32)> = Vec::new();
    for (j, job) in jobs.iter().enumerate() {
        for i in 0..job.items {
            work.push((j as u32, i as u32));
        }
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Report { per_job: jobs.iter().map(|j| (j.name.clone(), 0, 0)).collect(), ..Default::default() });
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot {
            counter: AtomicU64::new(0),
            case: UnsafeCell::new(std::ptr::null()),
            job: AtomicU64::new(0),
            thread: AtomicUsize::new(0),
            active: AtomicBool::new(false),
        })
        .collect();
    let done = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (seen, work, next, stop, total, slot, done) = (&seen, &work, &next, &stop, &total, &slots[t], &done);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    altstack();
                    slot.thread.store(unsafe { pthread_self() }, SeqCst);
                    let mut arena = Arena::new(1 << 20);
                    let mut scratch = Case::default();
                    let mut st = Stats::default();
                    let (mut cases, mut states) = (0u64, 0u64);
                    let mut per_job = vec![(0u64, 0u64); jobs.len()];
                    let mut samples: Vec<(u32, u32, String)> = vec![];
                    let mut viol: Option<(Case, u32, String)> = None;
                    loop {
                        let w = next.fetch_add(1, Relaxed);
                        if w >= work.len() || stop.load(Relaxed) {
                            break;
                        }
                        let (j, i) = work[w];
                        let job = &jobs[j as usize];
                        let mut nth = 0u64;
                        let take = i as usize == job.items / 2;
                        (job.gen)(i as usize, &mut scratch, &mut |c: &Case| {
                            if stop.load(Relaxed) {
                                return;
                            }
                            slot.counter.fetch_add(1, Relaxed);
                            unsafe { *slot.case.get() = c };
                            slot.job.store(j as u64, Relaxed);
                            slot.active.store(true, Release);
                            st.steps = 0;
                            let r = run_one(&job.eval, c, j, &mut arena, &mut st);
                            slot.active.store(false, Release);
                            st.transitions += st.steps;
                            cases += 1;
                            per_job[j as usize].0 += 1;
                            let h = c.hash() ^ (j as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                            let mut fresh = 0;
                            for k in 0..=st.steps.min(64) {
                                fresh += seen.insert(h.wrapping_add(k.wrapping_mul(0xD6E8_FEB8_6659_FD93))) as u64;
                            }
                            fresh += std::mem::take(&mut st.inner);
                            states += fresh;
                            per_job[j as usize].1 += fresh;
                            nth += 1;
                            if take && nth == 1 {
                                samples.push((j, i, describe(&job.name, c)));
                            }
                            if let Err(why) = r {
                                if viol.is_none() {
                                    viol = Some((c.clone(), j, why));
                                }
                                stop.store(true, Relaxed);
                            }
                        });
                    }
                    let mut r = total.lock().unwrap();
                    r.cases += cases;
                    r.states += states;
                    r.transitions += st.transitions;
                    for (k, v) in st.classes {
                        *r.classes.entry(k).or_insert(0) += v;
                    }
                    for (a, b) in r.per_job.iter_mut().zip(per_job) {
                        a.1 += b.0;
                        a.2 += b.1;
                    }
                    samples.sort();
                    r.samples.extend(samples.into_iter().map(|s| s.2));
                    if let Some(v) = viol {
                        // keep the smallest one: it is the easiest to explain
                        let better = match &r.violation {
                            None => true,
                            Some(o) => (v.1, v.0.buf.len(), &v.0.buf) < (o.1, o.0.buf.len(), &o.0.buf),
                        };
                        if better {
                            r.violation = Some(v);
                        }
                    }
                    done.fetch_add(1, SeqCst);
                })
                .unwrap();
        }
        // watchdog: CPU time spent in one case, so that a loaded machine raises no alarm
        let mut last: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); threads];
        while done.load(SeqCst) < threads {
            std::thread::sleep(std::time::Duration::from_millis(20));
            for (t, s) in slots.iter().enumerate() {
                let th = s.thread.load(SeqCst);
                let n = s.counter.load(Relaxed);
                if th == 0 || !s.active.load(Acquire) {
                    last[t] = (u64::MAX, 0.0);
                    continue;
                }
                if done.load(SeqCst) > 0 && last[t].0 == u64::MAX && next.load(Relaxed) >= work.len() + threads {
                    continue;
                }
                let mut clk = 0;
                let mut ts = [0i64; 2];
                let cpu = unsafe {
                    if pthread_getcpuclockid(th, &mut clk) != 0 || clock_gettime(clk, &mut ts) != 0 {
                        continue;
                    }
                    ts[0] as f64 + ts[1] as f64 * 1e-9
                };
                if last[t].0 != n {
                    last[t] = (n, cpu);
                } else if cpu - last[t].1 > cpu_limit && s.active.load(Acquire) && s.counter.load(Relaxed) == n {
                    unsafe {
                        if DUMPING.swap(true, SeqCst) {
                            continue;
                        }
                        dump(CRASH_FD.load(Relaxed) as i32, *s.case.get(), s.job.load(Relaxed) as u32, b"does not terminate (CPU seconds) ", cpu_limit as u64);
                        _exit(EXIT_CRASH);
                    }
                }
            }
        }
    });
    total.into_inner().unwrap()
}

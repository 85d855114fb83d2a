//! Media that fail: a limit on the size of files, a writer and a reader with short transfers, interruptions and failures.
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::rc::Rc;

#[repr(C)]
struct RLimit { cur: u64, max: u64 }
extern "C" {
    fn getrlimit(resource: i32, rlim: *mut RLimit) -> i32;
    fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;

/// A write beyond the limit is then an error (EFBIG) and not the end of the process.
pub fn ignore_file_size_signal() {
    unsafe { signal(SIGXFSZ, 1); }
}
/// Sets the soft limit on the size of files, or lifts it to the hard limit.
pub fn limit_file_size(cap: Option<u64>) {
    unsafe {
        let mut l = RLimit { cur: 0, max: 0 };
        assert_eq!(getrlimit(RLIMIT_FSIZE, &mut l), 0);
        l.cur = cap.unwrap_or(l.max).min(l.max);
        assert_eq!(setrlimit(RLIMIT_FSIZE, &l), 0);
    }
}

/// Takes at most `chunk` bytes per call (0: any number), is interrupted at every `intr`-th call (0: never), takes `cap` bytes
/// in total (None: any number) and then fails with an error, by taking nothing (`zero`), or - with `late` - takes everything
/// into a cache, keeps the first `cap` bytes and reports the failure when flushed.
pub struct Sink { out: Rc<RefCell<Vec<u8>>>, cap: Option<u64>, chunk: usize, intr: usize, late: bool, zero: bool, calls: usize, lost: bool }
impl Sink {
    pub fn new(out: Rc<RefCell<Vec<u8>>>, cap: Option<u64>, chunk: usize, intr: usize, late: bool, zero: bool) -> Self {
        Sink { out, cap, chunk, intr, late, zero, calls: 0, lost: false }
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 { return Err(ErrorKind::Interrupted.into()) }
        if b.is_empty() { return Ok(0) }
        let k = if self.chunk > 0 { b.len().min(self.chunk) } else { b.len() };
        let room = self.cap.map(|c| (c as usize).saturating_sub(self.out.borrow().len())).unwrap_or(usize::MAX);
        let take = k.min(room);
        self.out.borrow_mut().extend_from_slice(&b[..take]);
        if self.late {
            if take < k { self.lost = true; }
            return Ok(k)
        }
        if take == 0 { return if self.zero { Ok(0) } else { Err(Error::new(ErrorKind::Other, "medium full")) } }
        Ok(take)
    }
    fn flush(&mut self) -> Result<()> {
        if self.lost { Err(Error::new(ErrorKind::Other, "medium full")) } else { Ok(()) }
    }
}

/// Gives at most `chunk` bytes per call (0: any number), is interrupted at every `intr`-th call (0: never), and fails after
/// `at` bytes (None: never).
pub struct Source { data: Vec<u8>, pos: usize, at: Option<usize>, chunk: usize, intr: usize, calls: usize }
impl Source {
    pub fn new(data: Vec<u8>, at: Option<usize>, chunk: usize, intr: usize) -> Self { Source { data, pos: 0, at, chunk, intr, calls: 0 } }
}
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 { return Err(ErrorKind::Interrupted.into()) }
        let end = self.at.map(|a| a.min(self.data.len())).unwrap_or(self.data.len());
        let mut k = b.len().min(end - self.pos);
        if self.chunk > 0 { k = k.min(self.chunk); }
        if k == 0 && self.at.is_some() && !b.is_empty() { return Err(Error::new(ErrorKind::Other, "medium unreadable")) }
        b[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}

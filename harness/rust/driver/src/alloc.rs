//! A global allocator that knows how much there is allocated at most.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub struct Counting;

static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LAST: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    PEAK.fetch_max(NOW.fetch_add(l.size(), SeqCst) + l.size(), SeqCst);
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    NOW.fetch_sub(l.size(), SeqCst);
    System.dealloc(p, l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    PEAK.fetch_max(NOW.fetch_add(l.size(), SeqCst) + l.size(), SeqCst);
    System.alloc_zeroed(l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    if n > l.size() {
      PEAK.fetch_max(NOW.fetch_add(n - l.size(), SeqCst) + n - l.size(), SeqCst);
    } else {
      NOW.fetch_sub(l.size() - n, SeqCst);
    }
    System.realloc(p, l, n)
  }
}

/// Runs f and notes how much it allocates at most.
pub fn measure<T>(f: impl FnOnce() -> T) -> T {
  struct Done(usize);
  impl Drop for Done {
    fn drop(&mut self) {
      LAST.store(PEAK.load(SeqCst).saturating_sub(self.0), SeqCst);
    }
  }
  let before = NOW.load(SeqCst);
  PEAK.store(before, SeqCst);
  LAST.store(0, SeqCst);
  let _done = Done(before);
  f()
}

pub fn last_peak() -> usize {
  LAST.swap(0, SeqCst)
}

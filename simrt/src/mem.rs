//! Accounting of what the simulated program holds: every block allocated while one of its tasks
//! is polled (and not inside the simulator or the harness) is counted until it is freed, by whomever.
//! `Tracking` has to be the global allocator of the harness.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    static RUN: Cell<u64> = const { Cell::new(0) };
    /// inside a poll of a task of the simulated program
    static IN_TASK: Cell<bool> = const { Cell::new(false) };
    /// depth of simulator/harness code called from there
    static OUTSIDE: Cell<u32> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static TASKS: Cell<i64> = const { Cell::new(0) };
    /// the biggest block ever asked for
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}
static NEXT_RUN: AtomicU64 = AtomicU64::new(1);

pub struct Tracking;

const HDR: usize = 16;

fn tag() -> u64 {
    if IN_TASK.try_with(|t| t.get()).unwrap_or(false) && OUTSIDE.try_with(|o| o.get()).unwrap_or(1) == 0 {
        RUN.try_with(|r| r.get()).unwrap_or(0)
    } else {
        0
    }
}
fn count(tag: u64, blocks: i64, bytes: i64) {
    if tag != 0 && RUN.try_with(|r| r.get()).unwrap_or(0) == tag {
        let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
        let _ = BYTES.try_with(|b| b.set(b.get() + bytes));
    }
}
fn asked(tag: u64, n: usize) {
    if tag != 0 {
        let _ = BIGGEST.try_with(|b| b.set(b.get().max(n)));
    }
}
fn pad(l: &Layout) -> usize {
    l.align().max(HDR)
}
fn outer(l: &Layout) -> Option<Layout> {
    let p = pad(l);
    Layout::from_size_align(l.size().checked_add(p)?, p).ok()
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(o) = outer(&l) else { return std::ptr::null_mut() };
        let p = System.alloc(o);
        if p.is_null() {
            return p;
        }
        let q = p.add(pad(&l));
        let t = tag();
        (q.sub(8) as *mut u64).write(t);
        count(t, 1, l.size() as i64);
        asked(t, l.size());
        q
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let Some(o) = outer(&l) else { return std::ptr::null_mut() };
        let p = System.alloc_zeroed(o);
        if p.is_null() {
            return p;
        }
        let q = p.add(pad(&l));
        let t = tag();
        (q.sub(8) as *mut u64).write(t);
        count(t, 1, l.size() as i64);
        asked(t, l.size());
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let t = (q.sub(8) as *mut u64).read();
        count(t, -1, -(l.size() as i64));
        System.dealloc(q.sub(pad(&l)), outer(&l).unwrap());
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let p = pad(&l);
        let Some(n) = new.checked_add(p) else { return std::ptr::null_mut() };
        let t = (q.sub(8) as *mut u64).read();
        let r = System.realloc(q.sub(p), outer(&l).unwrap(), n);
        if r.is_null() {
            return r;
        }
        count(t, 0, new as i64 - l.size() as i64);
        asked(if tag() == t { t } else { 0 }, new);
        r.add(p)
    }
}

/// a new run begins on this thread
pub fn reset() {
    RUN.with(|r| r.set(NEXT_RUN.fetch_add(1, Ordering::Relaxed)));
    BLOCKS.with(|b| b.set(0));
    BYTES.with(|b| b.set(0));
    BIGGEST.with(|b| b.set(0));
    TASKS.with(|b| b.set(0));
    IN_TASK.with(|b| b.set(false));
    OUTSIDE.with(|b| b.set(0));
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Held {
    pub blocks: i64,
    pub bytes: i64,
    /// tasks that exist (running, or finished and not yet forgotten)
    pub tasks: i64,
}
pub fn held() -> Held {
    Held { blocks: BLOCKS.with(|b| b.get()), bytes: BYTES.with(|b| b.get()), tasks: TASKS.with(|b| b.get()) }
}

pub fn biggest() -> usize {
    BIGGEST.with(|b| b.get())
}

/// while it lives, allocations are the program's (called around the poll of a task)
pub struct InTask(bool);
pub fn in_task() -> InTask {
    InTask(IN_TASK.try_with(|t| t.replace(true)).unwrap_or(false))
}
impl Drop for InTask {
    fn drop(&mut self) {
        let _ = IN_TASK.try_with(|t| t.set(self.0));
    }
}

/// while it lives, allocations are not the program's
pub struct Outside;
pub fn outside() -> Outside {
    let _ = OUTSIDE.try_with(|o| o.set(o.get() + 1));
    Outside
}
impl Drop for Outside {
    fn drop(&mut self) {
        let _ = OUTSIDE.try_with(|o| o.set(o.get() - 1));
    }
}

/// lives as long as the task that holds it
pub struct TaskMark(pub u64);
pub fn task_mark(id: u64) -> TaskMark {
    let _ = TASKS.try_with(|t| t.set(t.get() + 1));
    TaskMark(id)
}
impl Drop for TaskMark {
    fn drop(&mut self) {
        let _ = TASKS.try_with(|t| t.set(t.get() - 1));
    }
}

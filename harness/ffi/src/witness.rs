//! Histories of operations on the compiled code. They look for an input that
//! shows a refuted contract at work, and are a bounded stand-in otherwise.
use pen_ffi::{Arc, ArcBuffer, ByteString, Closure};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::atomic::{AtomicIsize, AtomicUsize, Ordering},
};

/// Counts blocks, and poisons the ones released.
struct Counter;

static BLOCKS: AtomicIsize = AtomicIsize::new(0);

unsafe impl GlobalAlloc for Counter {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        BLOCKS.fetch_add(1, Ordering::SeqCst);
        System.alloc(layout)
    }

    unsafe fn dealloc(&self, pointer: *mut u8, layout: Layout) {
        BLOCKS.fetch_sub(1, Ordering::SeqCst);
        System.dealloc(pointer, layout)
    }

    unsafe fn realloc(&self, pointer: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        System.realloc(pointer, layout, size)
    }
}

#[global_allocator]
static ALLOCATOR: Counter = Counter;

pub struct Random(pub u64);

impl Random {
    pub fn next(&mut self, limit: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % limit
    }
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|text| text.parse().ok()).unwrap_or(1)
}

pub fn rounds(quick: u64) -> u64 {
    if std::env::var("VERIF_TIER").ok().as_deref() == Some("thorough") {
        quick * 50
    } else {
        quick
    }
}

static DROPS: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone)]
struct Payload(u64);

impl Drop for Payload {
    fn drop(&mut self) {
        DROPS.fetch_add(1, Ordering::SeqCst);
    }
}

/// Random histories of one block on one thread, against a model that counts.
#[test]
fn lifetime_histories() {
    let mut random = Random(seed());
    for _ in 0..rounds(4000) {
        DROPS.store(0, Ordering::SeqCst);
        let blocks = BLOCKS.load(Ordering::SeqCst);
        let mut value = random.next(1 << 20);
        let mut history = vec![format!("new({value})")];
        let mut handles = vec![Arc::new(Payload(value))];
        while !handles.is_empty() && history.len() < 40 {
            let index = random.next(handles.len() as u64) as usize;
            match random.next(8) {
                0..=2 => {
                    history.push(format!("clone({index})"));
                    let other = handles[index].clone();
                    handles.push(other);
                }
                3..=5 => {
                    history.push(format!("drop({index})"));
                    drop(handles.swap_remove(index));
                }
                6 => {
                    history.push(format!("get_mut({index})"));
                    let count = handles.len();
                    match Arc::get_mut(&mut handles[index]) {
                        Some(payload) => {
                            assert!(count == 1, "exclusive access to a shared value: {history:?}");
                            value += 1;
                            payload.0 = value;
                        }
                        None => assert!(count > 1, "no exclusive access for a sole handle: {history:?}"),
                    }
                }
                _ => {
                    history.push(format!("synchronize(clone of {index})"));
                    handles[index].clone().synchronize();
                }
            }
            assert_eq!(DROPS.load(Ordering::SeqCst), handles.is_empty() as usize, "destroyed too early or late: {history:?}");
            for handle in &handles {
                assert_eq!(handle.0, value, "{history:?}");
            }
        }
        history.push("drop all".into());
        drop(handles);
        assert_eq!(DROPS.load(Ordering::SeqCst), 1, "destroyed other than once: {history:?}");
        drop(history);
        assert_eq!(BLOCKS.load(Ordering::SeqCst), blocks, "memory is leaked, or released twice");
    }
}

#[test]
fn lifetime_of_strings_and_closures() {
    let mut random = Random(seed());
    for _ in 0..rounds(2000) {
        let blocks = BLOCKS.load(Ordering::SeqCst);
        let length = random.next(70) as usize;
        let bytes = (0..length).map(|_| random.next(256) as u8).collect::<Vec<_>>();
        let string = ByteString::from(bytes.as_slice());
        let other = string.clone();
        let buffer = ArcBuffer::from(bytes.as_slice());
        let buffers = [buffer.clone(), buffer.clone()];
        drop(string);
        drop(buffer);
        assert_eq!(other.as_slice(), bytes);
        for buffer in buffers {
            assert_eq!(buffer.as_slice(), bytes);
        }
        drop(other);
        drop(bytes);
        DROPS.store(0, Ordering::SeqCst);
        let closure = Closure::new(core::ptr::null(), Payload(1));
        let handles = [closure.clone().into_opaque(), closure.into_opaque()];
        assert_eq!(DROPS.load(Ordering::SeqCst), 0);
        drop(handles);
        assert_eq!(DROPS.load(Ordering::SeqCst), 1);
        assert_eq!(BLOCKS.load(Ordering::SeqCst), blocks, "memory is leaked, or released twice");
    }
}

struct Shared(Arc<Payload>);

unsafe impl Send for Shared {}

/// Threads clone and release handles of a synchronized value.
#[test]
fn sharing_between_threads() {
    for round in 0..rounds(60) {
        DROPS.store(0, Ordering::SeqCst);
        let arc = Arc::new(Payload(round));
        // The mode of a value is set before other threads see it.
        let copies = round % 3;
        let extra = (0..copies).map(|_| arc.clone()).collect::<Vec<_>>();
        arc.clone().synchronize();
        let barrier = std::sync::Arc::new(std::sync::Barrier::new(4));
        let threads = (0..4)
            .map(|index| {
                let handle = Shared(arc.clone());
                let barrier = barrier.clone();
                std::thread::spawn(move || {
                    let handle = handle;
                    barrier.wait();
                    let mut handles = vec![];
                    for step in 0..3000 {
                        if step % 3 == index % 3 {
                            handles.pop();
                        } else {
                            handles.push(handle.0.clone());
                        }
                        assert_eq!(DROPS.load(Ordering::SeqCst), 0, "destroyed while in use");
                    }
                    handles.into_iter().for_each(drop);
                })
            })
            .collect::<Vec<_>>();
        drop(extra);
        for thread in threads {
            thread.join().unwrap();
        }
        assert_eq!(DROPS.load(Ordering::SeqCst), 0);
        let mut arc = arc;
        assert!(Arc::get_mut(&mut arc).is_some(), "the sole handle left has exclusive access");
        let other = arc.clone();
        assert!(Arc::get_mut(&mut arc).is_none());
        drop(other);
        drop(arc);
        assert_eq!(DROPS.load(Ordering::SeqCst), 1, "destroyed other than once");
    }
}

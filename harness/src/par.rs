//! Work distribution and the progress watchdog.
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub fn threads() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) }

pub fn par<T: Sync, R: Send>(items: &[T], f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, R)>> = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for _ in 0..threads().min(items.len().max(1)) {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= items.len() { break; }
                let r = f(k, &items[k]);
                out.lock().unwrap().push((k, r));
            });
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|(k, _)| *k);
    v.into_iter().map(|(_, r)| r).collect()
}

/// One per worker thread: what it is running now. A call that burns more than `limit` seconds of its
/// own thread's CPU time (not wall-clock time) on one input counts as not terminating.
pub struct Slot { calls: AtomicU64, text: Mutex<String>, tid: AtomicU64 }
#[derive(Clone, Default)]
pub struct Watch(Arc<Mutex<Vec<Arc<Slot>>>>);
impl Slot {
    /// The worker is done: nothing of the code under test is running in it.
    pub fn end(&self) { self.tid.store(u64::MAX, Ordering::Relaxed); }
    pub fn begin(&self, text: &str) {
        let mut t = self.text.lock().unwrap();
        t.clear();
        t.push_str(text);
        drop(t);
        self.calls.fetch_add(1, Ordering::Relaxed);
    }
}
fn tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().parse().unwrap_or(0))).unwrap_or(0)
}
fn cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
}
impl Watch {
    pub fn slot(&self) -> Arc<Slot> {
        let s = Arc::new(Slot { calls: AtomicU64::new(0), text: Mutex::new(String::new()), tid: AtomicU64::new(tid()) });
        self.0.lock().unwrap().push(s.clone());
        s
    }
    /// `on_hang` gets the input that does not terminate; it should end the process.
    pub fn start(&self, limit_s: u64, on_hang: impl Fn(&str) + Send + 'static) {
        let w = self.clone();
        std::thread::spawn(move || {
            let mut seen: Vec<(u64, u64)> = Vec::new();
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let slots: Vec<Arc<Slot>> = w.0.lock().unwrap().clone();
                seen.resize(slots.len(), (u64::MAX, 0));
                for (k, s) in slots.iter().enumerate() {
                    let c = s.calls.load(Ordering::Relaxed);
                    let Some(cpu) = cpu_ticks(s.tid.load(Ordering::Relaxed)) else { continue };
                    if seen[k].0 != c { seen[k] = (c, cpu); continue; }
                    if cpu.saturating_sub(seen[k].1) > limit_s * 100 {
                        let t = s.text.lock().unwrap().clone();
                        on_hang(&t);
                    }
                }
            }
        });
    }
}

//! The queues of `crossbeam-queue` (0.3), behind a lock.
use std::collections::VecDeque;
use std::sync::Mutex;

#[derive(Debug)]
pub struct ArrayQueue<T> {
    cap: usize,
    q:   Mutex<VecDeque<T>>,
}

impl<T> ArrayQueue<T> {
    pub fn new(cap: usize) -> Self {
        assert!(cap > 0, "capacity must be non-zero");
        ArrayQueue { cap, q: Mutex::new(VecDeque::new()) }
    }
    pub fn push(&self, value: T) -> Result<(), T> {
        let mut q = self.q.lock().unwrap();
        if q.len() >= self.cap {
            return Err(value);
        }
        q.push_back(value);
        Ok(())
    }
    pub fn force_push(&self, value: T) -> Option<T> {
        let mut q = self.q.lock().unwrap();
        let out = if q.len() >= self.cap { q.pop_front() } else { None };
        q.push_back(value);
        out
    }
    pub fn pop(&self) -> Option<T> {
        self.q.lock().unwrap().pop_front()
    }
    pub fn capacity(&self) -> usize {
        self.cap
    }
    pub fn len(&self) -> usize {
        self.q.lock().unwrap().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        self.len() == self.cap
    }
}

#[derive(Debug)]
pub struct SegQueue<T>(Mutex<VecDeque<T>>);

impl<T> SegQueue<T> {
    pub fn new() -> Self {
        SegQueue(Mutex::new(VecDeque::new()))
    }
    pub fn push(&self, value: T) {
        self.0.lock().unwrap().push_back(value)
    }
    pub fn pop(&self) -> Option<T> {
        self.0.lock().unwrap().pop_front()
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}

impl<T> Default for SegQueue<T> {
    fn default() -> Self {
        Self::new()
    }
}

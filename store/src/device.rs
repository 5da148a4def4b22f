//! The device under redb: memory that records what is done to it, can fail
//! at a chosen operation and can stop at a gate.
use std::io;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug)]
pub enum Dop {
    Write(u64, Vec<u8>),
    SetLen(u64),
    Sync,
}

#[derive(Default)]
pub struct State {
    pub image: Vec<u8>,
    /// recorded operations (if recording)
    pub ops: Vec<Dop>,
    pub record: bool,
    /// number of mutating operations so far
    pub count: u64,
    /// the operation with this number and all later ones fail
    pub fail_at: Option<u64>,
    /// only that one fails
    pub fail_once: bool,
    pub failed: u64,
    /// a closed gate holds every mutating operation
    pub closed: bool,
    pub waiting: u32,
}

#[derive(Clone, Default)]
pub struct Device(pub Arc<(Mutex<State>, Condvar)>);

impl std::fmt::Debug for Device {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Device")
    }
}

impl Device {
    pub fn new(image: Vec<u8>) -> Self {
        let d = Device::default();
        d.0 .0.lock().unwrap().image = image;
        d
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut State) -> R) -> R {
        f(&mut self.0 .0.lock().unwrap())
    }
    pub fn close(&self) {
        self.with(|s| s.closed = true);
    }
    pub fn open(&self) {
        self.with(|s| s.closed = false);
        self.0 .1.notify_all();
    }
    /// Wait until some operation stands at the gate.
    pub fn wait_blocked(&self, limit: std::time::Duration) -> bool {
        let t = std::time::Instant::now();
        let mut s = self.0 .0.lock().unwrap();
        while s.waiting == 0 {
            let left = limit.checked_sub(t.elapsed());
            let Some(left) = left else { return false };
            s = self.0 .1.wait_timeout(s, left).unwrap().0;
        }
        true
    }
    fn mutate(&self, op: Dop) -> io::Result<()> {
        let mut s = self.0 .0.lock().unwrap();
        while s.closed {
            s.waiting += 1;
            self.0 .1.notify_all();
            s = self.0 .1.wait(s).unwrap();
            s.waiting -= 1;
        }
        let n = s.count;
        s.count += 1;
        if let Some(f) = s.fail_at {
            if n == f || n > f && !s.fail_once {
                s.failed += 1;
                return Err(io::Error::new(io::ErrorKind::Other, "injected"));
            }
        }
        apply(&mut s.image, &op);
        if s.record {
            s.ops.push(op);
        }
        Ok(())
    }
}
pub fn apply(image: &mut Vec<u8>, op: &Dop) {
    match op {
        Dop::Write(off, data) => {
            let off = *off as usize;
            if image.len() < off + data.len() {
                image.resize(off + data.len(), 0);
            }
            image[off..off + data.len()].copy_from_slice(data);
        }
        Dop::SetLen(n) => image.resize(*n as usize, 0),
        Dop::Sync => {}
    }
}

impl redb::StorageBackend for Device {
    fn len(&self) -> io::Result<u64> {
        Ok(self.with(|s| s.image.len() as u64))
    }
    fn read(&self, offset: u64, len: usize) -> io::Result<Vec<u8>> {
        self.with(|s| {
            let o = offset as usize;
            if o + len > s.image.len() {
                return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "beyond the end"));
            }
            Ok(s.image[o..o + len].to_vec())
        })
    }
    fn set_len(&self, len: u64) -> io::Result<()> {
        self.mutate(Dop::SetLen(len))
    }
    fn sync_data(&self, eventual: bool) -> io::Result<()> {
        if eventual {
            return Ok(());
        }
        self.mutate(Dop::Sync)
    }
    fn write(&self, offset: u64, data: &[u8]) -> io::Result<()> {
        self.mutate(Dop::Write(offset, data.to_vec()))
    }
}

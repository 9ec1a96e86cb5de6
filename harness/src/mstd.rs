//! The standard library, its threads and channels replaced by ones whose schedule is symbolic.
//! One thread runs at a time. Whenever the order of threads can matter (sending to a receiver of several senders,
//! looking whether something has arrived, waiting), any thread that is able to continue may be next.
pub use ::std::*;

pub mod sched {
    use crate::sym;
    struct Th { waits: usize, done: bool }
    static mut THREADS: Vec<Th> = Vec::new();
    static mut CUR: usize = 0;
    static mut CHOICES: usize = 0;
    static mut LEFT: usize = usize::MAX;
    fn all() -> &'static mut Vec<Th> {
        unsafe {
            if THREADS.is_empty() { THREADS.push(Th { waits: 0, done: false }); }
            &mut THREADS
        }
    }
    fn go(k: usize) { unsafe { if CUR != k { CUR = k; sym::fiber_switch(k); } } }
    /// any thread that is able to continue is next
    pub fn point() {
        let able: Vec<usize> = all().iter().enumerate().filter(|(_, t)| t.waits == 0 && !t.done).map(|(k, _)| k).collect();
        if able.is_empty() { sym::fail("all threads wait for each other"); }
        if able.len() == 1 { return go(able[0]); }
        // a thread able to continue is interrupted a bounded number of times
        let goes_on = able.contains(unsafe { &CUR });
        if goes_on && unsafe { LEFT == 0 } { return; }
        let n = unsafe { CHOICES += 1; CHOICES };
        let next = able[sym::conc_us(sym::us(&format!("schedule{}", n), 0, able.len() - 1))];
        unsafe { if goes_on && next != CUR { LEFT -= 1; } }
        go(next);
    }
    pub fn limit(interruptions: usize) { unsafe { LEFT = interruptions; } }
    /// waits until something happens to `key`
    pub fn wait(key: usize) { unsafe { all()[CUR].waits = key; } point(); }
    pub fn wake(key: usize) { for t in all() { if t.waits == key { t.waits = 0; } } }
    pub fn finish() -> ! { unsafe { all()[CUR].done = true; } point(); panic!("a finished thread continues") }
    pub fn new(f: extern "C" fn(*mut u8), a: *mut u8) -> usize {
        all().push(Th { waits: 0, done: false });
        let k = sym::fiber_new(f, a);
        assert_eq!(k + 1, all().len());
        k
    }
    /// threads that have not ended
    pub fn alive() -> usize { all().iter().filter(|t| !t.done).count() }
    pub fn choices() -> usize { unsafe { CHOICES } }
}

pub mod thread {
    use super::sched;
    pub use ::std::thread::*;
    use ::std::{cell::UnsafeCell, io, sync::Arc};
    struct Slot<T>(UnsafeCell<Option<T>>);
    pub struct JoinHandle<T> { slot: Arc<Slot<T>> }
    unsafe impl<T> Send for JoinHandle<T> {}
    unsafe impl<T> Sync for JoinHandle<T> {}
    impl<T> JoinHandle<T> {
        pub fn join(self) -> ::std::thread::Result<T> {
            loop {
                if let Some(v) = unsafe { &mut *self.slot.0.get() }.take() { return Ok(v); }
                sched::wait(Arc::as_ptr(&self.slot) as *const u8 as usize);
            }
        }
        pub fn is_finished(&self) -> bool { sched::point(); unsafe { &*self.slot.0.get() }.is_some() }
    }
    extern "C" fn start(a: *mut u8) {
        let f = unsafe { Box::from_raw(a as *mut Box<dyn FnOnce()>) };
        f();
        sched::finish();
    }
    pub fn spawn<F, T>(f: F) -> JoinHandle<T> where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
        let slot = Arc::new(Slot(UnsafeCell::new(None)));
        let s = Arc::clone(&slot);
        let run: Box<dyn FnOnce()> = Box::new(move || {
            let v = f();
            unsafe { *s.0.get() = Some(v); }
            sched::wake(Arc::as_ptr(&s) as *const u8 as usize);
        });
        sched::new(start, Box::into_raw(Box::new(run)) as *mut u8);
        JoinHandle { slot }
    }
    #[derive(Default)]
    pub struct Builder;
    impl Builder {
        pub fn new() -> Builder { Builder }
        pub fn name(self, _: String) -> Builder { self }
        pub fn stack_size(self, _: usize) -> Builder { self }
        pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>> where F: FnOnce() -> T + Send + 'static, T: Send + 'static { Ok(spawn(f)) }
    }
    pub fn yield_now() { sched::point() }
    pub fn sleep(_: ::std::time::Duration) { sched::point() }
}

pub mod sync {
    pub use ::std::sync::*;
    pub mod mpsc {
        use crate::mstd::sched;
        pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
        use ::std::{cell::UnsafeCell, collections::VecDeque, sync::Arc, time::Duration};
        struct Q<T> { q: VecDeque<T>, senders: usize, receiver: bool, bound: usize }
        struct C<T>(UnsafeCell<Q<T>>);
        impl<T> C<T> {
            #[allow(clippy::mut_from_ref)]
            fn get(&self) -> &mut Q<T> { unsafe { &mut *self.0.get() } }
            fn key(&self) -> usize { self as *const _ as *const u8 as usize }
        }
        pub struct Sender<T>(Arc<C<T>>);
        pub struct Receiver<T>(Arc<C<T>>);
        pub type SyncSender<T> = Sender<T>;
        unsafe impl<T: Send> Send for Sender<T> {}
        unsafe impl<T: Send> Send for Receiver<T> {}
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) { sync_channel(usize::MAX) }
        pub fn sync_channel<T>(bound: usize) -> (Sender<T>, Receiver<T>) {
            let c = Arc::new(C(UnsafeCell::new(Q { q: VecDeque::new(), senders: 1, receiver: true, bound: bound.max(1) })));
            (Sender(Arc::clone(&c)), Receiver(c))
        }
        impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.get().senders += 1; Sender(Arc::clone(&self.0)) } }
        impl<T> Drop for Sender<T> { fn drop(&mut self) { let q = self.0.get(); q.senders -= 1; if q.senders == 0 { sched::wake(self.0.key()); } } }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) { let q = self.0.get(); q.receiver = false; let old = ::std::mem::take(&mut q.q); sched::wake(self.0.key()); drop(old); }
        }
        impl<T> Sender<T> {
            pub fn send(&self, v: T) -> Result<(), SendError<T>> {
                if self.0.get().senders > 1 { sched::point(); }
                loop {
                    let q = self.0.get();
                    if !q.receiver { return Err(SendError(v)); }
                    if q.q.len() < q.bound { q.q.push_back(v); sched::wake(self.0.key()); return Ok(()); }
                    sched::wait(self.0.key());
                }
            }
        }
        impl<T> Receiver<T> {
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                sched::point();
                self.take().ok_or(if self.0.get().senders == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty })
            }
            fn take(&self) -> Option<T> { let v = self.0.get().q.pop_front(); if v.is_some() && self.0.get().bound != usize::MAX { sched::wake(self.0.key()); } v }
            pub fn recv(&self) -> Result<T, RecvError> {
                loop {
                    if let Some(v) = self.take() { return Ok(v); }
                    if self.0.get().senders == 0 { return Err(RecvError); }
                    sched::wait(self.0.key());
                }
            }
            pub fn recv_timeout(&self, _: Duration) -> Result<T, RecvTimeoutError> {
                self.try_recv().map_err(|e| if e == TryRecvError::Disconnected { RecvTimeoutError::Disconnected } else { RecvTimeoutError::Timeout })
            }
            pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
            pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
        }
        pub struct Iter<'a, T>(&'a Receiver<T>);
        pub struct TryIter<'a, T>(&'a Receiver<T>);
        pub struct IntoIter<T>(Receiver<T>);
        impl<'a, T> Iterator for Iter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
        impl<'a, T> Iterator for TryIter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
        impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
        impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
        impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
    }
}

/// files are the ones of the standard library, copying reads and writes them
pub mod fs {
    use ::std::{io::{self, Read, Write}, path::{Path, PathBuf}};
    pub use ::std::fs::*;
    pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> io::Result<u64> {
        let mut b = Vec::new();
        File::open(from)?.read_to_end(&mut b)?;
        File::create(to)?.write_all(&b)?;
        Ok(b.len() as u64)
    }
    pub fn canonicalize<P: AsRef<Path>>(p: P) -> io::Result<PathBuf> { Ok(p.as_ref().to_path_buf()) }
}

/// Started programs are handed to the harness instead.
pub mod process {
    use ::std::{ffi::OsStr, io, path::Path};
    pub use ::std::process::{id, Stdio};
    pub fn exit(k: i32) -> ! { super::program::ends(k == 0) }
    #[derive(Clone, Debug, Default)]
    pub struct Call { pub program: String, pub args: Vec<String>, pub dir: Option<String> }
    pub static mut RUN: Option<fn(&Call) -> Option<i32>> = None;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ExitStatus(i32);
    impl ExitStatus {
        pub fn success(&self) -> bool { self.0 == 0 }
        pub fn code(&self) -> Option<i32> { Some(self.0) }
    }
    #[derive(Clone, Debug)]
    pub struct Output { pub status: ExitStatus, pub stdout: Vec<u8>, pub stderr: Vec<u8> }
    #[derive(Clone, Debug)]
    pub struct Child(ExitStatus);
    impl Child { pub fn wait(&mut self) -> io::Result<ExitStatus> { Ok(self.0) } }
    #[derive(Clone, Debug)]
    pub struct Command(Call);
    fn text<S: AsRef<OsStr>>(s: S) -> String { s.as_ref().to_string_lossy().into_owned() }
    impl Command {
        pub fn new<S: AsRef<OsStr>>(p: S) -> Command { Command(Call { program: text(p), ..Call::default() }) }
        pub fn arg<S: AsRef<OsStr>>(&mut self, a: S) -> &mut Command { self.0.args.push(text(a)); self }
        pub fn args<I: IntoIterator<Item = S>, S: AsRef<OsStr>>(&mut self, i: I) -> &mut Command { for a in i { self.arg(a); } self }
        pub fn current_dir<P: AsRef<Path>>(&mut self, p: P) -> &mut Command { self.0.dir = Some(text(p.as_ref())); self }
        pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, _: K, _: V) -> &mut Command { self }
        pub fn stdin<T: Into<Stdio>>(&mut self, _: T) -> &mut Command { self }
        pub fn stdout<T: Into<Stdio>>(&mut self, _: T) -> &mut Command { self }
        pub fn stderr<T: Into<Stdio>>(&mut self, _: T) -> &mut Command { self }
        pub fn status(&mut self) -> io::Result<ExitStatus> {
            match unsafe { RUN }.expect("programs are expected")(&self.0) { Some(k) => Ok(ExitStatus(k)), None => Err(io::Error::new(io::ErrorKind::NotFound, "no such program")) }
        }
        pub fn spawn(&mut self) -> io::Result<Child> { self.status().map(Child) }
        pub fn output(&mut self) -> io::Result<Output> { self.status().map(|status| Output { status, stdout: vec![], stderr: vec![] }) }
    }
}

/// the arguments of a started program, and how it ends
pub mod env {
    pub use ::std::env::*;
    pub static mut ARGS: Vec<String> = Vec::new();
    pub fn args() -> ::std::vec::IntoIter<String> { unsafe { ARGS.clone() }.into_iter() }
    pub fn args_os() -> ::std::vec::IntoIter<::std::ffi::OsString> { args().map(|a| a.into()).collect::<Vec<_>>().into_iter() }
}
pub mod program {
    use super::{env, thread, sched};
    static mut ENDED: Option<bool> = None;
    const KEY: usize = 1;
    pub trait Outcome { fn good(&self) -> bool; }
    impl Outcome for () { fn good(&self) -> bool { true } }
    impl<T, E> Outcome for Result<T, E> { fn good(&self) -> bool { self.is_ok() } }
    /// runs `main` on the arguments; true if it ends without an error
    pub fn run<T: Outcome + 'static>(main: fn() -> T, args: &[&str]) -> bool {
        unsafe { env::ARGS = args.iter().map(|s| s.to_string()).collect(); ENDED = None; }
        thread::spawn(move || { let r = main(); unsafe { ENDED = Some(r.good()); } sched::wake(KEY); });
        while unsafe { ENDED.is_none() } { sched::wait(KEY); }
        unsafe { ENDED == Some(true) }
    }
    pub fn ends(good: bool) -> ! {
        unsafe { ENDED = Some(good); }
        sched::wake(KEY);
        sched::finish()
    }
}

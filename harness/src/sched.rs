//! Runs threads one at a time and decides, from generated choices, who goes on
//! each time one of them is about to access a lazy static of the library.
use std::{
    cell::RefCell,
    sync::{Arc, Condvar, Mutex},
    time::{Duration, Instant},
};

use crate::pbt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    /// not started, or stopped before an access
    Ready,
    Running,
    Done,
}
struct State {
    st: Vec<St>,
    tid: Vec<libc::pid_t>,
    turn: Option<usize>,
    accesses: usize,
}
pub struct Sched {
    m: Mutex<State>,
    cv: Condvar,
}
thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}
/// A thread's stay under the scheduler.
pub struct Stay(Arc<Sched>, usize);
impl Drop for Stay {
    fn drop(&mut self) {
        ME.with(|m| *m.borrow_mut() = None);
        let mut s = self.0.m.lock().unwrap();
        s.st[self.1] = St::Done;
        if s.turn == Some(self.1) {
            s.turn = None;
        }
        self.0.cv.notify_all();
    }
}
fn hook() {
    let me = ME.try_with(|m| m.try_borrow().ok().and_then(|m| m.clone())).ok().flatten();
    if let Some((s, i)) = me {
        s.stop(i);
    }
}
impl Sched {
    pub fn new(n: usize) -> Arc<Self> {
        lazy_static::set_hook(hook);
        Arc::new(Sched {
            m: Mutex::new(State { st: vec![St::Running; n], tid: vec![0; n], turn: None, accesses: 0 }),
            cv: Condvar::new(),
        })
    }
    /// called by thread `i` when it starts
    pub fn enter(self: &Arc<Self>, i: usize) -> Stay {
        self.m.lock().unwrap().tid[i] = unsafe { libc::syscall(libc::SYS_gettid) } as libc::pid_t;
        ME.with(|m| *m.borrow_mut() = Some((self.clone(), i)));
        self.stop(i);
        Stay(self.clone(), i)
    }
    fn stop(&self, i: usize) {
        let mut s = self.m.lock().unwrap();
        s.accesses += 1;
        s.st[i] = St::Ready;
        if s.turn == Some(i) {
            s.turn = None;
        }
        self.cv.notify_all();
        while s.turn != Some(i) {
            s = self.cv.wait(s).unwrap();
        }
        s.st[i] = St::Running;
    }
    /// Is it waiting for a lock that another thread holds?
    fn asleep(tid: libc::pid_t) -> bool {
        let t = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
        t.rsplit(')').next().is_some_and(|r| r.trim_start().starts_with('S'))
    }
    /// Lets all threads run to their end. Returns the number of accesses.
    pub fn run(&self, src: &mut Src) -> usize {
        let mut s = self.m.lock().unwrap();
        let mut last = 0;
        // how often to leave the thread that ran last
        let change = *src.pick(&[1u64, 2, 4]);
        loop {
            // wait for the one that runs to stop; a thread that sleeps in a
            // lock is left where it is
            let mut quiet = 0;
            let mut since = Instant::now();
            while let Some(t) = s.turn {
                let (g, w) = self.cv.wait_timeout(s, Duration::from_micros(500)).unwrap();
                s = g;
                if w.timed_out() && s.turn == Some(t) && s.st[t] == St::Running {
                    quiet = if Self::asleep(s.tid[t]) { quiet + 1 } else { 0 };
                    if quiet >= 4 {
                        s.turn = None;
                    }
                }
            }
            // all have to be there for the choice to be reproducible
            let ready = loop {
                if s.st.iter().all(|x| *x == St::Done) {
                    return s.accesses;
                }
                let running: Vec<usize> = (0..s.st.len()).filter(|i| s.st[*i] == St::Running).collect();
                let ready: Vec<usize> = (0..s.st.len()).filter(|i| s.st[*i] == St::Ready).collect();
                if running.iter().all(|i| s.tid[*i] != 0 && Self::asleep(s.tid[*i])) && !ready.is_empty() {
                    break ready;
                }
                if running.iter().any(|i| s.tid[*i] == 0 || !Self::asleep(s.tid[*i])) {
                    since = Instant::now();
                }
                if since.elapsed() > Duration::from_secs(10) {
                    // they cannot be joined: the case ends with the process
                    eprintln!("deadlock: {} threads wait for each other", running.len());
                    std::process::abort();
                }
                let (g, _) = self.cv.wait_timeout(s, Duration::from_micros(300)).unwrap();
                s = g;
            };
            let next = if ready.contains(&last) && !src.chance(1, change) { last } else { *src.pick(&ready) };
            last = next;
            s.turn = Some(next);
            self.cv.notify_all();
        }
    }
}

//! Depth-first enumeration of schedules with a bound on preemptions.
//!
//! A switch away from a thread that is blocked, has ended or has reached the end of one of its
//! operations is free; any other one is a preemption. The main thread only starts the others
//! and waits for them, so it runs without interruption while it starts them and afterwards only
//! when nothing else can.

use shuttle::scheduler::{Schedule, Scheduler, Task, TaskId};

pub struct Bounded {
    bound: usize,
    cap: usize,
    executions: usize,
    /// Choice taken and number of choices at each step of the current execution.
    path: Vec<(u32, u32)>,
    step: usize,
    preemptions: usize,
    waiting: bool,
    pub switches: std::sync::Arc<std::sync::atomic::AtomicU64>,
}

impl Bounded {
    pub fn new(bound: usize, cap: usize) -> Bounded {
        Bounded { bound, cap, executions: 0, path: vec![], step: 0, preemptions: 0, waiting: false, switches: Default::default() }
    }
}

impl Scheduler for Bounded {
    fn new_execution(&mut self) -> Option<Schedule> {
        if self.executions > 0 {
            // Next in depth-first order.
            while let Some((c, n)) = self.path.pop() {
                if c + 1 < n {
                    self.path.push((c + 1, n));
                    break;
                }
            }
            if self.path.is_empty() || self.executions >= self.cap {
                return None;
            }
        }
        self.executions += 1;
        self.step = 0;
        self.preemptions = 0;
        self.waiting = false;
        Some(Schedule::new(0))
    }
    fn next_task(&mut self, runnable: &[&Task], current: Option<TaskId>, yielding: bool) -> Option<TaskId> {
        let main = runnable.iter().map(|t| t.id()).find(|t| usize::from(*t) == 0);
        let here = current.filter(|c| runnable.iter().any(|t| t.id() == *c));
        let mut choices: Vec<TaskId> = vec![];
        match (main, here) {
            (Some(m), _) if !self.waiting => choices.push(m),
            (_, Some(c)) if usize::from(c) != 0 => {
                choices.push(c);
                if yielding || self.preemptions < self.bound {
                    choices.extend(runnable.iter().map(|t| t.id()).filter(|t| *t != c && usize::from(*t) != 0));
                }
            }
            _ => choices.extend(runnable.iter().map(|t| t.id()).filter(|t| usize::from(*t) != 0)),
        }
        if main.is_none() {
            self.waiting = true;
        }
        if choices.is_empty() {
            choices.push(main?);
        }
        if self.step == self.path.len() {
            self.path.push((0, choices.len() as u32));
        }
        let (c, n) = self.path[self.step];
        assert_eq!(n as usize, choices.len(), "harness: an execution is not repeatable");
        self.step += 1;
        let next = choices[c as usize];
        if here.is_some() && here != Some(next) && !yielding && here.map(usize::from) != Some(0) {
            self.preemptions += 1;
        }
        self.switches.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Some(next)
    }
    fn next_u64(&mut self) -> u64 {
        4
    }
}

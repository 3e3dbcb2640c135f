use crate::engine::*;
use crate::sched::Bounded;
use crate::queue::{message, queue, sequential, Nothing};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use stratumv2::codec::Message;
use stratumv2::network::Peer;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Op {
    Queue,
    /// Two messages under one lock.
    QueueTwo,
    Drain,
}

/// One finished operation: when it began and ended, what it put in or took out.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Event {
    thread: usize,
    begin: u64,
    end: u64,
    put: Vec<u64>,
    took: Option<Vec<u64>>,
}

fn config() -> shuttle::Config {
    let mut c = shuttle::Config::new();
    c.max_steps = shuttle::MaxSteps::ContinueAfter(3000);
    c.failure_persistence = shuttle::FailurePersistence::None;
    c.stack_size = 0x10000;
    c
}

/// Runs single-threaded code where the controlled locks work.
pub fn inside(f: Box<dyn Fn() -> Res + Send + Sync>) -> Res {
    let out = Arc::new(Mutex::new(None));
    let o = out.clone();
    let mut c = config();
    c.max_steps = shuttle::MaxSteps::None;
    c.stack_size = 0x40000;
    let s = shuttle::scheduler::DfsScheduler::new(Some(1), false);
    shuttle::Runner::new(s, c).run(move || {
        let r = f();
        *o.lock().unwrap() = Some(r);
    });
    let r = out.lock().unwrap().take();
    r.unwrap_or_else(|| Err("the calls do not return".into()))
}

/// Is there an order of the operations, respecting which ended before which began, in which a
/// queue behaves like this?
fn explained(ev: &[Event]) -> bool {
    fn go(ev: &[Event], used: &mut Vec<bool>, q: &mut Vec<u64>, left: usize) -> bool {
        if left == 0 {
            return true;
        }
        let first_end = ev.iter().zip(used.iter()).filter(|(_, u)| !**u).map(|(e, _)| e.end).min().unwrap();
        for i in 0..ev.len() {
            if used[i] || ev[i].begin > first_end {
                continue;
            }
            match &ev[i].took {
                Some(t) => {
                    if t != q {
                        continue;
                    }
                    used[i] = true;
                    let saved = std::mem::take(q);
                    if go(ev, used, q, left - 1) {
                        return true;
                    }
                    *q = saved;
                    used[i] = false;
                }
                None => {
                    used[i] = true;
                    let n = q.len();
                    q.extend(&ev[i].put);
                    if go(ev, used, q, left - 1) {
                        return true;
                    }
                    q.truncate(n);
                    used[i] = false;
                }
            }
        }
        false
    }
    go(ev, &mut vec![false; ev.len()], &mut vec![], ev.len())
}

fn numbers(v: &[Message], all: &[Message]) -> Result<Vec<u64>, String> {
    v.iter()
        .map(|m| all.iter().position(|x| x == m).map(|i| i as u64).ok_or_else(|| format!("a drain returns a message nobody queued: {:?}", m)))
        .collect()
}

fn complaint(ev: &[Event], total: usize) -> String {
    let took: Vec<u64> = ev.iter().filter_map(|e| e.took.clone()).flatten().collect();
    let lost: Vec<u64> = (0..total as u64).filter(|n| !took.contains(n)).collect();
    let twice: Vec<u64> = (0..total as u64).filter(|n| took.iter().filter(|x| *x == n).count() > 1).collect();
    let mut lines: Vec<String> = ev
        .iter()
        .map(|e| match &e.took {
            Some(t) => format!("[{}..{}] thread {} drains {:?}", e.begin, e.end, e.thread, t),
            None => format!("[{}..{}] thread {} queues {:?}", e.begin, e.end, e.thread, e.put),
        })
        .collect();
    lines.sort();
    format!(
        "{}: {}",
        if !lost.is_empty() {
            format!("lost {:?}", lost)
        } else if !twice.is_empty() {
            format!("delivered more than once {:?}", twice)
        } else {
            "no order of the operations explains what the drains return".into()
        },
        lines.join(", ")
    )
}

struct Shared {
    runs: AtomicU64,
    histories: Mutex<HashSet<Vec<Event>>>,
    wrong: Mutex<Option<String>>,
}

fn explore_scenario(threads: &[Vec<Op>], bound: usize, cap: usize, ctx: &mut Ctx) -> Res {
    let shared = Arc::new(Shared { runs: AtomicU64::new(0), histories: Mutex::new(HashSet::new()), wrong: Mutex::new(None) });
    let s = shared.clone();
    let threads: Arc<Vec<Vec<Op>>> = Arc::new(threads.to_vec());
    let total: usize = threads.iter().flatten().map(|o| [1, 2, 0][*o as usize]).sum();
    let all: Arc<Vec<Message>> = Arc::new((0..total as u64).map(message).collect());
    let sched = Bounded::new(bound, cap);
    let switches = sched.switches.clone();
    let r = guarded(|| {
        shuttle::Runner::new(sched, config()).run(move || {
            let peer = Arc::new(Peer::new(Nothing));
            let clock = Arc::new(AtomicU64::new(0));
            let log: Arc<Mutex<Vec<Event>>> = Arc::new(Mutex::new(vec![]));
            let wrong: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
            let mut next = 0u64;
            let mut handles = vec![];
            for (t, ops) in threads.iter().enumerate() {
                let first = next;
                next += ops.iter().map(|o| [1, 2, 0][*o as usize]).sum::<u64>();
                let (peer, clock, log, wrong, all, ops) = (peer.clone(), clock.clone(), log.clone(), wrong.clone(), all.clone(), ops.clone());
                handles.push(shuttle::thread::spawn(move || {
                    let mut n = first;
                    for o in &ops {
                        // The end of an operation: anyone may run next.
                        shuttle::thread::yield_now();
                        let begin = clock.fetch_add(1, SeqCst);
                        let mut e = Event { thread: t, begin, end: 0, put: vec![], took: None };
                        match o {
                            Op::Queue => {
                                let _ = queue(&peer, all[n as usize].clone());
                                e.put = vec![n];
                                n += 1;
                            }
                            Op::QueueTwo => {
                                {
                                    let mut g = peer.pending_msg_buffer.lock().unwrap();
                                    g.push(all[n as usize].clone());
                                    g.push(all[n as usize + 1].clone());
                                }
                                e.put = vec![n, n + 1];
                                n += 2;
                            }
                            Op::Drain => match numbers(&peer.get_pending_msgs(), &all) {
                                Ok(v) => e.took = Some(v),
                                Err(w) => {
                                    wrong.lock().unwrap().get_or_insert(w);
                                }
                            },
                        }
                        e.end = clock.fetch_add(1, SeqCst);
                        log.lock().unwrap().push(e);
                    }
                }));
            }
            for h in handles {
                let _ = h.join();
            }
            for _ in 0..2 {
                let begin = clock.fetch_add(1, SeqCst);
                match numbers(&peer.get_pending_msgs(), &all) {
                    Ok(v) => {
                        let end = clock.fetch_add(1, SeqCst);
                        log.lock().unwrap().push(Event { thread: 99, begin, end, put: vec![], took: Some(v) });
                    }
                    Err(w) => {
                        wrong.lock().unwrap().get_or_insert(w);
                    }
                }
            }
            s.runs.fetch_add(1, SeqCst);
            let mut ev = std::mem::take(&mut *log.lock().unwrap());
            let mut why = wrong.lock().unwrap().take();
            ev.sort_by_key(|e| e.begin);
            if why.is_none() && s.histories.lock().unwrap().insert(ev.clone()) && !explained(&ev) {
                why = Some(complaint(&ev, all.len()));
            }
            if let Some(w) = why {
                s.wrong.lock().unwrap().get_or_insert(w.clone());
                // Stop the search.
                panic!("{}", w);
            }
        })
    });
    let runs = shared.runs.load(SeqCst);
    ctx.traces += runs;
    ctx.transitions += switches.load(SeqCst);
    for e in shared.histories.lock().unwrap().iter() {
        ctx.visit(h(&e.iter().flat_map(|e| [e.thread as u64, e.begin, e.end]).collect::<Vec<_>>()));
    }
    if let Some(w) = shared.wrong.lock().unwrap().take() {
        return Err(w);
    }
    match r {
        Err(p) if p.contains("deadlock") => Err(format!("a schedule ends in a deadlock: {}", p)),
        Err(p) => Err(format!("a schedule panics: {}", p)),
        Ok(n) => {
            if n >= cap {
                ctx.count("scenario cut at the cap");
            } else if runs < n as u64 {
                ctx.count("schedules cut at the step bound");
            }
            if runs == 0 {
                return Err("no schedule lets the threads finish".into());
            }
            Ok(())
        }
    }
}

/// Every multiset of threads with at most `each` operations, `total` in all.
fn scenarios(threads: usize, each: usize, total: usize) -> Vec<Vec<Vec<Op>>> {
    let mut seqs: Vec<Vec<Op>> = vec![];
    for len in 1..=each {
        for n in 0..3usize.pow(len as u32) {
            let mut r = Radix(n as u64);
            seqs.push((0..len).map(|_| [Op::Queue, Op::QueueTwo, Op::Drain][r.take(3)]).collect());
        }
    }
    fn go(seqs: &[Vec<Op>], from: usize, left: usize, room: usize, cur: &mut Vec<Vec<Op>>, out: &mut Vec<Vec<Vec<Op>>>) {
        if left == 0 {
            if cur.iter().flatten().any(|o| *o == Op::Drain) {
                out.push(cur.clone());
            }
            return;
        }
        for i in from..seqs.len() {
            if seqs[i].len() + (left - 1) <= room {
                cur.push(seqs[i].clone());
                go(seqs, i, left - 1, room - seqs[i].len(), cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(&seqs, 0, threads, total, &mut vec![], &mut out);
    // The largest first, so that the cores end together.
    out.sort_by_key(|s| std::cmp::Reverse(s.iter().map(|t| t.len()).sum::<usize>()));
    out
}

fn schedules(name: &str, threads: usize, each: usize, total: usize, bound: usize) -> Family {
    let sc = scenarios(threads, each, total);
    Family::new(
        name,
        sc.len() as u64,
        format!(
            "every schedule with {} of every choice of {} threads with at most {} operations each and {} in all, each operation queueing one message, two at once, or draining",
            if bound == ALL { "any number of preemptions".into() } else { format!("at most {} preemptions", bound) },
            threads,
            each,
            total
        ),
        move |n, ctx| {
            let s = &sc[n as usize];
            ctx.note(|| format!("{:?}", s));
            explore_scenario(s, bound, 40_000_000, ctx).map_err(|e| format!("threads {:?}: {}", s, e))
        },
    )
    .hang(800)
}

const ALL: usize = usize::MAX;

pub fn c25(tier: Tier) -> Property {
    let mut f = vec![];
    f.push(schedules("two threads, all schedules", 2, tier.pick(3, 4), tier.pick(4, 5), ALL));
    f.push(schedules("two threads", 2, tier.pick(4, 5), tier.pick(6, 7), tier.pick(2, 4)));
    f.push(schedules("three threads, all schedules", 3, tier.pick(1, 2), tier.pick(3, 4), ALL));
    f.push(schedules("three threads", 3, tier.pick(2, 3), tier.pick(5, 6), tier.pick(2, 3)));
    f.push(schedules("four threads", 4, tier.pick(1, 2), tier.pick(4, 5), tier.pick(1, 2)));
    f.extend(sequential(tier, inside));
    Property {
        families: f,
        assumptions: vec![
            "threads switch at operations on the standard library's locks, atomics and channels (the sources are compiled against replacements for them)".into(),
            "a switch at the end of a thread's operation, or when it blocks or ends, is free; any other is a preemption".into(),
            "sequentially consistent memory; the threads queue through the public pending_msg_buffer".into(),
        ],
    }
}

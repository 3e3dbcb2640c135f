//! C25, the part about one thread: every bounded history of queueing and draining.
//!
//! `exec` runs a closure where the library's locks work: directly with the real standard
//! library, inside the exploring scheduler with the controlled one.

use crate::engine::*;
use std::collections::VecDeque;
use std::sync::Arc;
use stratumv2::codec::Message;
use stratumv2::error::Error;
use stratumv2::network::{Encryptor, Peer};
use stratumv2::types::MessageType;

pub struct Nothing;
impl Encryptor for Nothing {
    fn is_handshake_complete(&self) -> bool {
        false
    }
    fn recv_handshake(&mut self, _: &mut [u8]) -> Result<Vec<u8>, Error> {
        Ok(vec![])
    }
    fn init_handshake(&mut self) -> Result<Vec<u8>, Error> {
        Ok(vec![])
    }
    fn encrypt_message(_: &[u8]) -> Vec<u8> {
        vec![]
    }
    fn decrypt_message(_: &[u8]) -> Vec<u8> {
        vec![]
    }
}

pub type Exec = fn(Box<dyn Fn() -> Res + Send + Sync>) -> Res;

pub fn queue(p: &Peer<Nothing>, m: Message) -> Res {
    p.pending_msg_buffer.lock().map_err(|_| "the queue cannot be locked".to_string())?.push(m);
    Ok(())
}

const TYPES: [MessageType; 6] = [
    MessageType::SetupConnection,
    MessageType::SetupConnectionSuccess,
    MessageType::SetupConnectionError,
    MessageType::ChannelEndpointChanged,
    MessageType::OpenStandardMiningChannel,
    MessageType::UpdateChannel,
];

/// Message number `n`; different numbers give different messages.
pub fn message(n: u64) -> Message {
    Message::new(TYPES[(n % 6) as usize], n.to_le_bytes().to_vec())
}

fn same(got: &[Message], want: &[Message], when: impl Fn() -> String) -> Res {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("{}: {} messages come out, {} expected, first difference at {}", when(), got.len(), want.len(), at))
}

/// The queues of some peers and their model.
struct World {
    real: Vec<Peer<Nothing>>,
    model: Vec<VecDeque<Message>>,
}

impl World {
    fn new(n: usize) -> World {
        World { real: (0..n).map(|_| Peer::new(Nothing)).collect(), model: vec![VecDeque::new(); n] }
    }
    fn push(&mut self, p: usize, m: Message) -> Res {
        self.model[p].push_back(m.clone());
        queue(&self.real[p], m)
    }
    fn drain(&mut self, p: usize, when: impl Fn() -> String) -> Res {
        let want: Vec<Message> = self.model[p].drain(..).collect();
        same(&self.real[p].get_pending_msgs(), &want, when)
    }
    fn finish(&mut self, when: impl Fn() -> String + Copy) -> Res {
        for _ in 0..2 {
            for p in 0..self.real.len() {
                self.drain(p, || format!("{}, at the end", when()))?;
            }
        }
        Ok(())
    }
}

fn family<F>(name: &str, size: u64, bounds: &str, exec: Exec, run: F) -> Family
where
    F: Fn(u64) -> Res + Send + Sync + 'static,
{
    let run = Arc::new(run);
    Family::new(name, size, bounds, move |n, ctx| {
        let run = run.clone();
        ctx.visit(h(&[25, n]));
        exec(Box::new(move || run(n)))
    })
}

pub fn sequential(tier: Tier, exec: Exec) -> Vec<Family> {
    let mut f = vec![];
    let len = tier.pick(10, 12);
    f.push(family("histories", 3u64.pow(len), "every history of 10 (12) steps: queue a new message, queue an equal message, drain", exec, move |n| {
        let mut r = Radix(n);
        let mut w = World::new(1);
        for i in 0..len as u64 {
            match r.take(3) {
                0 => w.push(0, message(i + 1))?,
                1 => w.push(0, message(0))?,
                _ => w.drain(0, || format!("history {}, step {}", n, i))?,
            }
        }
        w.finish(|| format!("history {}", n))
    }));
    let len = tier.pick(8, 9);
    f.push(family("two connections", 4u64.pow(len), "every history of 8 (9) steps queueing to and draining either of two connections", exec, move |n| {
        let mut r = Radix(n);
        let mut w = World::new(2);
        for i in 0..len as u64 {
            let a = r.take(4);
            if a < 2 {
                w.push(a, message(i))?;
            } else {
                w.drain(a - 2, || format!("history {}, step {}", n, i))?;
            }
        }
        w.finish(|| format!("history {}", n))
    }));
    let sizes: Vec<u64> = {
        let mut v: Vec<u64> = (0..=1100).collect();
        for k in 11..tier.pick(17, 20) {
            v.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
        }
        v
    };
    {
        let sizes = sizes.clone();
        f.push(family("backlogs", sizes.len() as u64 * 2, "backlogs of every length up to 1100 and around powers of two up to 2^16 (2^19), of distinct or of equal messages", exec, move |n| {
            let mut r = Radix(n);
            let equal = r.take(2) == 1;
            let k = sizes[r.0 as usize];
            let mut w = World::new(1);
            for i in 0..k {
                w.push(0, message(if equal { 1 } else { i }))?;
            }
            w.drain(0, || format!("a backlog of {}", k))?;
            w.push(0, message(5))?;
            w.finish(|| format!("after a backlog of {}", k))
        }));
    }
    let m = tier.pick(24, 40);
    f.push(family("three backlogs", m * m * m, "three backlogs of every length below 24 (40), drained in turn", exec, move |n| {
        let mut r = Radix(n);
        let mut w = World::new(1);
        for b in 0..3u64 {
            for i in 0..r.take(m as usize) as u64 {
                w.push(0, message(100 * b + i))?;
            }
            w.drain(0, || format!("case {}, backlog {}", n, b))?;
        }
        w.finish(|| format!("case {}", n))
    }));
    let lens = [0usize, 1, 2, 31, 32, 33, 255, 256, 257, 65535, 65536, 65537, (1 << 24) - 1, 1 << 24, (1 << 24) + 1];
    f.push(family("contents", (27 * lens.len() * 3) as u64, "every message type with payloads of boundary lengths in each place of a backlog of three", exec, move |n| {
        let mut r = Radix(n);
        let l = lens[r.take(lens.len())];
        let place = r.take(3);
        let t = crate::message_types()[r.take(27)];
        let mut w = World::new(1);
        for i in 0..3 {
            w.push(0, if i == place { Message::new(t, vec![0x5a; l]) } else { message(i as u64) })?;
        }
        w.finish(|| format!("case {} ({} bytes)", n, l))
    }));
    f
}

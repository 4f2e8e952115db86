//! The simulated network a scenario's messages travel through, decided while a plan is generated:
//! delay, reordering, loss, duplication, partitions that heal, slow parties.

use crate::plan::*;
use crate::rng::*;
use std::cmp::Reverse;
use std::collections::BinaryHeap;

/// informational step: a fault the network injected (nothing to execute)
pub const FAULT: u16 = 99;
pub const FAULTS: [&str; 6] = ["message lost", "message duplicated", "message delayed", "message cut by partition", "message reordered", "party slow"];

pub struct Net {
    loss: u64,
    dup: u64,
    stall: u64,
    dmin: u64,
    dmax: u64,
    /// from, until, one side
    parts: Vec<(u64, u64, u64)>,
    slow: Option<usize>,
    last: Vec<Vec<u64>>,
    pub faults: Vec<(u64, i64)>,
}

impl Net {
    pub fn new(r: &mut Rng, parties: usize, horizon: u64) -> Net {
        // swarm: each fault kind is off in some runs
        let lv = |r: &mut Rng, max: u64| if r.chance(1, 3) { 0 } else { r.below(max) };
        let mut parts = Vec::new();
        if r.chance(1, 2) {
            for _ in 0..1 + r.below(3) {
                let a = r.below(horizon);
                parts.push((a, a + r.below(horizon / 2 + 1), r.next()));
            }
        }
        let dmin = 1 + r.below(100_000);
        Net {
            loss: lv(r, 50),
            dup: lv(r, 50),
            stall: lv(r, 20),
            dmin,
            dmax: dmin + r.pick(&[0, 1_000, 1_000_000, 20_000_000]) + 1,
            parts,
            slow: if r.chance(1, 4) { Some(r.idx(parties)) } else { None },
            last: vec![vec![0; parties]; parties],
            faults: Vec::new(),
        }
    }
    fn cut(&self, t: u64, a: usize, b: usize) -> bool {
        self.parts.iter().any(|(f, u, m)| t >= *f && t < *u && ((m >> a) ^ (m >> b)) & 1 == 1)
    }
    /// arrival times of what is sent at t
    pub fn send(&mut self, r: &mut Rng, t: u64, a: usize, b: usize) -> Vec<u64> {
        let mut v = Vec::new();
        let copies = if r.chance(self.dup, 100) {
            self.faults.push((t, 1));
            2 + r.below(2)
        } else {
            1
        };
        for _ in 0..copies {
            if r.chance(self.loss, 100) {
                self.faults.push((t, 0));
                continue;
            }
            let mut d = self.dmin + r.below(self.dmax - self.dmin);
            if r.chance(self.stall, 100) {
                d += r.below(200_000_000);
                self.faults.push((t, 2));
            }
            if self.slow == Some(a) || self.slow == Some(b) {
                d *= 8;
                self.faults.push((t, 5));
            }
            if self.cut(t, a, b) || self.cut(t + d, a, b) {
                self.faults.push((t, 3));
                continue;
            }
            if t + d < self.last[a][b] {
                self.faults.push((t, 4));
            }
            self.last[a][b] = self.last[a][b].max(t + d);
            v.push(t + d);
        }
        v
    }
}

/// simulated event queue; ties keep insertion order
pub struct Queue<E> {
    h: BinaryHeap<Reverse<(u64, u64)>>,
    e: Vec<Option<E>>,
}
impl<E> Queue<E> {
    pub fn new() -> Queue<E> {
        Queue { h: BinaryHeap::new(), e: Vec::new() }
    }
    pub fn push(&mut self, t: u64, e: E) {
        self.h.push(Reverse((t, self.e.len() as u64)));
        self.e.push(Some(e));
    }
    pub fn pop(&mut self) -> Option<(u64, E)> {
        let Reverse((t, k)) = self.h.pop()?;
        Some((t, self.e[k as usize].take().unwrap()))
    }
}

/// put the network's faults into the event list, in time order
pub fn weave(steps: &mut Vec<Step>, net: &Net) {
    for (t, k) in &net.faults {
        let mut s = Step { t: *t, code: FAULT, ..Step::default() };
        s.a[0] = *k;
        steps.push(s);
    }
    steps.sort_by_key(|s| s.t);
}

pub fn fault_name(s: &Step) -> &'static str {
    FAULTS[(s.a[0].unsigned_abs() as usize) % FAULTS.len()]
}

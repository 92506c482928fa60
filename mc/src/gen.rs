//! Indexed spaces: expression trees by size, strings over an alphabet

use crate::model::*;

#[derive(Clone)]
pub enum Un {
    Not,
    Rep(usize, Option<usize>),
}

/// all expression trees up to a size: leaves, unary operators, n-ary and/or of 2 and 3
pub struct Pool {
    pub leaves: Vec<E>,
    pub unary: Vec<Un>,
    pub max: usize,
    pub ternary: bool,
    /// count[s] = trees of exactly s nodes
    count: Vec<u64>,
}

impl Pool {
    pub fn new(leaves: Vec<E>, unary: Vec<Un>, max: usize, ternary: bool) -> Pool {
        let mut p = Pool { leaves, unary, max, ternary, count: vec![0; max + 1] };
        for s in 1..=max {
            p.count[s] = p.blocks(s).iter().map(|b| b.1).sum();
        }
        p
    }
    // (kind, how many): 0 leaf; 1+k unary k; 100+2*i+and/or binary; …
    fn blocks(&self, s: usize) -> Vec<(Block, u64)> {
        let mut v = vec![];
        if s == 1 {
            v.push((Block::Leaf, self.leaves.len() as u64));
        }
        if s >= 2 {
            for k in 0..self.unary.len() {
                v.push((Block::Un(k), self.count[s - 1]));
            }
        }
        for is_and in [true, false] {
            for a in 1..s.saturating_sub(1) {
                let b = s - 1 - a;
                v.push((Block::Bin(is_and, a, b), self.count[a] * self.count[b]));
            }
            if self.ternary {
                for a in 1..s.saturating_sub(2) {
                    for b in 1..(s - 1 - a) {
                        let c = s - 1 - a - b;
                        v.push((Block::Ter(is_and, a, b, c), self.count[a] * self.count[b] * self.count[c]));
                    }
                }
            }
        }
        v
    }
    pub fn total(&self) -> u64 {
        self.count.iter().sum()
    }
    pub fn nth(&self, mut i: u64) -> E {
        for s in 1..=self.max {
            if i < self.count[s] {
                return self.nth_size(s, i);
            }
            i -= self.count[s];
        }
        panic!("out of the pool")
    }
    fn nth_size(&self, s: usize, mut i: u64) -> E {
        for (b, n) in self.blocks(s) {
            if i >= n {
                i -= n;
                continue;
            }
            let mk = |is_and: bool, v: Vec<E>| if is_and { E::And(v) } else { E::Or(v) };
            return match b {
                Block::Leaf => self.leaves[i as usize].clone(),
                Block::Un(k) => {
                    let e = Box::new(self.nth_size(s - 1, i));
                    match self.unary[k] {
                        Un::Not => E::Not(e),
                        Un::Rep(a, b) => E::Rep(e, a, b),
                    }
                }
                Block::Bin(is_and, a, b) => {
                    let n = self.count[b];
                    mk(is_and, vec![self.nth_size(a, i / n), self.nth_size(b, i % n)])
                }
                Block::Ter(is_and, a, b, c) => {
                    let (nb, nc) = (self.count[b], self.count[c]);
                    mk(
                        is_and,
                        vec![
                            self.nth_size(a, i / (nb * nc)),
                            self.nth_size(b, i / nc % nb),
                            self.nth_size(c, i % nc),
                        ],
                    )
                }
            };
        }
        panic!("out of the block")
    }
}

enum Block {
    Leaf,
    Un(usize),
    Bin(bool, usize, usize),
    Ter(bool, usize, usize, usize),
}

/// all strings (sequences of items) up to a length
pub fn strings_upto(alpha: &[&str], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = Vec::with_capacity(last.len() * alpha.len());
        for s in &last {
            for a in alpha {
                next.push(format!("{}{}", s, a));
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// number of sequences of length <= max over k items
pub fn seqs(k: u64, max: u32) -> u64 {
    (0..=max).map(|l| k.pow(l)).sum()
}
/// i-th sequence, shortest first
pub fn nth_seq(k: u64, mut i: u64) -> Vec<usize> {
    let mut l = 0u32;
    while i >= k.pow(l) {
        i -= k.pow(l);
        l += 1;
    }
    let mut v = vec![0usize; l as usize];
    for d in (0..l as usize).rev() {
        v[d] = (i % k) as usize;
        i /= k;
    }
    v
}

pub fn std_unary() -> Vec<Un> {
    vec![Un::Not, Un::Rep(0, Some(1)), Un::Rep(0, None), Un::Rep(1, None), Un::Rep(2, Some(3))]
}

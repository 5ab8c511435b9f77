//! Makes a failing run smaller while it keeps failing in the same way.
use crate::drive::{trial, Replay};
use crate::model::Op;
use crate::plan::*;
use std::time::{Duration, Instant};

struct Min<'a> {
    best: Replay,
    until: Instant,
    save: &'a dyn Fn(&Replay),
    tries: u32,
}

impl<'a> Min<'a> {
    fn attempt(&mut self, plan: Plan, dec: Decisions) -> bool {
        if Instant::now() > self.until {
            return false;
        }
        self.tries += 1;
        let r = Replay { plan, decisions: Some(dec), ..self.best.clone() };
        match trial(&r) {
            Some(t) if t.kind == self.best.kind => {
                self.best = Replay {
                    plan: r.plan,
                    decisions: Some(t.decisions),
                    message: t.msg,
                    hash: t.hash,
                    ..self.best.clone()
                };
                (self.save)(&self.best);
                true
            }
            _ => false,
        }
    }
    fn dec(&self) -> Decisions {
        self.best.decisions.clone().unwrap_or_default()
    }

    fn commands(&mut self) -> bool {
        let mut any = false;
        // whole phases, then clients, then single commands
        let mut i = self.best.plan.phases.len();
        while i > 0 {
            i -= 1;
            let mut p = self.best.plan.clone();
            if p.phases.len() > 1 {
                p.phases.remove(i);
                any |= self.attempt(p, self.dec());
            }
        }
        for pi in (0..self.best.plan.phases.len()).rev() {
            for ci in (0..self.best.plan.phases[pi].clients.len()).rev() {
                let n = self.best.plan.phases[pi].clients[ci].len();
                for k in (0..n).rev() {
                    let mut p = self.best.plan.clone();
                    p.phases[pi].clients[ci].remove(k);
                    any |= self.attempt(p, self.dec());
                }
            }
            let n = self.best.plan.phases[pi].pre.len();
            for k in (0..n).rev() {
                let mut p = self.best.plan.clone();
                p.phases[pi].pre.remove(k);
                any |= self.attempt(p, self.dec());
            }
        }
        for k in (0..self.best.plan.files.len()).rev() {
            let mut p = self.best.plan.clone();
            p.files.remove(k);
            any |= self.attempt(p, self.dec());
        }
        any
    }

    fn decisions(&mut self) -> bool {
        let mut any = false;
        let d0 = self.dec();
        let mut chunk = d0.switches.len().max(1);
        while chunk >= 1 {
            let mut i = 0;
            while i < self.dec().switches.len() {
                let mut d = self.dec();
                let end = (i + chunk).min(d.switches.len());
                d.switches.drain(i..end);
                if self.attempt(self.best.plan.clone(), d) {
                    any = true;
                } else {
                    i += chunk;
                }
                if Instant::now() > self.until {
                    return any;
                }
            }
            chunk /= 2;
        }
        for i in (0..self.dec().faults.len()).rev() {
            let mut d = self.dec();
            if i < d.faults.len() {
                d.faults.remove(i);
                any |= self.attempt(self.best.plan.clone(), d);
            }
        }
        any
    }

    fn lists(&mut self) -> bool {
        let mut any = false;
        let uids: Vec<Uid> = self.best.plan.cmds().map(|c| c.uid).collect();
        for u in uids {
            // simplest way to write the command line, no stdin noise
            let mut p = self.best.plan.clone();
            if let Some(c) = find(&mut p, u) {
                if c.style != 0 {
                    c.style = 0;
                    any |= self.attempt(p, self.dec());
                }
            }
            let mut p = self.best.plan.clone();
            if let Some(c) = find(&mut p, u) {
                if c.out_fail.is_some() {
                    c.out_fail = None;
                    any |= self.attempt(p, self.dec());
                }
            }
            for variant in 0..64 {
                let mut p = self.best.plan.clone();
                let c = match find(&mut p, u) {
                    Some(c) => c,
                    None => break,
                };
                match smaller(&c.op, variant) {
                    None => break,
                    Some(op) => {
                        c.op = op;
                        any |= self.attempt(p, self.dec());
                    }
                }
            }
        }
        for f in 0..self.best.plan.files.len() {
            let mut chunk = 1usize << 10;
            while chunk >= 1 {
                let mut i = 0;
                loop {
                    let mut p = self.best.plan.clone();
                    let lines: Vec<String> = match &p.files[f].1 {
                        FileData::Text(t) => t.split_inclusive('\n').map(|s| s.to_string()).collect(),
                        _ => break,
                    };
                    if i >= lines.len() || Instant::now() > self.until {
                        break;
                    }
                    let mut l = lines.clone();
                    let end = (i + chunk).min(l.len());
                    l.drain(i..end);
                    p.files[f].1 = FileData::Text(l.concat());
                    if self.attempt(p, self.dec()) {
                        any = true;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        any
    }
}

fn find(p: &mut Plan, u: Uid) -> Option<&mut Cmd> {
    p.phases.iter_mut().flat_map(|p| p.clients.iter_mut().flat_map(|c| c.iter_mut())).find(|c| c.uid == u)
}

/// the variant-th way to make the operation smaller
fn smaller(op: &Op, variant: usize) -> Option<Op> {
    let mut out: Vec<Op> = vec![];
    match op {
        Op::Add { parts, rev } => {
            for i in 0..parts.len() {
                if parts.len() > 1 {
                    let mut q = parts.clone();
                    q.remove(i);
                    out.push(Op::Add { parts: q, rev: *rev });
                }
                for ids in shorter(parts[i].ids(), parts[i].min_ids(), matches!(parts[i], crate::model::Part::Edge(_))) {
                    let mut q = parts.clone();
                    q[i] = parts[i].with(ids);
                    out.push(Op::Add { parts: q, rev: *rev });
                }
            }
            if *rev {
                out.push(Op::Add { parts: parts.clone(), rev: false });
            }
        }
        Op::Delete { parts } => {
            for i in 0..parts.len() {
                if parts.len() > 1 {
                    let mut q = parts.clone();
                    q.remove(i);
                    out.push(Op::Delete { parts: q });
                }
                for ids in shorter(parts[i].ids(), parts[i].min_ids(), matches!(parts[i], crate::model::Part::Edge(_))) {
                    let mut q = parts.clone();
                    q[i] = parts[i].with(ids);
                    out.push(Op::Delete { parts: q });
                }
            }
        }
        Op::Cycle { act, cons } => {
            for i in 0..cons.len() {
                let mut q = cons.clone();
                q.remove(i);
                out.push(Op::Cycle { act: act.clone(), cons: q });
            }
        }
        _ => (),
    }
    out.into_iter().nth(variant)
}

fn shorter(ids: &[u64], min: usize, pairs: bool) -> Vec<Vec<u64>> {
    let mut out = vec![];
    let unit = if pairs { 2 } else { 1 };
    let mut k = ids.len() / 2 / unit * unit;
    while k >= unit {
        if ids.len() >= min + k {
            out.push(ids[k..].to_vec());
            out.push(ids[..ids.len() - k].to_vec());
        }
        k = k / 2 / unit * unit;
    }
    out
}

pub fn minimise(r: Replay, secs: u64, save: &dyn Fn(&Replay)) -> Replay {
    // searches have a known set of decisions only after a run
    let mut m = Min { best: r, until: Instant::now() + Duration::from_secs(secs), save, tries: 0 };
    if m.best.decisions.is_none() {
        match trial(&m.best) {
            Some(t) if t.kind == m.best.kind => m.best.decisions = Some(t.decisions),
            _ => return m.best,
        }
        if !m.attempt(m.best.plan.clone(), m.dec()) {
            m.best.decisions = None;
            return m.best;
        }
    }
    loop {
        let a = m.commands();
        let b = m.decisions();
        let c = m.lists();
        if !(a || b || c) || Instant::now() > m.until {
            break;
        }
    }
    // faults and schedule are all in the decisions now
    let mut p = m.best.plan.clone();
    for ph in p.phases.iter_mut() {
        ph.faults = FaultCfg::default();
        ph.clients.retain(|c| !c.is_empty());
    }
    m.attempt(p, m.dec());
    m.best
}

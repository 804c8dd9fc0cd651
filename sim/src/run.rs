//! Many simulated runs: workers, minimising, replay files and evidence.

use crate::checks::{self, Lab, Outcome, Stats, Violation};
use crate::exec::{self, Shm};
use crate::rng;
use crate::scenario::*;
use crate::sys;
use crate::types::Ser;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::*};

pub struct Batch {
    pub prop: String,
    pub seed: u64,
    pub runs: u64,
    pub workers: usize,
    pub deadline_s: u64,
}

#[derive(Default)]
pub struct Summary {
    pub count: BTreeMap<String, u64>,
    pub shapes: BTreeSet<u64>,
    pub schedules: BTreeSet<u64>,
    /// run index, class, message
    pub broken: Option<(u64, String, String)>,
    pub harness: Option<String>,
    pub finished: u64,
    /// basic blocks of the engine that were entered
    pub blocks: u64,
    /// all runs' results folded together, the same for the same seed
    pub digest: u64,
}

pub fn seed_of(seed: u64, idx: u64) -> u64 {
    rng::mix(seed, idx)
}

fn worker(b: &Batch, w: usize, stop: &AtomicU64, end_ns: u64) -> Summary {
    let lab = Lab { shm: Shm::new() };
    let mut s = Summary::default();
    let mut idx = w as u64;
    while idx < b.runs {
        if idx > stop.load(SeqCst) || sys::real_ns() > end_ns {
            break;
        }
        let seed = seed_of(b.seed, idx);
        let sc = checks::generate(&b.prop, seed);
        let mut st = Stats::default();
        let o = checks::evaluate(&lab, &sc, &mut st);
        for (k, v) in &st.count {
            let e = s.count.entry(k.clone()).or_default();
            if k.starts_with("max ") {
                *e = (*e).max(*v)
            } else {
                *e += v
            }
        }
        if st.nontrivial {
            s.shapes.insert(st.shape);
        }
        if st.schedule != 0 {
            s.schedules.insert(st.schedule);
        }
        s.finished += 1;
        s.digest ^= rng::mix(rng::mix(st.shape, st.schedule), rng::mix(st.digest, idx));
        match o {
            Outcome::Held => {}
            Outcome::Broken(v) => {
                s.broken = Some((idx, v.class.to_string(), v.msg));
                stop.fetch_min(idx, SeqCst);
                break;
            }
            Outcome::Harness(m) => {
                s.harness = Some(format!("run {idx} seed {seed}: {m}"));
                stop.store(0, SeqCst);
                break;
            }
        }
        idx += b.workers as u64;
    }
    s
}

impl Summary {
    fn put(&self) -> Vec<u8> {
        let mut o = vec![];
        self.count.iter().map(|(k, v)| (k.clone(), *v)).collect::<Vec<_>>().put(&mut o);
        self.shapes.iter().copied().collect::<Vec<u64>>().put(&mut o);
        self.schedules.iter().copied().collect::<Vec<u64>>().put(&mut o);
        self.broken.as_ref().map(|b| (b.0, (b.1.clone(), b.2.clone()))).put(&mut o);
        self.harness.put(&mut o);
        self.finished.put(&mut o);
        self.digest.put(&mut o);
        o
    }
    fn merge(&mut self, mut i: &[u8]) {
        let i = &mut i;
        for (k, v) in Vec::<(String, u64)>::get(i) {
            let max = k.starts_with("max ");
            let e = self.count.entry(k).or_default();
            *e = if max { (*e).max(v) } else { *e + v };
        }
        self.shapes.extend(Vec::<u64>::get(i));
        self.schedules.extend(Vec::<u64>::get(i));
        if let Some((n, (c, m))) = Option::<(u64, (String, String))>::get(i) {
            if self.broken.as_ref().is_none_or(|b| n < b.0) {
                self.broken = Some((n, c, m));
            }
        }
        if let Some(h) = Option::<String>::get(i) {
            self.harness = Some(h);
        }
        self.finished += u64::get(i);
        self.digest ^= u64::get(i);
    }
}

pub fn batch(b: &Batch) -> Summary {
    checks::prepare(&b.prop);
    let covered = sys::cover();
    let end_ns = sys::real_ns() + b.deadline_s * 1_000_000_000;
    let stop: &AtomicU64 = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const AtomicU64)
    };
    stop.store(u64::MAX, SeqCst);
    let mut pipes = vec![];
    let mut pids = vec![];
    for w in 0..b.workers {
        let mut fd = [0; 2];
        unsafe {
            assert!(libc::pipe(fd.as_mut_ptr()) == 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fd[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let s = worker(b, w, stop, end_ns).put();
                let mut f = std::fs::File::from_raw_fd(fd[1]);
                let ok = f.write_all(&s).is_ok();
                libc::_exit(if ok { 0 } else { 3 });
            }
            libc::close(fd[1]);
            pipes.push(std::fs::File::from_raw_fd(fd[0]));
            pids.push(pid);
        }
    }
    let mut sum = Summary::default();
    for (p, pid) in pipes.iter_mut().zip(pids) {
        let mut v = vec![];
        let _ = p.read_to_end(&mut v);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
            sum.harness = Some(format!("a worker ended with status {st:#x}"));
            continue;
        }
        sum.merge(&v);
    }
    sum.blocks = covered.iter().filter(|b| **b != 0).count() as u64;
    sum
}

// ------------------------------------------------------------------ minimising

struct Min<'a> {
    lab: &'a Lab,
    class: String,
    left: u32,
    end_ns: u64,
    best: Scenario,
    msg: String,
}

impl Min<'_> {
    /// Keep a smaller scenario if it breaks the property the same way.
    fn try_(&mut self, sc: Scenario) -> bool {
        if self.left == 0 || sys::real_ns() > self.end_ns {
            return false;
        }
        self.left -= 1;
        match checks::evaluate(self.lab, &sc, &mut Stats::default()) {
            Outcome::Broken(v) if v.class == self.class => {
                self.best = sc;
                self.msg = v.msg;
                true
            }
            _ => false,
        }
    }

    fn lists(&mut self) -> bool {
        let mut any = false;
        // whole callers
        let mut i = 0;
        while self.best.sessions.len() > 1 && i < self.best.sessions.len() {
            let mut s = self.best.clone();
            s.sessions.remove(i);
            if self.try_(s) {
                any = true;
            } else {
                i += 1;
            }
        }
        for k in 0..self.best.sessions.len() {
            // whole jobs
            let mut i = 0;
            while self.best.sessions[k].jobs.len() > 1 && i < self.best.sessions[k].jobs.len() {
                let mut s = self.best.clone();
                s.sessions[k].jobs.remove(i);
                if self.try_(s) {
                    any = true;
                } else {
                    i += 1;
                }
            }
            // commands, many at a time first
            for j in 0..self.best.sessions[k].jobs.len() {
                let mut n = self.best.sessions[k].jobs[j].ops.len().div_ceil(2);
                while n > 0 {
                    let mut at = 0;
                    while at < self.best.sessions[k].jobs[j].ops.len() {
                        let mut s = self.best.clone();
                        let l = &mut s.sessions[k].jobs[j].ops;
                        let end = (at + n).min(l.len());
                        l.drain(at..end);
                        if self.try_(s) {
                            any = true;
                        } else {
                            at += n;
                        }
                    }
                    n /= 2;
                }
            }
        }
        any
    }

    fn faults(&mut self) -> bool {
        let mut any = false;
        for k in 0..self.best.sessions.len() {
            for j in 0..self.best.sessions[k].jobs.len() {
                for o in 0..self.best.sessions[k].jobs[j].ops.len() {
                    let mut f = 0;
                    while f < self.best.sessions[k].jobs[j].ops[o].faults.len() {
                        let mut s = self.best.clone();
                        s.sessions[k].jobs[j].ops[o].faults.remove(f);
                        if self.try_(s) {
                            any = true;
                        } else {
                            f += 1;
                        }
                    }
                }
            }
        }
        any
    }

    fn bytes(&mut self) -> bool {
        let mut any = false;
        for k in 0..self.best.sessions.len() {
            for j in 0..self.best.sessions[k].jobs.len() {
                for o in 0..self.best.sessions[k].jobs[j].ops.len() {
                    let mut n = self.best.sessions[k].jobs[j].ops[o].bytes.len() / 2;
                    while n > 0 {
                        let mut at = 0;
                        while at < self.best.sessions[k].jobs[j].ops[o].bytes.len() {
                            let mut s = self.best.clone();
                            let b = &mut s.sessions[k].jobs[j].ops[o].bytes;
                            let end = (at + n).min(b.len());
                            b.drain(at..end);
                            if self.try_(s) {
                                any = true;
                            } else {
                                at += n;
                            }
                        }
                        n /= 2;
                    }
                }
            }
        }
        any
    }

    fn world(&mut self) {
        let d = Env::default();
        let edits: [&dyn Fn(&mut Scenario); 12] = [
            &|s| s.env.stdout = sys::StdoutFault::None,
            &|s| {
                s.env.hash_seed = d.hash_seed;
                s.env.clock_ns = d.clock_ns;
                s.env.clock_step = d.clock_step;
            },
            &|s| s.sessions.iter_mut().for_each(|x| x.debug = [false; 4]),
            &|s| s.sessions.iter_mut().for_each(|x| x.dev_errs = 0),
            &|s| s.sessions.iter_mut().for_each(|x| x.entry = false),
            &|s| s.sessions.iter_mut().for_each(|x| x.jobs.iter_mut().for_each(|j| j.power = false)),
            &|s| s.sessions.iter_mut().for_each(|x| x.jobs.iter_mut().for_each(|j| j.second = false)),
            &|s| s.env.d_alloc = 0,
            &|s| s.env.d_edge = 0,
            &|s| s.env.hot = 0,
            &|s| s.env.p_static = 0,
            &|s| s.env.p_cb = 0,
        ];
        for e in edits {
            let mut s = self.best.clone();
            e(&mut s);
            if s != self.best {
                self.try_(s);
            }
        }
    }

    /// Write the schedule out, then take switches away.
    fn schedule(&mut self) {
        if self.best.prop != "C06" {
            return;
        }
        let Some(all) = checks::schedule_of(self.lab, &self.best) else { return };
        let mut s = self.best.clone();
        s.env.switches = Some(all);
        if !self.try_(s) {
            return;
        }
        let mut n = self.best.env.switches.as_ref().unwrap().len().div_ceil(2);
        while n > 0 {
            let mut at = 0;
            while at < self.best.env.switches.as_ref().unwrap().len() {
                let mut s = self.best.clone();
                let l = s.env.switches.as_mut().unwrap();
                let end = (at + n).min(l.len());
                l.drain(at..end);
                if !self.try_(s) {
                    at += n;
                }
            }
            n /= 2;
        }
    }
}

pub fn minimise(lab: &Lab, sc: Scenario, v: &Violation, tries: u32, seconds: u64) -> (Scenario, String) {
    let mut m = Min {
        lab,
        class: v.class.to_string(),
        left: tries,
        end_ns: sys::real_ns() + seconds * 1_000_000_000,
        best: sc,
        msg: v.msg.clone(),
    };
    for _ in 0..4 {
        let a = m.lists();
        let b = m.faults();
        let c = m.bytes();
        m.world();
        if !(a || b || c) {
            break;
        }
    }
    m.left = m.left.max(60);
    m.schedule();
    (m.best, m.msg)
}

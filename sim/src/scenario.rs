//! One simulated execution, complete: who sends what to which printer, what the link does to
//! it on the way, and the environment. A scenario and the code determine a run; the replay
//! file is a scenario written out.

use crate::rng::Rng;
use crate::sys::StdoutFault;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// the whole command is lost
    Drop,
    /// it arrives twice
    Dup,
    /// it arrives after the next one
    Late,
    /// one bit is flipped
    Flip(usize, u8),
    /// one byte is replaced
    Set(usize, u8),
    /// bytes are lost
    Del(usize, usize),
    /// another host's bytes arrive in between
    Ins(usize, Vec<u8>),
    /// the line goes dead inside the command: nothing more of this job arrives
    Cut(usize),
}

impl Fault {
    pub const KINDS: [&'static str; 8] = ["drop", "dup", "late", "flip", "set", "del", "ins", "cut"];
    pub fn kind(&self) -> usize {
        match self {
            Fault::Drop => 0,
            Fault::Dup => 1,
            Fault::Late => 2,
            Fault::Flip(..) => 3,
            Fault::Set(..) => 4,
            Fault::Del(..) => 5,
            Fault::Ins(..) => 6,
            Fault::Cut(_) => 7,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub label: &'static str,
    pub bytes: Vec<u8>,
    pub faults: Vec<Fault>,
}

impl Op {
    pub fn new(label: &'static str, bytes: impl Into<Vec<u8>>) -> Op {
        Op { label, bytes: bytes.into(), faults: vec![] }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Job {
    /// the printer was switched off and on before this job
    pub power: bool,
    /// which of the host's two printers gets it
    pub second: bool,
    pub ops: Vec<Op>,
}

impl Job {
    /// What arrives, and which faults did something.
    pub fn delivered(&self) -> (Vec<u8>, [u32; 8]) {
        let mut out = vec![];
        let mut fired = [0; 8];
        let mut late: Option<Vec<u8>> = None;
        for op in &self.ops {
            let mut b = op.bytes.clone();
            let mut copies = 1;
            let mut delay = false;
            let mut cut = false;
            for f in &op.faults {
                let n = b.len();
                let hit = match f {
                    Fault::Drop => {
                        copies = 0;
                        n > 0
                    }
                    Fault::Dup => {
                        copies *= 2;
                        copies > 0
                    }
                    Fault::Late => {
                        delay = true;
                        true
                    }
                    Fault::Flip(i, bit) if n > 0 => {
                        b[i % n] ^= 1 << (bit & 7);
                        true
                    }
                    Fault::Set(i, v) if n > 0 => {
                        let was = std::mem::replace(&mut b[i % n], *v);
                        was != *v
                    }
                    Fault::Del(i, k) if n > 0 => {
                        let i = i % n;
                        b.drain(i..(i + k).min(n));
                        true
                    }
                    Fault::Ins(i, v) => {
                        let i = i % (n + 1);
                        b.splice(i..i, v.iter().copied());
                        !v.is_empty()
                    }
                    Fault::Cut(i) => {
                        b.truncate(i % (n + 1));
                        cut = true;
                        true
                    }
                    _ => false,
                };
                fired[f.kind()] += hit as u32;
                if cut {
                    break;
                }
            }
            let mut whole = vec![];
            for _ in 0..copies {
                whole.extend_from_slice(&b);
            }
            if delay && late.is_none() && !cut {
                late = Some(whole);
                continue;
            }
            out.extend(whole);
            if cut {
                return (out, fired);
            }
            if let Some(l) = late.take() {
                out.extend(l);
            }
        }
        out.extend(late.unwrap_or_default());
        (out, fired)
    }
    pub fn intact(&self) -> Vec<u8> {
        self.ops.iter().flat_map(|o| o.bytes.iter().copied()).collect()
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Session {
    pub debug: [bool; 4],
    /// a new engine for every call, through the entry points
    pub entry: bool,
    /// errors the simulated output device reports, two bits per output
    pub dev_errs: u32,
    /// what its engine is not used for: 1 images, 2 HTML, 4 parsing alone
    pub skip: u8,
    pub jobs: Vec<Job>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Env {
    pub stdout: StdoutFault,
    pub hash_seed: u64,
    pub clock_ns: u64,
    pub clock_step: u64,
    pub sched_seed: u64,
    pub p_cb: usize,
    pub d_alloc: usize,
    pub d_edge: usize,
    pub hot: usize,
    pub p_static: usize,
    /// the schedule, once a failure is minimised
    pub switches: Option<Vec<(u64, u32)>>,
}

impl Default for Env {
    fn default() -> Env {
        Env {
            stdout: StdoutFault::None,
            hash_seed: 1,
            clock_ns: 1_600_000_000_000_000_000,
            clock_step: 1000,
            sched_seed: 1,
            p_cb: 0,
            d_alloc: 0,
            d_edge: 0,
            hot: 0,
            p_static: 0,
            switches: None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub env: Env,
    pub sessions: Vec<Session>,
}

impl Scenario {
    pub fn jobs(&self) -> impl Iterator<Item = &Job> {
        self.sessions.iter().flat_map(|s| s.jobs.iter())
    }
    pub fn size(&self) -> usize {
        self.jobs().map(|j| 1 + j.ops.iter().map(|o| 1 + o.bytes.len() + 4 * o.faults.len()).sum::<usize>()).sum::<usize>()
            + self.sessions.len()
    }

    pub fn write(&self) -> String {
        let mut o = String::new();
        let e = &self.env;
        writeln!(o, "property {}\nseed {}", self.prop, self.seed).unwrap();
        let st = match e.stdout {
            StdoutFault::None => "ok".into(),
            StdoutFault::Errno(n, a) => format!("errno:{n}:{a}"),
            StdoutFault::Eintr => "eintr".into(),
            StdoutFault::Short => "short".into(),
        };
        writeln!(
            o,
            "env stdout={st} hash={} clock={} step={} sched={} callback={} alloc={} edge={} hot={} static={}",
            e.hash_seed, e.clock_ns, e.clock_step, e.sched_seed, e.p_cb, e.d_alloc, e.d_edge, e.hot, e.p_static
        )
        .unwrap();
        if let Some(s) = &e.switches {
            let l: Vec<String> = s.iter().map(|(n, t)| format!("{n}:{t}")).collect();
            writeln!(o, "switches {}", l.join(" ")).unwrap();
        }
        for s in &self.sessions {
            let d: String = s.debug.iter().map(|b| if *b { '1' } else { '0' }).collect();
            writeln!(o, "session debug={d} entry={} deverrs={} skip={}", s.entry as u8, s.dev_errs, s.skip).unwrap();
            for j in &s.jobs {
                writeln!(o, " job power={}{}", j.power as u8, if j.second { " second" } else { "" }).unwrap();
                for op in &j.ops {
                    write!(o, "  op {} {}", op.label, hex(&op.bytes)).unwrap();
                    for f in &op.faults {
                        match f {
                            Fault::Drop => write!(o, " drop"),
                            Fault::Dup => write!(o, " dup"),
                            Fault::Late => write!(o, " late"),
                            Fault::Flip(i, b) => write!(o, " flip:{i}:{b}"),
                            Fault::Set(i, b) => write!(o, " set:{i}:{b}"),
                            Fault::Del(i, n) => write!(o, " del:{i}:{n}"),
                            Fault::Ins(i, v) => write!(o, " ins:{i}:{}", hex(v)),
                            Fault::Cut(i) => write!(o, " cut:{i}"),
                        }
                        .unwrap();
                    }
                    writeln!(o).unwrap();
                }
            }
        }
        o
    }

    pub fn read(text: &str) -> Option<Scenario> {
        let mut s = Scenario { prop: String::new(), seed: 0, env: Env::default(), sessions: vec![] };
        for line in text.lines() {
            let mut w = line.split_whitespace();
            match w.next() {
                None | Some("#") => {}
                Some("property") => s.prop = w.next()?.into(),
                Some("seed") => s.seed = w.next()?.parse().ok()?,
                Some("env") => {
                    for kv in w {
                        let (k, v) = kv.split_once('=')?;
                        let e = &mut s.env;
                        match k {
                            "stdout" => {
                                let p: Vec<&str> = v.split(':').collect();
                                e.stdout = match p[0] {
                                    "errno" => StdoutFault::Errno(p[1].parse().ok()?, p[2].parse().ok()?),
                                    "eintr" => StdoutFault::Eintr,
                                    "short" => StdoutFault::Short,
                                    _ => StdoutFault::None,
                                }
                            }
                            "hash" => e.hash_seed = v.parse().ok()?,
                            "clock" => e.clock_ns = v.parse().ok()?,
                            "step" => e.clock_step = v.parse().ok()?,
                            "sched" => e.sched_seed = v.parse().ok()?,
                            "callback" => e.p_cb = v.parse().ok()?,
                            "alloc" => e.d_alloc = v.parse().ok()?,
                            "edge" => e.d_edge = v.parse().ok()?,
                            "hot" => e.hot = v.parse().ok()?,
                            "static" => e.p_static = v.parse().ok()?,
                            _ => return None,
                        }
                    }
                }
                Some("switches") => {
                    let mut l = vec![];
                    for p in w {
                        let (n, t) = p.split_once(':')?;
                        l.push((n.parse().ok()?, t.parse().ok()?));
                    }
                    s.env.switches = Some(l);
                }
                Some("session") => {
                    let mut n = Session::default();
                    for kv in w {
                        let (k, v) = kv.split_once('=')?;
                        match k {
                            "debug" => v.bytes().take(4).enumerate().for_each(|(i, b)| n.debug[i] = b == b'1'),
                            "entry" => n.entry = v == "1",
                            "deverrs" => n.dev_errs = v.parse().ok()?,
                            "skip" => n.skip = v.parse().ok()?,
                            _ => return None,
                        }
                    }
                    s.sessions.push(n);
                }
                Some("job") => {
                    let power = w.next()? == "power=1";
                    let second = w.next() == Some("second");
                    s.sessions.last_mut()?.jobs.push(Job { power, second, ops: vec![] });
                }
                Some("op") => {
                    let label: &'static str = Box::leak(w.next()?.to_string().into_boxed_str());
                    let mut op = Op::new(label, unhex(w.next()?)?);
                    for f in w {
                        let p: Vec<&str> = f.split(':').collect();
                        let num = |i: usize| p.get(i)?.parse::<usize>().ok();
                        op.faults.push(match p[0] {
                            "drop" => Fault::Drop,
                            "dup" => Fault::Dup,
                            "late" => Fault::Late,
                            "flip" => Fault::Flip(num(1)?, num(2)? as u8),
                            "set" => Fault::Set(num(1)?, num(2)? as u8),
                            "del" => Fault::Del(num(1)?, num(2)?),
                            "ins" => Fault::Ins(num(1)?, unhex(p.get(2)?)?),
                            "cut" => Fault::Cut(num(1)?),
                            _ => return None,
                        });
                    }
                    s.sessions.last_mut()?.jobs.last_mut()?.ops.push(op);
                }
                Some(_) => return None,
            }
        }
        Some(s)
    }
}

pub fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s == "-" {
        return Some(vec![]);
    }
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

/// How bad the line is.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Link {
    Clean,
    /// only cut
    Cuts,
    Light,
    Heavy,
}

/// Decide what the line does to a job. Faults go inside commands: to their first bytes, where
/// the lengths and function codes are, more often than to their data.
pub fn damage(r: &mut Rng, job: &mut Job, link: Link) {
    let n = job.ops.len();
    if n == 0 || link == Link::Clean {
        return;
    }
    let count = match link {
        Link::Clean | Link::Cuts => 0,
        Link::Light => r.range(1, 3),
        Link::Heavy => r.range(2, 3 + n / 3),
    };
    for _ in 0..count {
        let other: Vec<u8> = {
            let o = &job.ops[r.below(n)].bytes;
            let a = r.below(o.len() + 1);
            o[a..(a + r.range(1, 12)).min(o.len())].to_vec()
        };
        let op = &mut job.ops[r.below(n)];
        let len = op.bytes.len().max(1);
        let at = |r: &mut Rng| if r.chance(2, 3) { r.below(len.min(12)) } else { r.below(len) };
        let f = match r.below(16) {
            0 => Fault::Drop,
            1 => Fault::Dup,
            2 => Fault::Late,
            3..=7 => Fault::Flip(at(r), r.below(8) as u8),
            8 | 9 => Fault::Set(at(r), *r.pick(&[0, 1, 2, 3, 8, 0x18, 0x1b, 0x1d, 48, 49, 50, 64, 65, 127, 128, 255])),
            10..=12 => Fault::Del(at(r), if r.chance(2, 3) { 1 } else { r.range(1, 9) }),
            13 => Fault::Ins(at(r), (0..r.range(1, 4)).map(|_| r.byte()).collect()),
            _ => Fault::Ins(at(r), other),
        };
        op.faults.push(f);
    }
    if link == Link::Cuts || r.chance(1, 6) {
        let op = &mut job.ops[n / 2 + r.below(n - n / 2)];
        let f = Fault::Cut(r.below(op.bytes.len() + 1));
        op.faults.push(f);
    }
}

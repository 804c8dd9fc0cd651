//! For every property: which executions to simulate, and what must hold of them.

use crate::compose;
use crate::exec::{self, Do, ExecResult, JobPlan, Plan, Shm, ThreadPlan};
use crate::gen::{self, Fam};
use crate::html;
use crate::model::{self, Class, Printer};
use crate::rng::{self, Rng};
use crate::scenario::*;
use crate::sys::StdoutFault;
use crate::types::*;
use crate::view::{self, ErrKind, Item};
use std::collections::BTreeMap;

pub const PROPS: [&str; 13] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"];

#[derive(Clone, Debug)]
pub struct Violation {
    /// what minimisation has to keep
    pub class: &'static str,
    pub msg: String,
}

pub enum Outcome {
    Held,
    Broken(Violation),
    Harness(String),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub count: BTreeMap<String, u64>,
    /// what this run looked like, for counting distinct ones
    pub shape: u64,
    pub schedule: u64,
    pub nontrivial: bool,
    /// what the engine did, folded
    pub digest: u64,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.count.entry(k.to_string()).or_default() += n;
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.count.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
}

/// The devices a property needs made before the executor forks.
pub fn pool(prop: &str) -> (usize, usize) {
    match prop {
        "C01" | "C02" | "C12" => (1, 1),
        "C05" => (1, 1),
        "C06" => (4, 4),
        "C11" => (1, 1),
        "C13" => (1, 1),
        "C08" => (0, 1),
        _ => (0, 0),
    }
}

/// Make them, once, in the process the executions are forked from. Replays do the same, so that
/// an execution finds what it found before.
pub fn prepare(prop: &str) {
    static DONE: std::sync::Once = std::sync::Once::new();
    let (imgs, htmls) = pool(prop);
    DONE.call_once(|| exec::fill_pool(imgs, htmls));
}

// ------------------------------------------------------------------ what hosts do

fn job(r: &mut Rng, fams: &[(Fam, usize)], n: usize) -> Job {
    Job { power: false, second: false, ops: gen::ops(r, fams, n) }
}

fn keep(fams: &[(Fam, usize)], only: &[Fam]) -> Vec<(Fam, usize)> {
    fams.iter().copied().filter(|f| only.contains(&f.0)).collect()
}

fn link(r: &mut Rng, clean: usize, light: usize, heavy: usize) -> Link {
    let k = r.below(clean + light + heavy);
    if k < clean {
        Link::Clean
    } else if k < clean + light {
        Link::Light
    } else {
        Link::Heavy
    }
}

fn debug(r: &mut Rng) -> [bool; 4] {
    match r.below(4) {
        0 => [true; 4],
        1 => [r.chance(1, 2), r.chance(1, 2), r.chance(1, 2), r.chance(1, 2)],
        _ => [false; 4],
    }
}

fn stdout(r: &mut Rng) -> StdoutFault {
    match r.below(8) {
        0 => StdoutFault::Errno(libc::EPIPE, 0),
        1 => StdoutFault::Errno(libc::ENOSPC, r.below(300) as u32),
        2 => StdoutFault::Errno(libc::EIO, r.below(3) as u32),
        3 => StdoutFault::Eintr,
        4 => StdoutFault::Short,
        5 => StdoutFault::Errno(libc::EAGAIN, r.below(50) as u32),
        _ => StdoutFault::None,
    }
}

/// A job sent once more: it arrives as before, as it was meant, or with other damage. That is
/// often damage which does not show in its length, its beginning or its end.
fn again(r: &mut Rng, j: &mut Job) {
    if r.chance(1, 2) {
        j.ops.iter_mut().for_each(|o| o.faults.clear());
    }
    if j.ops.is_empty() || r.chance(1, 4) {
        return;
    }
    for _ in 0..r.range(1, 3) {
        let n = j.ops.len();
        let op = &mut j.ops[r.below(n)];
        let at = r.below(op.bytes.len().max(1));
        op.faults.insert(0, if r.chance(1, 2) { Fault::Flip(at, r.below(8) as u8) } else { Fault::Set(at, r.byte()) });
    }
}

/// A whole history of jobs for one printer.
fn history(r: &mut Rng, fams: &[(Fam, usize)], jobs: (usize, usize), n: (usize, usize), damage_: (usize, usize, usize)) -> Session {
    let mut s = Session::default();
    for i in 0..r.range(jobs.0, jobs.1) {
        if i > 0 && r.chance(1, 6) {
            // the host sends an earlier job again
            let mut j = s.jobs[r.below(i)].clone();
            again(r, &mut j);
            s.jobs.push(j);
            continue;
        }
        let k = r.range(n.0, n.1);
        let mut j = job(r, fams, k);
        let l = link(r, damage_.0, damage_.1, damage_.2);
        damage(r, &mut j, l);
        s.jobs.push(j);
    }
    s
}

fn size(r: &mut Rng) -> (usize, usize) {
    match r.below(10) {
        0 => (0, 3),
        1 => (20, 60),
        2..=4 => (1, 8),
        _ => (4, 20),
    }
}

pub fn generate(prop: &str, seed: u64) -> Scenario {
    use Fam::*;
    let r = &mut Rng::new(rng::mix(seed, rng::fnv(prop.as_bytes(), rng::FNV0)));
    let mut env = Env { hash_seed: r.next() | 1, clock_ns: r.next() >> 2, clock_step: r.next() >> 30, ..Env::default() };
    if r.chance(1, 12) {
        r.extreme();
    }
    let n = size(r);
    let all = gen::ALL;
    let with = |extra: &[(Fam, usize)]| -> Vec<(Fam, usize)> { all.iter().copied().chain(extra.iter().copied()).collect() };
    let sessions = match prop {
        "C01" => {
            let base = with(&[(Announce, 2), (Sample, 3)]);
            let fams = gen::swarm(r, &base, &[]);
            let mut s = history(r, &fams, (1, 3), n, (1, 4, 4));
            s.debug = debug(r);
            if r.chance(1, 4) {
                s.entry = true;
                s.jobs.iter_mut().for_each(|j| j.power = true);
            }
            env.stdout = stdout(r);
            vec![s]
        }
        "C02" => {
            let base = with(&[(Announce, 12), (Sample, 1)]);
            let fams = gen::swarm(r, &base, &[Announce]);
            let n = (n.0.min(10), n.1.min(16));
            vec![history(r, &fams, (1, 2), n, (2, 4, 1))]
        }
        "C03" => {
            let base = with(&[(Announce, 2), (Sample, 3)]);
            let fams = gen::swarm(r, &base, &[]);
            let mut s = history(r, &fams, (1, 5), n, (2, 4, 4));
            if r.chance(1, 5) {
                s.entry = true;
            }
            vec![s]
        }
        "C04" => {
            let base = with(&[(Announce, 1), (Sample, 3)]);
            let fams = gen::swarm(r, &base, &[]);
            let n = (n.0.max(1), n.1.min(30));
            let mut s = history(r, &fams, (1, 1), n, (3, 2, 1));
            if r.chance(1, 2) {
                let k = r.range(1, 6);
                s.jobs.push(job(r, &fams, k));
            }
            let j = &mut s.jobs[0];
            for op in &mut j.ops {
                op.faults.retain(|f| !matches!(f, Fault::Cut(_)));
            }
            for _ in 0..r.range(3, 8) {
                let op = r.below(j.ops.len());
                let op = &mut j.ops[op];
                // the first bytes of a command are where its length is decided
                let len = op.bytes.len();
                let at = match r.below(4) {
                    0 => r.below(len + 1),
                    1 => len.saturating_sub(r.below(3)),
                    _ => r.below(len.min(12) + 1),
                };
                op.faults.push(Fault::Cut(at));
            }
            vec![s]
        }
        "C05" => {
            let base = with(&[(Announce, 1), (Sample, 2)]);
            let fams = gen::swarm(r, &base, &[]);
            let n = (n.0, n.1.min(24));
            let mut s = history(r, &fams, (1, 4), n, (2, 3, 3));
            for j in &mut s.jobs[1..] {
                if r.chance(1, 2) {
                    j.ops.insert(0, Op::new("init", b"\x1b@".to_vec()));
                }
            }
            // probe everything that could have leaked
            let k = r.range(1, 8);
            let mut p = job(r, &fams, k);
            let probes: Vec<Op> = vec![
                Op::new("print-buffer", b"\x1d(L\x02\0\x30\x32".to_vec()),
                Op::new("print-nv", b"\x1d(L\x06\0\x30\x45AA\x01\x01".to_vec()),
                Op::new("print-nv", b"\x1d(L\x06\0\x30\x45AB\x01\x01".to_vec()),
                Op::new("print-graphic", b"\x1d(L\x06\0\x30\x55AA\x01\x01".to_vec()),
                Op::new("qr-print", gen::gs_k(49, 81, &[48])),
                Op::new("text", b"Total 12.50 #$@[\\]^`{|}~\x80\xe9".to_vec()),
                Op::new("tab", b"\tA\tB\n".to_vec()),
                Op::new("barcode", b"\x1dkH\x05AB123".to_vec()),
                Op::new("page-print", b"\x1b\x0c".to_vec()),
                Op::new("page-mode", b"\x1bL\x1bW\0\0\0\0\x40\0\x30\0page\x0c".to_vec()),
            ];
            for o in probes {
                if r.chance(1, 2) {
                    let at = r.below(p.ops.len() + 1);
                    p.ops.insert(at, o);
                }
            }
            p.ops.insert(0, Op::new("init", b"\x1b@".to_vec()));
            if r.chance(1, 3) {
                // it was sent before, and is sent again
                let mut q = p.clone();
                again(r, &mut q);
                let at = r.below(s.jobs.len() + 1);
                s.jobs.insert(at, q);
            }
            s.jobs.push(p);
            s.debug = if r.chance(1, 4) { debug(r) } else { [false; 4] };
            vec![s]
        }
        "C06" => {
            let base = with(&[(Sample, 2)]);
            let mut l = vec![];
            // callers that do the same things meet in the same code
            let theme = r.chance(2, 3).then(|| {
                let mut t: Vec<(Fam, usize)> = (0..r.range(1, 3)).map(|_| (r.pick(&base).0, 4)).collect();
                if r.chance(3, 4) {
                    t.push((Text, 4));
                }
                t
            });
            for _ in 0..r.range(2, 4) {
                let fams = theme.clone().unwrap_or_else(|| gen::swarm(r, &base, &[]));
                let mut s = history(r, &fams, (1, 3), (1, 8), (2, 2, 1));
                s.debug = if r.chance(1, 3) { debug(r) } else { [false; 4] };
                for j in &mut s.jobs[1..] {
                    j.power = r.chance(1, 2);
                    j.second = r.chance(1, 2);
                }
                s.skip = *r.pick(&[0, 1, 1, 1, 3, 3, 5, 6, 6]);
                if r.chance(1, 4) {
                    s.entry = true;
                    s.jobs.iter_mut().for_each(|j| j.power = true);
                }
                l.push(s);
            }
            if r.chance(1, 3) {
                // two hosts print the same, or nearly
                l[1] = l[0].clone();
                if r.chance(1, 2) {
                    l[1].jobs.iter_mut().for_each(|j| again(r, j));
                }
            }
            env.stdout = stdout(r);
            env.sched_seed = r.next();
            env.p_cb = *r.pick(&[0, 5, 20, 50, 90]);
            env.d_alloc = *r.pick(&[0, 0, 100, 500, 3000]);
            env.d_edge = *r.pick(&[0, 4, 32, 256, 2000]);
            env.hot = *r.pick(&[0, 0, 0, 8, 64, 512]);
            env.p_static = *r.pick(&[5, 30, 30, 60, 95]);
            l
        }
        "C07" => {
            let mut fams = keep(all, &[Nv, Download, Buffer, Init, Page, Form, Raster, Bits, Color, Unknown, Text, Density, Layout, Style, PageOp]);
            for f in fams.iter_mut() {
                if matches!(f.0, Nv | Download | Buffer) {
                    f.1 *= 4;
                }
            }
            let fams = gen::swarm(r, &fams, &[Nv, Download, Buffer]);
            let n = (n.0, n.1.min(30));
            vec![history(r, &fams, (1, 4), n, (3, 3, 1))]
        }
        "C08" => {
            let base = with(&[(Text, 12), (Sample, 1), (Charset, 6)]);
            let fams = gen::swarm(r, &base, &[Text]);
            vec![history(r, &fams, (1, 3), n, (3, 3, 1))]
        }
        "C09" => {
            let base = with(&[(Style, 12), (Bar, 4), (BarSet, 4), (Qr, 6), (Color, 4), (Layout, 2)]);
            let fams = gen::swarm(r, &base, &[Style, Text]);
            vec![history(r, &fams, (1, 3), n, (3, 3, 1))]
        }
        "C10" => {
            let base = with(&[(Move, 10), (Tabs, 4), (Feed, 6), (Layout, 3), (Sample, 1), (Bits, 4), (Raster, 2), (Buffer, 3)]);
            let fams = gen::swarm(r, &base, &[Move, Text]);
            vec![history(r, &fams, (1, 3), n, (3, 3, 1))]
        }
        "C11" => {
            let base = with(&[(Page, 12), (PageOp, 8)]);
            let fams = gen::swarm(r, &base, &[Page, Text]);
            let n = (n.0.min(8), n.1.min(16));
            vec![history(r, &fams, (1, 2), n, (3, 2, 1))]
        }
        "C12" => {
            let base = with(&[(Sample, 3), (Page, 4)]);
            let fams = gen::swarm(r, &base, &[]);
            let n = (n.0.min(12), n.1.min(30));
            let mut s = history(r, &fams, (1, 3), n, (2, 2, 1));
            s.debug = debug(r);
            if r.chance(1, 5) {
                s.entry = true;
                s.jobs.iter_mut().for_each(|j| j.power = true);
            }
            vec![s]
        }
        "C13" => {
            let base = with(&[(Unknown, 8), (Bar, 4), (Qr, 4), (Buffer, 3), (Page, 2), (PageOp, 2), (Form, 1), (Sample, 1)]);
            let fams = gen::swarm(r, &base, &[]);
            let n = (n.0.min(12), n.1.min(30));
            let mut s = history(r, &fams, (1, 3), n, (3, 3, 1));
            s.dev_errs = if r.chance(1, 2) { r.next() as u32 & r.next() as u32 } else { 0 };
            vec![s]
        }
        _ => panic!("no such property"),
    };
    Scenario { prop: prop.into(), seed, env, sessions }
}

// ------------------------------------------------------------------ running them

pub struct Lab {
    pub shm: Shm,
}

fn what(prop: &str, s: &Session, big: bool) -> Do {
    let d = Do { entry: s.entry, ..Do::default() };
    let mut d = match prop {
        "C01" => Do { parse: true, debug_str: true, thermal: true, sink: true, image: true, html: true, ..d },
        "C02" => Do { parse: true, sink: true, image: true, html: true, ..d },
        "C03" => Do { parse: true, ..d },
        "C04" => Do { parse: true, sink: true, ..d },
        "C05" => Do { parse: true, sink: true, image: true, html: true, ..d },
        "C06" => Do { parse: true, debug_str: true, thermal: true, sink: true, image: true, html: true, ..d },
        "C08" => Do { sink: true, html: true, ..d },
        "C11" => Do { sink: true, image: true, html: true, ..d },
        "C12" | "C13" => Do { sink: true, image: true, html: true, ..d },
        _ => Do { sink: true, ..d },
    };
    d.image &= s.skip & 1 == 0;
    d.html &= s.skip & 2 == 0;
    if s.skip & 4 != 0 {
        (d.parse, d.debug_str, d.thermal) = (false, false, false);
    }
    if big {
        d.image = false;
        d.html = false;
    }
    d
}

/// What the reference printer makes of a session.
struct Ref {
    jobs: Vec<model::Job>,
    /// too much paper to compose pictures of
    big: bool,
}

fn reference(s: &Session, streams: &[Vec<u8>]) -> Ref {
    let mut printers = [Printer::new(s.dev_errs), Printer::new(s.dev_errs)];
    let mut jobs = vec![];
    for (j, b) in s.jobs.iter().zip(streams) {
        let p = &mut printers[j.second as usize];
        if j.power {
            *p = Printer::new(s.dev_errs);
        }
        jobs.push(p.job(b, s.debug));
    }
    let big = jobs.iter().any(|j| j.dots > 4_000_000 || j.page_dots > 1_500_000 || j.image_dots > 4_000_000);
    Ref { jobs, big }
}

fn plan(env: &Env, threads: Vec<ThreadPlan>, meter: bool) -> Plan {
    Plan {
        threads,
        stdout: env.stdout,
        hash_seed: env.hash_seed,
        clock_ns: env.clock_ns,
        clock_step: env.clock_step,
        sched_seed: env.sched_seed,
        p_cb: env.p_cb,
        d_alloc: env.d_alloc,
        d_edge: env.d_edge,
        hot: env.hot,
        p_static: env.p_static,
        explicit: env.switches.clone(),
        meter,
    }
}

fn thread(s: &Session, streams: &[Vec<u8>], what: Do) -> ThreadPlan {
    ThreadPlan {
        jobs: s.jobs.iter().zip(streams).map(|(j, b)| JobPlan { bytes: b.clone(), power: j.power, second: j.second }).collect(),
        debug: s.debug,
        what,
        sink_errs: s.dev_errs,
    }
}

macro_rules! broken {
    ($class:expr, $($a:tt)*) => {
        return Err(Outcome::Broken(Violation { class: $class, msg: format!($($a)*) }))
    };
}

type Res = Result<(), Outcome>;

fn run(lab: &Lab, p: &Plan, st: &mut Stats) -> Result<ExecRec, Outcome> {
    st.add("executions", 1);
    match exec::exec(p, &lab.shm) {
        ExecResult::Ok(r) => {
            let mut all = vec![];
            for j in r.threads.iter().flat_map(|t| &t.jobs) {
                all.extend(j.put_vec());
            }
            st.digest = rng::fnv(&r.yields.to_le_bytes(), rng::mix(st.digest, rng::hash(&all)));
            st.add("scheduling points", r.yields);
            st.add("context switches", r.switches.len() as u64);
            st.add("fault: stdout write failed, short or interrupted", r.stdout_faults);
            st.add("stdout writes", r.stdout_writes);
            st.add("hash seeds drawn", r.hash_calls);
            st.add("clock reads", r.clock_reads);
            st.add("waits for a lock another caller held", r.futex_waits);
            st.add("accesses to static variables", r.statics);
            if r.deadlock {
                return Err(Outcome::Broken(Violation { class: "deadlock", msg: "every caller waits".into() }));
            }
            Ok(r)
        }
        ExecResult::Crash(m) => Err(Outcome::Broken(Violation { class: "crash", msg: m })),
        ExecResult::Harness(m) => Err(Outcome::Harness(m)),
    }
}

fn no_panic(i: usize, j: &JobRec) -> Res {
    if let Some(p) = j.first_panic() {
        broken!("panic", "job {i}: panic in {p}");
    }
    Ok(())
}

/// Everything a property with one printer and no schedule needs.
struct One {
    streams: Vec<Vec<u8>>,
    refs: Ref,
    rec: ExecRec,
}
impl One {
    fn jobs(&self) -> impl Iterator<Item = (usize, &JobRec, &model::Job, &Vec<u8>)> {
        self.rec.threads[0]
            .jobs
            .iter()
            .enumerate()
            .map(|(i, j)| (i, j, &self.refs.jobs[i], &self.streams[i]))
    }
}

fn deliver(s: &Session, st: &mut Stats) -> Vec<Vec<u8>> {
    s.jobs
        .iter()
        .map(|j| {
            let (b, fired) = j.delivered();
            for (k, n) in Fault::KINDS.iter().zip(fired) {
                st.add(&format!("fault: {k}"), n as u64);
            }
            st.add("bytes delivered", b.len() as u64);
            st.add("jobs", 1);
            st.add("commands sent", j.ops.len() as u64);
            st.add("fault: power cycle", j.power as u64);
            b
        })
        .collect()
}

/// What the run reached, from the reference printer's account of it.
fn reach(refs: &Ref, st: &mut Stats) {
    let mut h = st.shape ^ rng::FNV0;
    for (n, j) in refs.jobs.iter().enumerate() {
        h = rng::fnv(&[0xff], h);
        st.add("probe: several outputs in a job", (j.outputs > 1) as u64);
        st.add("probe: job on a used printer", (n > 0) as u64);
        st.add("probe: too much paper for a picture", refs.big as u64);
        for e in &j.errs {
            match e {
                model::Err::Unknown => st.add("probe: unknown command", 1),
                model::Err::Graphics => st.add("probe: unprintable barcode, symbol or image", 1),
                model::Err::Device(_) => {}
            }
        }
        for e in &j.evs {
            let tag: &[u8] = match e {
                Ev::Debug(_) => &[0],
                Ev::Begin(_) => &[1],
                Ev::PageBegin => {
                    st.add("probe: page mode", 1);
                    &[2]
                }
                Ev::PageArea(a) => {
                    if a[0] != 0 {
                        st.add("probe: page turned", 1);
                    }
                    &[3, a[0] as u8]
                }
                Ev::PageEnd => &[4],
                Ev::PrintPage(a) => {
                    st.add("probe: page printed", 1);
                    &[5, a[2] as u8]
                }
                Ev::Gfx(p, ..) => {
                    st.add("probe: barcode or symbol printed", 1);
                    &[6, *p as u8]
                }
                Ev::Image(p, _) => {
                    st.add("probe: image printed", 1);
                    &[7, *p as u8]
                }
                Ev::Text(p, ..) => {
                    st.add("probe: line of text", 1);
                    &[8, *p as u8]
                }
                Ev::Errs(_) => &[9],
                Ev::End(_) => &[10],
            };
            h = rng::fnv(tag, h);
        }
        for e in &j.errs {
            h = rng::fnv(&[matches!(e, model::Err::Unknown) as u8], h);
        }
    }
    st.nontrivial |= refs.jobs.iter().any(|j| {
        j.errs.iter().any(|e| !matches!(e, model::Err::Device(_)))
            || j.evs.iter().any(|e| !matches!(e, Ev::Debug(_) | Ev::Begin(_) | Ev::Errs(_) | Ev::End(_)))
    });
    st.shape = h;
}

fn one(lab: &Lab, sc: &Scenario, st: &mut Stats, meter: bool) -> Result<One, Outcome> {
    let Some(s) = sc.sessions.first() else { return Err(Outcome::Held) };
    let streams = deliver(s, st);
    let refs = reference(s, &streams);
    reach(&refs, st);
    let p = plan(&sc.env, vec![thread(s, &streams, what(&sc.prop, s, refs.big))], meter);
    let rec = run(lab, &p, st)?;
    Ok(One { streams, refs, rec })
}

/// The schedule a scenario's seed stands for.
pub fn schedule_of(lab: &Lab, sc: &Scenario) -> Option<Vec<(u64, u32)>> {
    let st = &mut Stats::default();
    let threads = sc
        .sessions
        .iter()
        .map(|s| {
            let streams = deliver(s, st);
            let refs = reference(s, &streams);
            thread(s, &streams, what(&sc.prop, s, refs.big))
        })
        .collect();
    run(lab, &plan(&sc.env, threads, false), st).ok().map(|r| r.switches)
}

/// For the evidence: rule, real components, stubs, assumptions.
pub fn about(prop: &str) -> (String, &'static str, &'static str, Vec<&'static str>) {
    let what = match prop {
        "C01" => "the run broke if any stage panicked, aborted, looped, gave no output, or gave an image or HTML frame of the wrong form",
        "C02" => "the run broke if the peak of memory allocated by a stage exceeded a fixed amount plus a multiple of bytes received and dots printed",
        "C03" => "the run broke if the parsed commands' bytes were not the bytes received",
        "C04" => "every run is one job and 3 to 8 points at which its line may go dead; it broke if a cut stream was not parsed and drawn as the part of it that arrived completely, or if what was half received showed in the job after it",
        "C05" => "the run broke if a job starting with initialize differed, in any stage, from the same job on a new printer in a new process with the same non-volatile graphics",
        "C06" => "2 to 4 callers run one at a time under the seeded scheduler, which may switch at allocations, callbacks, futexes, clocks, output, basic blocks of the engine, its accesses to static variables, and single instructions after those; the run broke if a caller's results differed from those it gets alone in another process",
        _ => "the run broke if the recorded drawing calls, images, HTML or errors were not those of the reference model",
    };
    (
        format!(
            "A seed decides a swarm of command families, one or more jobs on one printer (C06: several callers), the faults of the line inside commands, and the environment; {what}. A run is non-trivial if the reference printer draws or reports something; runs are distinct if the sequences of drawing call kinds, page directions and error kinds (and for C06 the schedule) of all their jobs differ."
        ),
        "thermal_parser, thermal_renderer and all their dependencies, unchanged, in one forked process per execution",
        "the serial line, the hosts, allocator entry points (forwarded), standard output, getrandom, clocks, sleeps and futexes; a recording output device beside the real image and HTML devices",
        vec![
            "the paper of a job fits in memory",
            "crates outside /repo (fontdue, png, base64, barcoders, qr_code) are correct: the reference model uses them for barcodes, QR symbols and glyphs",
            "callers run on one processor at a time: reordering of memory accesses by hardware is not simulated",
        ],
    )
}

pub fn evaluate(lab: &Lab, sc: &Scenario, st: &mut Stats) -> Outcome {
    st.shape = rng::fnv(sc.prop.as_bytes(), rng::FNV0);
    st.add("runs", 1);
    let r = match sc.prop.as_str() {
        "C01" => c01(lab, sc, st),
        "C02" => c02(lab, sc, st),
        "C03" => c03(lab, sc, st),
        "C04" => c04(lab, sc, st),
        "C05" => c05(lab, sc, st),
        "C06" => c06(lab, sc, st),
        "C07" => c07(lab, sc, st),
        "C08" => c08(lab, sc, st),
        "C09" => c09(lab, sc, st),
        "C10" => c10(lab, sc, st),
        "C11" => c11(lab, sc, st),
        "C12" => c12(lab, sc, st),
        "C13" => c13(lab, sc, st),
        p => Err(Outcome::Harness(format!("no property {p}"))),
    };
    match r {
        Ok(()) => Outcome::Held,
        Err(o) => o,
    }
}

// ------------------------------------------------------------------ the properties

fn c01(lab: &Lab, sc: &Scenario, st: &mut Stats) -> Res {
    let o = one(lab, sc, st, false)?;
    for (i, j, _, _) in o.jobs() {
        no_panic(i, j)?;
        if let Some(s) = j.sink.ok() {
            if s.outputs == 0 {
                broken!("no output", "job {i}: nothing came out");
            }
        }
        if let Some(im) = j.image.ok() {
            if im.pics.is_empty() {
                broken!("no output", "job {i}: no image");
            }
            for p in &im.pics {
                if p.w != 649 || p.bytes.len() as u64 != p.w as u64 * p.h as u64 * 3 {
                    broken!("image size", "job {i}: image of {}x{} with {} bytes", p.w, p.h, p.bytes.len());
                }
            }
        }
        if let Some(h) = j.html.ok() {
            if h.docs.is_empty() {
                broken!("no output", "job {i}: no HTML");
            }
            for d in &h.docs {
                if let Err(e) = html::filled(d) {
                    broken!("html frame", "job {i}: {e}");
                }
            }
        }
        if let Some(t) = j.thermal.ok() {
            st.add("bytes of .thermal source", t.len() as u64);
        }
    }
    Ok(())
}

/// Memory, in bytes: fixed, per byte received, per dot, per output.
const PARSE: [u64; 4] = [32 << 10, 500, 0, 0];
const RENDER: [u64; 4] = [64 << 10, 1000, 40, 0];
const HTML: [u64; 4] = [512 << 10, 8000, 40, 160 << 10];
const IMAGE: [u64; 4] = [4 << 20, 1000, 40, 0];

fn c02(lab: &Lab, sc: &Scenario, st: &mut Stats) -> Res {
    let o = one(lab, sc, st, true)?;
    let mut bytes = 0;
    let mut image_dots = 0;
    for (i, j, m, b) in o.jobs() {
        // stored graphics came with earlier jobs
        bytes += b.len() as u64;
        image_dots += m.image_dots;
        let page = m.page_dots;
        let mut check = |what: &str, got: Option<&Meter>, k: [u64; 4], dots: u64| -> Res {
            let Some(got) = got else { return Ok(()) };
            let bound = k[0] + k[1] * bytes + k[2] * dots + k[3] * m.outputs as u64;
            st.max(&format!("max permille of its bound: {what}"), got.peak * 1000 / bound);
            if got.peak > bound {
                broken!(
                    "memory",
                    "job {i}: {what} allocated {} bytes for {} bytes received and {} dots (allowed {})",
                    got.peak,
                    bytes,
                    dots,
                    bound
                );
            }
            Ok(())
        };
        for (n, p) in [("parse", j.parse.panic()), ("render", j.sink.panic()), ("image", j.image.panic()), ("html", j.html.panic())] {
            if let Some(p) = p.filter(|p| p.contains("capacity overflow")) {
                broken!("memory", "job {i}: {n}: {p}");
            }
        }
        check("parsing", j.parse.meter(), PARSE, 0)?;
        check("rendering", j.sink.meter(), RENDER, image_dots)?;
        check("rendering HTML", j.html.meter(), HTML, image_dots + page)?;
        check("rendering an image", j.image.meter(), IMAGE, image_dots + page + m.dots)?;
        for (k, m) in [("parse", j.parse.meter()), ("render", j.sink.meter()), ("html", j.html.meter()), ("image", j.image.meter())] {
            if let Some(m) = m {
                st.max(&format!("max peak {k}"), m.peak);
            }
        }
    }
    Ok(())
}

/// The bytes a record accounts for.
fn bytes_of(c: &CmdRec) -> Vec<u8> {
    let mut v = c.cmd.clone();
    v.extend(&c.data);
    v
}

fn c03(lab: &Lab, sc: &Scenario, st: &mut Stats) -> Res {
    let o = one(lab, sc, st, false)?;
    for (i, j, _, b) in o.jobs() {
        no_panic(i, j)?;
        let Some(p) = j.parse.ok() else { continue };
        let all: Vec<u8> = p.iter().flat_map(bytes_of).collect();
        if &all != b {
            let at = all.iter().zip(b).position(|(x, y)| x != y).unwrap_or(all.len().min(b.len()));
            broken!("bytes", "job {i}: {} bytes parsed of {} received, different from byte {at}", all.len(), b.len());
        }
    }
    Ok(())
}

/// A command that has no effect on anything.
const NOOP: &[u8] = b"\x1b=\x01";

/// Shows every setting and store without initializing: text at tab stops and after a move, a
/// barcode, a symbol, stored graphics, the print buffer, a page.
const TAIL: &[u8] = b"two\x80#\n\tA\tB\n\x1dkH\x05AB123\x1d(k\x03\0\x31\x51\x30\x1d(L\x02\0\x30\x32\
    \x1d(L\x06\0\x30\x45AA\x01\x01\x1d(L\x06\0\x30\x45AB\x01\x01\x1d(L\x06\0\x30\x55AA\x01\x01\
    \x1d(L\x06\0\x30\x55AB\x01\x01\x1b$\x20\0x\x1bd\x01y\x1b\x0c\x1bLpage\x0cz\n";

fn c04(lab: &Lab, sc: &Scenario, st: &mut Stats) -> Res {
    let Some(s) = sc.sessions.first() else { return Ok(()) };
    let Some(full) = s.jobs.first() else { return Ok(()) };
    let mut whole = full.clone();
    for op in &mut whole.ops {
        op.faults.retain(|f| !matches!(f, Fault::Cut(_)));
    }
    let mut base = Session { jobs: vec![whole.clone()], ..s.clone() };
    let mut streams = deliver(&base, st);
    // every place where the line may go dead
    for (i, op) in full.ops.iter().enumerate() {
        for f in &op.faults {
            if let Fault::Cut(at) = f {
                let before = Job { ops: whole.ops[..i].to_vec(), ..Job::default() }.delivered().0.len();
                let end = (before + at % (op.bytes.len() + 1)).min(streams[0].len());
                streams.push(streams[0][..end].to_vec());
                base.jobs.push(Job { power: true, ..Job::default() });
                st.add("fault: cut", 1);
            }
        }
    }
    let refs = reference(&base, &streams);
    reach(&refs, st);
    let cuts = streams.len() - 1;
    for i in 1..=cuts {
        let end = match model::tokenize(&streams[i]).last() {
            Some(t) if t.class == Class::Incomplete => {
                st.add("probe: cut inside a command", 1);
                t.start
            }
            _ => streams[i].len(),
        };
        let kept = streams[i][..end].to_vec();
        let mut more = kept.clone();
        more.extend(NOOP);
        streams.push(kept);
        streams.push(more);
    }
    for _ in 0..2 * cuts {
        base.jobs.push(Job { power: true, ..Job::default() });
    }
    // what the printer does afterwards, without being initialized, shows what was changed
    let mut after = TAIL.to_vec();
    after.extend(s.jobs.get(1).map(|j| j.delivered().0).unwrap_or_default());
    let main = streams.len();
    let tails = |i: usize| 1 <= i && (i <= cuts || (i > cuts && (i - cuts) % 2 == 1));
    let (mut all, mut place, mut jobs_) = (vec![], vec![], vec![]);
    for i in 0..main {
        place.push(all.len());
        all.push(streams[i].clone());
        jobs_.push(base.jobs[i].clone());
        if tails(i) {
            all.push(after.clone());
            jobs_.push(Job::default());
        }
    }
    base.jobs = jobs_;
    let p = plan(&sc.env, vec![thread(&base, &all, what("C04", s, false))], false);
    let rec = run(lab, &p, st)?;
    let jobs = &rec.threads[0].jobs;
    for (i, j) in jobs.iter().enumerate() {
        no_panic(i, j)?;
    }
    let parsed = |i: usize| -> Vec<&CmdRec> {
        jobs[place[i]].parse.ok().unwrap().iter().filter(|c| !c.cmd.is_empty() || !c.data.is_empty()).collect()
    };
    let full_recs = parsed(0);
    // what every stream is taken to be
    for i in 0..streams.len() {
        let toks = model::tokenize(&streams[i]);
        let recs = parsed(i);
        let mut at = 0;
        let got: Vec<(usize, bool)> = recs
            .iter()
            .map(|c| {
                at += c.cmd.len() + c.data.len();
                (at, c.kind == 7 || c.data_kind == 1)
            })
            .collect();
        // an incomplete command is only looked at for its place
        let want: Vec<(usize, bool)> = toks
            .iter()
            .zip(got.iter().map(|g| g.1).chain(std::iter::repeat(false)))
            .map(|(t, g)| {
                (
                    t.end,
                    match t.class {
                        Class::Unknown => true,
                        Class::Incomplete => g,
                        _ => false,
                    },
                )
            })
            .collect();
        if let Some(d) = view::parts(&want, &got) {
            broken!("commands", "stream {i} (of {} bytes): the end of a command and whether it is unknown: {d}", streams[i].len());
        }
    }
    let sink = |i: usize| jobs[place[i]].sink.ok().unwrap();
    let tail = |i: usize| &jobs[place[i] + 1];
    for k in 0..cuts {
        let (cut, kept, more) = (1 + k, 1 + cuts + 2 * k, 2 + cuts + 2 * k);
        // everything complete is parsed as in the whole stream
        let n = streams[kept].len();
        let mut at = 0;
        for (a, b) in parsed(cut).iter().zip(&full_recs) {
            at += a.cmd.len() + a.data.len();
            // text and unknown bytes still collect what follows
            if at > n || (at >= n && b.cmd.len() + b.data.len() > a.cmd.len() + a.data.len()) {
                break;
            }
            if (a.kind, &a.name, &a.cmd, &a.data) != (b.kind, &b.name, &b.cmd, &b.data) {
                broken!("prefix", "cut {k}: {} {:02x?} is not the {} {:02x?} of the whole stream", a.name, bytes_of(a), b.name, bytes_of(b));
            }
        }
        // what was half received does nothing
        if let Some(d) = view::parts(&sink(kept).evs, &sink(cut).evs) {
            broken!("half command", "cut {k}: after {} bytes and a command cut short, {d}", n);
        }
        if let Some(d) = view::parts(&sink(kept).errors, &sink(cut).errors) {
            broken!("half command", "cut {k}: after {} bytes and a command cut short, errors: {d}", n);
        }
        // nor is anything of it left for the next job
        let (a, b) = (tail(kept), tail(cut));
        if let Some(d) = view::parts(&a.parse.ok().unwrap(), &b.parse.ok().unwrap()) {
            broken!("left over", "cut {k}: the job after {} bytes and a command cut short is parsed as something else: {d}", n);
        }
        let (a, b) = (a.sink.ok().unwrap(), b.sink.ok().unwrap());
        if let Some(d) = view::parts(&a.evs, &b.evs) {
            broken!("left over", "cut {k}: the job after {} bytes and a command cut short: {d}", n);
        }
        if let Some(d) = view::parts(&a.errors, &b.errors) {
            broken!("left over", "cut {k}: the job after {} bytes and a command cut short, errors: {d}", n);
        }
        // what was received last takes effect, followed by something or not
        if let Some(d) = view::parts(&sink(more).evs, &sink(kept).evs) {
            broken!("last command", "cut {k}: after {} bytes, {d}", n);
        }
        if let Some(d) = view::parts(&view::err_kinds(&sink(more).errors), &view::err_kinds(&sink(kept).errors)) {
            broken!("last command", "cut {k}: after {} bytes, errors: {d}", n);
        }
        // and what was drawn is drawn as in the whole stream
        let mut evs = &sink(kept).evs[..];
        while let Some(Ev::Errs(_) | Ev::End(_) | Ev::Text(..)) = evs.last() {
            evs = &evs[..evs.len() - 1];
        }
        let all = &sink(0).evs;
        if let Some(d) = view::parts(evs, &all[..evs.len().min(all.len())]) {
            broken!("prefix", "cut {k}: what the whole stream draws first is not what its first {} bytes draw: {d}", n);
        }
    }
    Ok(())
}

/// The part of a history that changes the graphics in non-volatile memory.
fn nv_part(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for t in model::tokenize(s) {
        let b = &s[t.start..t.end];
        if t.class != Class::Command {
            continue;
        }
        let f = match b {
            [0x1d, b'(', b'L', _, _, _, f, ..] => *f,
            [0x1d, b'8', b'L', _, _, _, _, _, f, ..] => *f,
            _ => continue,
        };
        if (65..=68).contains(&f) {
            out.extend(b);
        }
    }
    out
}

fn stages(j: &JobRec) -> [(&'static str, Vec<u8>); 5] {
    fn st<T: Ser>(s: &Stage<T>) -> Vec<u8> {
        let mut v = vec![];
        match s {
            Stage::NotRun => v.push(0),
            // where it happened may differ, that it happened may not
            Stage::Panic(_) => v.push(1),
            Stage::Ok(t, _) => {
                v.push(2);
                t.put(&mut v)
            }
        }
        v
    }
    [
        ("the parsed commands", st(&j.parse)),
        ("the .thermal source", st(&j.thermal)),
        ("the drawing calls", st(&j.sink)),
        ("the image", st(&j.image)),
        ("the HTML", st(&j.html)),
    ]
}

fn detail(a: &JobRec, b: &JobRec) -> String {
    if let (Some(x), Some(y)) = (a.sink.ok(), b.sink.ok()) {
        if let Some(d) = view::parts(&x.evs, &y.evs) {
            return format!("; drawing: {d}");
        }
        if let Some(d) = view::parts(&x.errors, &y.errors) {
            return format!("; errors: {d}");
        }
    }
    if let (Some(x), Some(y)) = (a.image.ok(), b.image.ok()) {
        for (p, q) in x.pics.iter().zip(&y.pics) {
            if let Some(d) = compose::differ(p, q) {
                return format!("; image {d}");
            }
        }
        if let Some(d) = view::parts(&x.errors, &y.errors) {
            return format!("; image errors: {d}");
        }
    }
    if let (Some(x), Some(y)) = (a.html.ok(), b.html.ok()) {
        if let Some(d) = view::parts(&x.docs, &y.docs) {
            return format!("; {}", d.chars().take(300).collect::<String>());
        }
    }
    if let (Some(x), Some(y)) = (a.parse.ok(), b.parse.ok()) {
        if let Some(d) = view::parts(x, y) {
            return format!("; {d}");
        }
    }
    String::new()
}

fn same(class: &'static str, who: &str, want: &JobRec, got: &JobRec) -> Res {
    for ((n, a), (_, b)) in stages(want).iter().zip(stages(got).iter()) {
        if a != b {
            let p = got.first_panic().or(want.first_panic()).map(|p| format!("; panic in {p}")).unwrap_or_default();
            broken!(class, "{who}: {n} differ{}{p}", detail(want, got));
        }
    }
    Ok(())
}

fn c05(lab: &Lab, sc: &Scenario, st: &mut Stats) -> Res {
    let Some(s) = sc.sessions.first() else { return Ok(()) };
    let streams = deliver(s, st);
    let refs = reference(s, &streams);
    reach(&refs, st);
    let checked: Vec<usize> = (1..streams.len()).filter(|i| streams[*i].starts_with(b"\x1b@")).collect();
    if checked.is_empty() {
        return Ok(());
    }
    let w = what("C05", s, refs.big);
    let p = plan(&sc.env, vec![thread(s, &streams, w.clone())], false);
    let used = run(lab, &p, st)?;
    // The same job on a new printer whose memory was filled the same way.
    for i in checked {
        if used.threads[0].jobs.len() <= i {
            break;
        }
        if (0..i).any(|k| used.threads[0].jobs[k].first_panic().is_some()) {
            // the printer did not survive; another property's business
            break;
        }
        st.add("probe: job compared with a new printer", 1);
        let nv: Vec<u8> = streams[..i].iter().flat_map(|b| nv_part(b)).collect();
        st.add("probe: non-volatile graphics carried over", !nv.is_empty() as u64);
        let t = ThreadPlan {
            jobs: vec![
                JobPlan { bytes: nv, power: false, second: false },
                JobPlan { bytes: streams[i].clone(), power: false, second: false },
            ],
            debug: s.debug,
            what: w.clone(),
            sink_errs: 0,
        };
        let fresh = run(lab, &plan(&sc.env, vec![t], false), st)?;
        same("history", &format!("job {i}, new printer and used printer"), &fresh.threads[0].jobs[1], &used.threads[0].jobs[i])?;
    }
    Ok(())
}

fn c06(lab: &Lab, sc: &Scenario, st: &mut Stats) -> Res {
    let mut threads = vec![];
    for s in &sc.sessions {
        let streams = deliver(s, st);
        let refs = reference(s, &streams);
        reach(&refs, st);
        threads.push(thread(s, &streams, what("C06", s, refs.big)));
    }
    if threads.is_empty() {
        return Ok(());
    }
    let all = run(lab, &plan(&sc.env, threads.clone(), false), st)?;
    let mut h = rng::FNV0;
    for (n, t) in &all.switches {
        h = rng::fnv(&n.to_le_bytes(), h);
        h = rng::fnv(&t.to_le_bytes(), h);
    }
    st.schedule = h;
    // the same printers, alone, each in a process of its own, with other clocks and hash seeds and
    // an open stdout
    for (i, t) in threads.into_iter().enumerate() {
        // the jobs each printer got between being switched on and off
        let mut lives: Vec<Vec<usize>> = vec![];
        for second in [false, true] {
            let mut on = false;
            for (k, j) in t.jobs.iter().enumerate().filter(|(_, j)| j.second == second) {
                if j.power || !on {
                    lives.push(vec![]);
                }
                on = true;
                lives.last_mut().unwrap().push(k);
            }
        }
        for (n, life) in lives.iter().enumerate() {
            let jobs = life.iter().map(|k| t.jobs[*k].clone()).collect();
            let seed = (i * 100 + n) as u64;
            let env = Env {
                hash_seed: rng::mix(sc.env.hash_seed, seed + 7),
                clock_ns: rng::mix(sc.env.clock_ns, seed) >> 3,
                clock_step: 1,
                ..Env::default()
            };
            let alone = run(lab, &plan(&env, vec![ThreadPlan { jobs, ..t.clone() }], false), st)?;
            st.add("printers compared with a lone one", 1);
            let (a, b) = (&alone.threads[0].jobs, &all.threads[i].jobs);
            for (x, k) in a.iter().zip(life) {
                let Some(y) = b.get(*k) else {
                    broken!("isolation", "caller {i}: {} jobs with others, more alone", b.len());
                };
                same("isolation", &format!("caller {i} job {k}, alone and with others"), x, y)?;
            }
        }
    }
    Ok(())
}

/// The engine's drawing calls and the reference's, both in comparable form.
fn both(i: usize, j: &JobRec, m: &model::Job) -> Result<(Vec<Item>, Vec<Item>), Outcome> {
    no_panic(i, j)?;
    let s = j.sink.ok().unwrap();
    Ok((view::items(&m.evs), view::items(&s.evs)))
}

fn outputs(l: &[Item]) -> Vec<&[Item]> {
    l.split_inclusive(|i| matches!(i, Item::End(_))).collect()
}

fn model_errs(m: &model::Job, device: bool) -> Vec<ErrKind> {
    let n: Vec<u32> = m.evs.iter().filter_map(|e| if let Ev::Errs(n) = e { Some(*n) } else { None }).collect();
    m.errs
        .iter()
        .flat_map(|e| match e {
            model::Err::Unknown => vec![ErrKind::Unknown],
            model::Err::Graphics => vec![ErrKind::Graphics],
            model::Err::Device(o) if device => vec![ErrKind::Device; n[*o] as usize],
            _ => vec![],
        })
        .collect()
}

fn c07(lab: &Lab, sc: &Scenario, st: &mut Stats) -> Res {
    let o = one(lab, sc, st, false)?;
    for (i, j, m, _) in o.jobs() {
        let (want, got) = both(i, j, m)?;
        let f = |l: &[Item]| -> Vec<Vec<(bool, Img)>> {
            outputs(l)
                .iter()
                .map(|o| {
                    o.iter()
                        .filter_map(|i| match i {
                            Item::Img(p, g) => Some((*p, Img { x: 0, y: 0, ..g.clone() })),
                            _ => None,
                        })
                        .collect()
                })
                .collect()
        };
        let (want, got) = (f(&want), f(&got));
        if want.len() != got.len() {
            broken!("outputs", "job {i}: {} outputs where {} are due", got.len(), want.len());
        }
        for (o, (w, g)) in want.iter().zip(&got).enumerate() {
            if w.len() != g.len() {
                broken!("images", "job {i} output {o}: {} images printed where {} are due", g.len(), w.len());
            }
            for (k, ((wp, a), (gp, b))) in w.iter().zip(g).enumerate() {
                if (wp, a.w, a.h, a.flow, a.upd) != (gp, b.w, b.h, b.flow, b.upd) {
                    broken!(
                        "images",
                        "job {i} output {o} image {k}: {}x{} (page {gp}) where {}x{} (page {wp}) is due",
                        b.w,
                        b.h,
                        a.w,
                        a.h
                    );
                }
                if a.px.len() != b.px.len() {
                    broken!("images", "job {i} output {o} image {k}: {} dots of {}", b.px.len(), a.px.len());
                }
                if let Some(at) = a.px.iter().zip(&b.px).position(|(x, y)| x != y) {
                    broken!(
                        "images",
                        "job {i} output {o} image {k}: dot {},{} is {:?}, not {:?}",
                        at as u32 % a.w,
                        at as u32 / a.w,
                        b.px[at],
                        a.px[at]
                    );
                }
            }
        }
        let g = |l: Vec<ErrKind>| l.into_iter().filter(|e| *e == ErrKind::Graphics).count();
        let (w, e) = (g(model_errs(m, false)), g(view::err_kinds(&j.sink.ok().unwrap().errors)));
        if w != e {
            broken!("reports", "job {i}: {e} unprintable graphics reported, {w} printed");
        }
    }
    Ok(())
}

/// Characters, and where a page begins and where it is printed: text belongs to the page between.
fn chars(l: &[Item]) -> Vec<(bool, char)> {
    l.iter()
        .filter_map(|i| match i {
            Item::Ch(c) => Some((c.page, c.c)),
            Item::PageBegin => Some((true, '\u{10f801}')),
            Item::PrintPage(_) => Some((true, '\u{10f802}')),
            _ => None,
        })
        .collect()
}

fn c08(lab: &Lab, sc: &Scenario, st: &mut Stats) -> Res {
    let o = one(lab, sc, st, false)?;
    for (i, j, m, _) in o.jobs() {
        let (want, got) = both(i, j, m)?;
        let (want, got) = (outputs(&want), outputs(&got));
        if want.len() != got.len() {
            broken!("outputs", "job {i}: {} outputs where {} are due", got.len(), want.len());
        }
        if j.html.panic().is_some() {
            broken!("panic", "job {i}: panic in html: {}", j.html.panic().unwrap());
        }
        let docs = j.html.ok().map(|h| &h.docs);
        if let Some(d) = docs {
            if d.len() != want.len() {
                broken!("outputs", "job {i}: {} HTML documents where {} are due", d.len(), want.len());
            }
        }
        for (o, (w, g)) in want.iter().zip(&got).enumerate() {
            let (w, g) = (chars(w), chars(g));
            st.add("characters", w.len() as u64);
            if let Some(d) = view::parts(&w, &g) {
                broken!("text", "job {i} output {o}: characters (page mode, character): {d}");
            }
            if let Some(d) = docs {
                let doc = match html::read(&d[o]) {
                    Ok(d) => d,
                    Err(e) => broken!("html", "job {i} output {o}: not the HTML of a receipt: {e}"),
                };
                let w: Vec<char> = w.iter().filter(|c| !c.0).map(|c| c.1).collect();
                let g: Vec<char> = doc.text().chars().collect();
                if let Some(d) = view::parts(&w, &g) {
                    broken!("html text", "job {i} output {o}: characters in HTML: {d}");
                }
            }
        }
    }
    Ok(())
}

fn c09(lab: &Lab, sc: &Scenario, st: &mut Stats) -> Res {
    let o = one(lab, sc, st, false)?;
    for (i, j, m, _) in o.jobs() {
        let (want, got) = both(i, j, m)?;
        let f = |l: &[Item]| -> Vec<(char, view::Style)> {
            l.iter().filter_map(|i| if let Item::Ch(c) = i { Some((c.c, c.style.clone())) } else { None }).collect()
        };
        if let Some(d) = view::parts(&f(&want), &f(&got)) {
            broken!("style", "job {i}: characters: {d}");
        }
        let f = |l: &[Item]| -> Vec<(bool, Px, Vec<Rect>)> {
            l.iter().filter_map(|i| if let Item::Gfx(p, c, r) = i { Some((*p, *c, r.clone())) } else { None }).collect()
        };
        let (w, g) = (f(&want), f(&got));
        if w.len() != g.len() {
            broken!("figures", "job {i}: {} barcodes and symbols drawn where {} are due", g.len(), w.len());
        }
        for (k, (a, b)) in w.iter().zip(&g).enumerate() {
            if a.1 != b.1 {
                broken!("figures", "job {i} figure {k}: colour {:?}, not {:?}", b.1, a.1);
            }
            // unless the edge of the paper or page may have cut it, its size is its settings
            let right = a.2.iter().map(|r| r[0] + r[2] + r[2].min(300)).max().unwrap();
            if !a.0 && right < model::PRINTABLE as u32 {
                let (x, y) = (view::cornered(&a.2), view::cornered(&b.2));
                if let Some(d) = view::parts(&x, &y) {
                    broken!("figures", "job {i} figure {k}: rectangles: {d}");
                }
            }
        }
    }
    Ok(())
}

/// Where things are: what it is, and where.
/// Where everything is, with how the page changed or without.
fn places(l: &[Item], turns: bool) -> Vec<String> {
    l.iter()
        .filter_map(|i| match i {
            Item::Ch(c) => Some(format!("{:?} {} at {},{} line {}", c.c, c.page as u8, c.x, c.y, c.h)),
            Item::Gfx(p, _, r) => Some(format!("figure {} {:?}", *p as u8, r)),
            Item::Img(p, g) => Some(format!("image {} {}x{} at {},{}", *p as u8, g.w, g.h, g.x, g.y)),
            Item::Begin(b) => Some(format!("paper {b:?}")),
            Item::End(y) => Some(format!("paper ends at {y}")),
            Item::PrintPage(a) => Some(format!("page printed at {},{} direction {}", a[0], a[1], a[2])),
            Item::PageBegin if turns => Some("page mode".into()),
            Item::PageEnd if turns => Some("page mode left".into()),
            Item::PageArea(a) if turns => Some(format!("page turned {} and is {}x{}", a[0], a[1], a[2])),
            _ => None,
        })
        .collect()
}

fn c10(lab: &Lab, sc: &Scenario, st: &mut Stats) -> Res {
    let o = one(lab, sc, st, false)?;
    for (i, j, m, _) in o.jobs() {
        let (want, got) = both(i, j, m)?;
        if let Some(d) = view::parts(&places(&want, false), &places(&got, false)) {
            broken!("place", "job {i}: {d}");
        }
    }
    Ok(())
}

fn c11(lab: &Lab, sc: &Scenario, st: &mut Stats) -> Res {
    let o = one(lab, sc, st, false)?;
    for (i, j, m, _) in o.jobs() {
        let (want, got) = both(i, j, m)?;
        if let Some(d) = view::parts(&places(&want, true), &places(&got, true)) {
            broken!("page", "job {i}: {d}");
        }
        pictures(i, j, &m.evs)?;
        // pages, and images on paper, in HTML
        let Some(h) = j.html.ok() else { continue };
        for (o, ((w, _), g)) in html::expected(&m.evs).iter().zip(&h.docs).enumerate() {
            match html::read(g) {
                Ok(g) => {
                    if w.images() != g.images() {
                        broken!("html page", "job {i} document {o}: the pages and images in HTML are not those printed");
                    }
                }
                Err(e) => broken!("document", "job {i} document {o}: not the HTML of a receipt: {e}"),
            }
        }
    }
    Ok(())
}

fn pictures(i: usize, j: &JobRec, evs: &[Ev]) -> Res {
    let Some(im) = j.image.ok() else { return Ok(()) };
    let papers = compose::papers(evs);
    if papers.len() != im.pics.len() {
        broken!("picture", "job {i}: {} images where {} are due", im.pics.len(), papers.len());
    }
    for (o, (w, g)) in papers.iter().zip(&im.pics).enumerate() {
        if let Some(d) = compose::differ(&w.pic, g) {
            broken!("picture", "job {i} image {o}: {d}");
        }
    }
    Ok(())
}

fn c12(lab: &Lab, sc: &Scenario, st: &mut Stats) -> Res {
    let o = one(lab, sc, st, false)?;
    for (i, j, _, _) in o.jobs() {
        no_panic(i, j)?;
        let evs = &j.sink.ok().unwrap().evs;
        pictures(i, j, evs)?;
        let Some(h) = j.html.ok() else { continue };
        let docs = html::expected(evs);
        if docs.len() != h.docs.len() {
            broken!("document", "job {i}: {} HTML documents where {} are due", h.docs.len(), docs.len());
        }
        for (o, ((w, _), g)) in docs.iter().zip(&h.docs).enumerate() {
            match html::read(g) {
                Ok(g) => {
                    if let Some(d) = html::differ(&g, w) {
                        broken!("document", "job {i} document {o}: {d}");
                    }
                }
                Err(e) => broken!("document", "job {i} document {o}: not the HTML of a receipt: {e}"),
            }
        }
    }
    Ok(())
}

fn c13(lab: &Lab, sc: &Scenario, st: &mut Stats) -> Res {
    let o = one(lab, sc, st, false)?;
    for (i, j, m, _) in o.jobs() {
        no_panic(i, j)?;
        let s = j.sink.ok().unwrap();
        let want = model_errs(m, true);
        st.add("errors due", want.len() as u64);
        if let Some(d) = view::parts(&want, &view::err_kinds(&s.errors)) {
            broken!("reports", "job {i}: {d}");
        }
        // what is around a problem is printed
        let f = |l: &[Item]| -> Vec<String> {
            l.iter()
                .filter_map(|i| match i {
                    Item::Ch(c) => Some(format!("{:?}", c.c)),
                    Item::Gfx(..) => Some("figure".into()),
                    Item::Img(_, g) => Some(format!("image {}x{}", g.w, g.h)),
                    Item::PrintPage(_) => Some("page".into()),
                    Item::End(_) => Some("end of output".into()),
                    _ => None,
                })
                .collect()
        };
        let (w, g) = (view::items(&m.evs), view::items(&s.evs));
        if let Some(d) = view::parts(&f(&w), &f(&g)) {
            broken!("printed", "job {i}: {d}");
        }
        // drawings that fall off, reported by the real devices
        let due = |n: &[u32]| -> Vec<ErrKind> {
            m.errs
                .iter()
                .flat_map(|e| match e {
                    model::Err::Unknown => vec![ErrKind::Unknown],
                    model::Err::Graphics => vec![ErrKind::Graphics],
                    model::Err::Device(o) => vec![ErrKind::Device; n.get(*o).copied().unwrap_or(0) as usize],
                })
                .collect()
        };
        if let Some(im) = j.image.ok() {
            let n: Vec<u32> = compose::papers(&s.evs).iter().map(|p| p.errs).collect();
            st.add("probe: drawing off the paper or page", n.iter().map(|n| *n as u64).sum());
            if let Some(d) = view::parts(&due(&n), &view::err_kinds(&im.errors)) {
                broken!("image reports", "job {i}: {d}");
            }
        }
        if let Some(h) = j.html.ok() {
            let n: Vec<u32> = html::expected(&s.evs).iter().map(|p| p.1).collect();
            if let Some(d) = view::parts(&due(&n), &view::err_kinds(&h.errors)) {
                broken!("html reports", "job {i}: {d}");
            }
        }
    }
    Ok(())
}

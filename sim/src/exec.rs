//! Runs the real engine, in a process of its own, on the bytes the simulated link delivered.
//! Nothing here knows what the engine should do.

use crate::sys::{self, SchedSpec, StdoutFault};
use crate::types::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use thermal_parser::command::{Command, CommandType, DataType};
use thermal_parser::context::{Context, Font, PrintDirection, Rotation, TextJustify};
use thermal_parser::graphics::{Image, ImageFlow, VectorGraphic, RGBA};
use thermal_parser::parser::Parser;
use thermal_parser::text::TextSpan;
use thermal_parser::thermal_file;
use thermal_renderer::html_renderer::{HtmlRenderer, ReceiptHtml};
use thermal_renderer::image_renderer::{ImageRenderer, ReceiptImage};
use thermal_renderer::renderer::{DebugProfile, OutputRenderer, RenderError, Renderer};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Do {
    pub parse: bool,
    pub debug_str: bool,
    pub thermal: bool,
    pub sink: bool,
    pub image: bool,
    pub html: bool,
    /// use the static entry points (a new engine per call)
    pub entry: bool,
}

#[derive(Clone)]
pub struct JobPlan {
    pub bytes: Vec<u8>,
    /// the printer was switched off and on before this job
    pub power: bool,
    pub second: bool,
}

#[derive(Clone)]
pub struct ThreadPlan {
    pub jobs: Vec<JobPlan>,
    pub debug: [bool; 4],
    pub what: Do,
    /// two bits per output: number of errors the recording device reports
    pub sink_errs: u32,
}

#[derive(Clone)]
pub struct Plan {
    pub threads: Vec<ThreadPlan>,
    pub stdout: StdoutFault,
    pub hash_seed: u64,
    pub clock_ns: u64,
    pub clock_step: u64,
    pub sched_seed: u64,
    pub p_cb: usize,
    pub d_alloc: usize,
    pub d_edge: usize,
    pub hot: usize,
    pub p_static: usize,
    pub explicit: Option<Vec<(u64, u32)>>,
    pub meter: bool,
}

// ------------------------------------------------------------- recording device

fn px(c: &RGBA) -> Px {
    if c.a == 0 {
        [0, 0, 0, 0]
    } else {
        [c.r, c.g, c.b, c.a]
    }
}
fn just(j: &TextJustify) -> u8 {
    match j {
        TextJustify::Left => 0,
        TextJustify::Center => 1,
        TextJustify::Right => 2,
    }
}
fn font(f: &Font) -> u8 {
    match f {
        Font::A => 0,
        Font::B => 1,
        Font::C => 2,
        Font::D => 3,
        Font::E => 4,
        Font::SpecialA => 5,
        Font::SpecialB => 6,
    }
}
fn span(s: &TextSpan) -> Span {
    Span {
        text: s.text.clone(),
        font: font(&s.font),
        bw: s.base_character_width,
        bh: s.base_character_height,
        cw: s.character_width,
        ch: s.character_height,
        bold: s.bold,
        italic: s.italic,
        ul: s.underline,
        st: s.strikethrough,
        sw: (s.stretch_width * 256.0) as u32,
        sh: (s.stretch_height * 256.0) as u32,
        inv: s.inverted,
        upd: s.upside_down,
        just: just(&s.justify),
        dim: s.dimensions.as_ref().map(|d| [d.x, d.y, d.w, d.h]),
        bg: px(&s.background_color),
        fg: px(&s.text_color),
    }
}

struct Sink {
    evs: Rc<RefCell<Vec<Ev>>>,
    outputs: u32,
    errs: u32,
}

impl Sink {
    fn rec(&mut self, f: impl FnOnce() -> Ev) {
        sys::callback_point();
        let evs = &self.evs;
        sys::pause(|| evs.borrow_mut().push(f()));
    }
}

impl OutputRenderer<u32> for Sink {
    fn set_debug_profile(&mut self, p: DebugProfile) {
        self.rec(|| Ev::Debug([p.text, p.image, p.page, p.info]));
    }
    fn begin_render(&mut self, c: &mut Context) {
        self.rec(|| {
            let g = &c.graphics;
            Ev::Begin([c.get_x(), c.get_y(), g.render_area.w, g.paper_area.w, g.paper_area.x, g.paper_area.y])
        });
    }
    fn page_begin(&mut self, _: &mut Context) {
        self.rec(|| Ev::PageBegin);
    }
    fn page_area_changed(&mut self, _: &mut Context, r: Rotation, w: u32, h: u32) {
        let r = match r {
            Rotation::R0 => 0,
            Rotation::R90 => 1,
            Rotation::R180 => 2,
            Rotation::R270 => 3,
        };
        self.rec(|| Ev::PageArea([r, w, h]));
    }
    fn page_end(&mut self, _: &mut Context) {
        self.rec(|| Ev::PageEnd);
    }
    fn render_page(&mut self, c: &mut Context) {
        self.rec(|| {
            let d = match c.page_mode.direction {
                PrintDirection::TopLeft2Right => 0,
                PrintDirection::BottomLeft2Top => 1,
                PrintDirection::BottomRight2Left => 2,
                PrintDirection::TopRight2Bottom => 3,
            };
            Ev::PrintPage([c.graphics.render_area.x, c.graphics.render_area.y, d])
        });
    }
    fn render_graphics(&mut self, c: &mut Context, graphics: &Vec<VectorGraphic>) {
        self.rec(|| {
            let rects = graphics
                .iter()
                .map(|g| match g {
                    VectorGraphic::Rectangle(r) => [r.x, r.y, r.w, r.h],
                })
                .collect();
            Ev::Gfx(c.page_mode.enabled, px(&c.text.color), rects)
        });
    }
    fn render_image(&mut self, c: &mut Context, i: &Image) {
        self.rec(|| {
            let img = Img {
                x: i.x,
                y: i.y,
                w: i.w,
                h: i.h,
                flow: match i.flow {
                    ImageFlow::Inline => 0,
                    ImageFlow::Block => 1,
                    ImageFlow::None => 2,
                },
                upd: i.upside_down,
                px: i.pixels.iter().map(px).collect(),
            };
            Ev::Image(c.page_mode.enabled, img)
        });
    }
    fn render_text(&mut self, c: &mut Context, spans: &Vec<TextSpan>, x: u32, h: u32, j: TextJustify) {
        self.rec(|| Ev::Text(c.page_mode.enabled, x, h, just(&j), spans.iter().map(span).collect()));
    }
    fn get_render_errors(&mut self) -> Vec<String> {
        let n = self.errs & 3;
        self.errs >>= 2;
        self.rec(|| Ev::Errs(n));
        (0..n).map(|i| format!("device error {}", i)).collect()
    }
    fn end_render(&mut self, c: &mut Context) -> u32 {
        self.rec(|| Ev::End(c.graphics.render_area.y));
        self.outputs += 1;
        self.outputs - 1
    }
}

// ------------------------------------------------------------- pools

type ImgBox = Box<dyn OutputRenderer<ReceiptImage>>;
type HtmlBox = Box<dyn OutputRenderer<ReceiptHtml>>;

/// Output devices made before the fork: new to the process that uses them.
pub struct Pool {
    img: Vec<ImgBox>,
    html: Vec<HtmlBox>,
}
static mut POOL: Option<Pool> = None;

pub fn fill_pool(imgs: usize, htmls: usize) {
    let mut p = Pool { img: vec![], html: vec![] };
    let mut shared: Option<ImageRenderer> = None;
    for _ in 0..imgs {
        let i = ImageRenderer::new();
        let _ = &mut shared;
        p.img.push(Box::new(i));
    }
    for _ in 0..htmls {
        p.html.push(Box::new(HtmlRenderer::new()));
    }
    unsafe { POOL = Some(p) }
}

#[allow(static_mut_refs)]
fn new_img() -> ImgBox {
    sys::pause(|| unsafe {
        match POOL.as_mut().and_then(|p| p.img.pop()) {
            Some(b) => b,
            None => Box::new(ImageRenderer::new()),
        }
    })
}
#[allow(static_mut_refs)]
fn new_html() -> HtmlBox {
    sys::pause(|| unsafe {
        match POOL.as_mut().and_then(|p| p.html.pop()) {
            Some(b) => b,
            None => Box::new(HtmlRenderer::new()),
        }
    })
}

// ------------------------------------------------------------- stages

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        sys::pause(|| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let msg: String = msg.chars().take(200).collect();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        });
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

fn stage<T>(meter: bool, f: impl FnOnce() -> T) -> Stage<T> {
    if meter {
        sys::meter_start();
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    let m = if meter { sys::meter_stop() } else { Meter { peak: 0, total: 0, largest: 0, count: 0 } };
    match r {
        Ok(v) => Stage::Ok(v, m),
        Err(p) => {
            std::mem::forget(p);
            Stage::Panic(sys::pause(last_panic))
        }
    }
}

fn kind(k: &CommandType) -> u8 {
    match k {
        CommandType::Control => 0,
        CommandType::Text => 1,
        CommandType::TextStyle => 2,
        CommandType::Graphics => 3,
        CommandType::Context => 4,
        CommandType::ContextControl => 5,
        CommandType::Subcommand => 6,
        CommandType::Unknown => 7,
    }
}

fn cmd_rec(c: &Command, debug: bool, ctx: &Context) -> CmdRec {
    let unknown = matches!(c.data_kind, DataType::Unknown);
    let (mut cmd, data) = c.handler.get_command_bytes(c);
    if unknown {
        cmd.clear();
    }
    let debug = if debug { c.handler.debug(c, ctx) } else { String::new() };
    sys::pause(|| CmdRec {
        kind: kind(&c.kind),
        data_kind: unknown as u8,
        name: c.name.to_string(),
        cmd: cmd.clone(),
        data: data.clone(),
        debug: debug.clone(),
    })
}

fn errs(e: &[RenderError]) -> Vec<String> {
    e.iter().map(|e| format!("{:?}", e)).collect()
}

fn profile(d: [bool; 4]) -> DebugProfile {
    DebugProfile { text: d[0], image: d[1], page: d[2], info: d[3] }
}

struct Printer {
    parser: Option<Parser>,
    sink: Option<(Renderer<'static, u32>, Rc<RefCell<Vec<Ev>>>)>,
    img: Option<Renderer<'static, ReceiptImage>>,
    html: Option<Renderer<'static, ReceiptHtml>>,
}

fn leak<T: ?Sized>(b: Box<T>) -> &'static mut Box<T> {
    Box::leak(Box::new(b))
}

fn power_on(t: &ThreadPlan) -> Printer {
    let what = &t.what;
    Printer {
        parser: what.parse.then(|| Parser::new(thermal_parser::command_sets::esc_pos::new())),
        sink: what.sink.then(|| {
            let evs = Rc::new(RefCell::new(sys::pause(Vec::new)));
            let b: Box<dyn OutputRenderer<u32>> = Box::new(Sink { evs: evs.clone(), outputs: 0, errs: t.sink_errs });
            (Renderer::new(leak(b), profile(t.debug)), evs)
        }),
        img: (what.image && !what.entry).then(|| Renderer::new(leak(new_img()), profile(t.debug))),
        html: (what.html && !what.entry).then(|| Renderer::new(leak(new_html()), profile(t.debug))),
    }
}

/// What the engine holds is given back, for others to be given.
fn switch_off(p: Printer) {
    let Printer { parser, sink, img, html } = p;
    let _ = catch_unwind(AssertUnwindSafe(|| drop((parser, img, html))));
    if let Some((renderer, evs)) = sink {
        let _ = catch_unwind(AssertUnwindSafe(|| drop(renderer)));
        std::mem::forget(evs);
    }
}

fn html_out(o: thermal_renderer::renderer::RenderOutput<ReceiptHtml>) -> HtmlOut {
    HtmlOut { errors: errs(&o.errors), docs: o.output.into_iter().map(|h| h.content).collect() }
}
fn image_out(o: thermal_renderer::renderer::RenderOutput<ReceiptImage>) -> ImageOut {
    ImageOut {
        errors: errs(&o.errors),
        pics: o.output.into_iter().map(|p| Picture { w: p.width, h: p.height, bytes: p.bytes }).collect(),
    }
}

fn map<T, U>(s: Stage<T>, f: impl FnOnce(T) -> U) -> Stage<U> {
    match s {
        Stage::NotRun => Stage::NotRun,
        Stage::Panic(p) => Stage::Panic(p),
        Stage::Ok(t, m) => Stage::Ok(sys::pause(|| f(t)), m),
    }
}

fn run_job(p: &mut Printer, t: &ThreadPlan, bytes: &Vec<u8>, meter: bool) -> JobRec {
    let mut r = JobRec {
        parse: Stage::NotRun,
        thermal: Stage::NotRun,
        sink: Stage::NotRun,
        image: Stage::NotRun,
        html: Stage::NotRun,
    };
    let dbg = profile(t.debug);

    if let Some(parser) = p.parser.as_mut() {
        let entry = t.what.entry;
        let s = stage(meter, || {
            if entry {
                thermal_parser::parse_esc_pos(bytes)
            } else {
                parser.parse_bytes(bytes)
            }
        });
        match s {
            Stage::Ok(cmds, m) => {
                let ctx = sys::pause(Context::new);
                let rec = stage(false, || {
                    let mut v = sys::pause(Vec::new);
                    for c in &cmds {
                        let rec = cmd_rec(c, t.what.debug_str, &ctx);
                        sys::pause(|| v.push(rec));
                    }
                    v
                });
                r.parse = match rec {
                    Stage::Ok(v, _) => Stage::Ok(v, m),
                    Stage::Panic(e) => Stage::Panic(e),
                    Stage::NotRun => Stage::NotRun,
                };
                if t.what.thermal {
                    r.thermal = stage(false, || thermal_file::cmds_to_thermal(&cmds));
                }
                sys::pause(|| drop(cmds));
            }
            Stage::Panic(e) => {
                r.parse = Stage::Panic(e);
                p.parser = None;
            }
            Stage::NotRun => {}
        }
    }

    if let Some((renderer, evs)) = p.sink.as_mut() {
        let s = stage(meter, || renderer.render(bytes));
        let evs = sys::pause(|| std::mem::take(&mut *evs.borrow_mut()));
        r.sink = map(s, |o| {
            // outputs are returned in the order they were finished
            let base = o.output.first().copied().unwrap_or(0);
            let in_order = o.output.iter().enumerate().all(|(i, v)| *v == base + i as u32);
            SinkOut { evs, outputs: if in_order { o.output.len() as u32 } else { u32::MAX }, errors: errs(&o.errors) }
        });
        if r.sink.panic().is_some() {
            p.sink = None;
        }
    }

    if t.what.image {
        if t.what.entry {
            r.image = map(stage(meter, || ImageRenderer::render(bytes, Some(dbg))), image_out);
        } else if let Some(renderer) = p.img.as_mut() {
            r.image = map(stage(meter, || renderer.render(bytes)), image_out);
            if r.image.panic().is_some() {
                p.img = None;
            }
        }
    }

    if t.what.html {
        if t.what.entry {
            r.html = map(stage(meter, || HtmlRenderer::render(bytes, Some(dbg))), html_out);
        } else if let Some(renderer) = p.html.as_mut() {
            r.html = map(stage(meter, || renderer.render(bytes)), html_out);
            if r.html.panic().is_some() {
                p.html = None;
            }
        }
    }
    r
}

fn run_thread(t: &ThreadPlan, me: u32, meter: bool) -> ThreadRec {
    sys::enter(me);
    let mut rec = sys::pause(|| ThreadRec { jobs: Vec::new() });
    let mut printers: [Option<Printer>; 2] = [None, None];
    for j in &t.jobs {
        let printer = &mut printers[j.second as usize];
        if printer.is_none() || j.power {
            if let Some(old) = printer.take() {
                switch_off(old);
            }
            match catch_unwind(AssertUnwindSafe(|| power_on(t))) {
                Ok(p) => *printer = Some(p),
                Err(e) => {
                    std::mem::forget(e);
                    sys::pause(|| {
                        let m = last_panic();
                        rec.jobs.push(JobRec {
                            parse: Stage::Panic(m),
                            thermal: Stage::NotRun,
                            sink: Stage::NotRun,
                            image: Stage::NotRun,
                            html: Stage::NotRun,
                        })
                    });
                    break;
                }
            }
        }
        let r = run_job(printer.as_mut().unwrap(), t, &j.bytes, meter);
        sys::pause(|| rec.jobs.push(r));
    }
    sys::pause(|| std::mem::forget(printers));
    sys::leave();
    rec
}

fn run_plan(plan: &Plan) -> ExecRec {
    let n = plan.threads.len();
    sys::catch_steps();
    sys::set_world(
        n,
        &SchedSpec { seed: plan.sched_seed, p_cb: plan.p_cb, d_alloc: plan.d_alloc, d_edge: plan.d_edge, hot: plan.hot, p_static: plan.p_static, explicit: plan.explicit.clone() },
        plan.stdout,
        plan.hash_seed,
        plan.clock_ns,
        plan.clock_step,
    );
    let meter = plan.meter;
    let mut threads = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = plan
            .threads
            .iter()
            .enumerate()
            .map(|(i, t)| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || run_thread(t, i as u32 + 1, meter))
                    .unwrap()
            })
            .collect();
        for h in hs {
            threads.push(h.join().unwrap());
        }
    });
    let (yields, switches) = sys::finish_world();
    let w = sys::world();
    ExecRec {
        threads,
        yields,
        switches,
        stdout_writes: w.stdout_writes,
        stdout_faults: w.stdout_faults,
        hash_calls: w.hash_calls,
        clock_reads: w.clock_reads,
        futex_waits: w.futex_waits,
        statics: w.statics,
        deadlock: w.deadlock,
    }
}

// ------------------------------------------------------------- process

pub const SHM: usize = 1 << 30;
const DONE: u64 = 0xD04E;

pub struct Shm(*mut u8);

impl Shm {
    pub fn new() -> Shm {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                SHM,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap");
            Shm(p as *mut u8)
        }
    }
}

#[derive(Debug)]
pub enum ExecResult {
    Ok(ExecRec),
    /// the engine took its process down
    Crash(String),
    /// the harness itself failed
    Harness(String),
}

/// Run a plan in a process of its own, started from a state no engine code ever touched.
pub fn exec(plan: &Plan, shm: &Shm) -> ExecResult {
    unsafe {
        let head = shm.0 as *mut u64;
        *head = 0;
        *head.add(1) = 0;
        let pid = libc::fork();
        if pid < 0 {
            return ExecResult::Harness("fork failed".into());
        }
        if pid == 0 {
            let cpu = libc::rlimit { rlim_cur: 20, rlim_max: 22 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            let mem = libc::rlimit { rlim_cur: 5 << 30, rlim_max: 5 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            if null >= 0 {
                libc::dup2(null, 2);
            }
            let rec = match catch_unwind(AssertUnwindSafe(|| run_plan(plan))) {
                Ok(r) => r,
                Err(_) => libc::_exit(78),
            };
            let mut v = vec![];
            rec.put(&mut v);
            if v.len() + 16 > SHM {
                libc::_exit(79);
            }
            std::ptr::copy_nonoverlapping(v.as_ptr(), shm.0.add(16), v.len());
            *head.add(1) = v.len() as u64;
            *head = DONE;
            sys::note_flags();
            libc::_exit(0);
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
            if r < 0 && *libc::__errno_location() != libc::EINTR {
                return ExecResult::Harness("waitpid failed".into());
            }
        }
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 && *head == DONE {
            let n = *head.add(1) as usize;
            let mut s = std::slice::from_raw_parts(shm.0.add(16), n);
            let rec = ExecRec::get(&mut s);
            if n > 8 << 20 {
                libc::madvise(shm.0 as *mut _, SHM, libc::MADV_REMOVE);
            }
            return ExecResult::Ok(rec);
        }
        if libc::WIFEXITED(st) {
            return match libc::WEXITSTATUS(st) {
                77 => ExecResult::Crash("deadlock: every caller waits".into()),
                78 => ExecResult::Harness("executor panicked".into()),
                79 => ExecResult::Harness("result too large".into()),
                c => ExecResult::Crash(format!("the process exited with {}", c)),
            };
        }
        let sig = libc::WTERMSIG(st);
        ExecResult::Crash(match sig {
            libc::SIGXCPU => "endless loop: 20 s of processor time".into(),
            libc::SIGKILL => "killed (memory or processor limit)".into(),
            libc::SIGABRT => "abort (allocation failed or panic while panicking)".into(),
            libc::SIGSEGV => "segmentation fault or stack overflow".into(),
            s => format!("signal {}", s),
        })
    }
}

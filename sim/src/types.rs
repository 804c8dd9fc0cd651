//! What a simulated run records, in the simulator's own types, and how it crosses
//! from the process that ran the engine to the process that judges it.

pub type Px = [u8; 4];
/// x, y, w, h
pub type Rect = [u32; 4];

pub trait Ser: Sized {
    fn put(&self, o: &mut Vec<u8>);
    fn get(i: &mut &[u8]) -> Self;
}

fn take<'a>(i: &mut &'a [u8], n: usize) -> &'a [u8] {
    let (a, b) = i.split_at(n);
    *i = b;
    a
}

macro_rules! ser_int {
    ($($t:ty),*) => {$(impl Ser for $t {
        fn put(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_le_bytes()); }
        fn get(i: &mut &[u8]) -> Self { <$t>::from_le_bytes(take(i, std::mem::size_of::<$t>()).try_into().unwrap()) }
    })*};
}
ser_int!(u8, u32, u64);

impl Ser for bool {
    fn put(&self, o: &mut Vec<u8>) {
        o.push(*self as u8);
    }
    fn get(i: &mut &[u8]) -> Self {
        u8::get(i) != 0
    }
}
impl Ser for String {
    fn put(&self, o: &mut Vec<u8>) {
        self.as_bytes().to_vec().put(o);
    }
    fn get(i: &mut &[u8]) -> Self {
        String::from_utf8(Vec::<u8>::get(i)).unwrap()
    }
}
impl<T: Ser> Ser for Vec<T> {
    fn put(&self, o: &mut Vec<u8>) {
        (self.len() as u64).put(o);
        for v in self {
            v.put(o);
        }
    }
    fn get(i: &mut &[u8]) -> Self {
        let n = u64::get(i);
        (0..n).map(|_| T::get(i)).collect()
    }
}
impl<T: Ser> Ser for Option<T> {
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            None => o.push(0),
            Some(v) => {
                o.push(1);
                v.put(o)
            }
        }
    }
    fn get(i: &mut &[u8]) -> Self {
        match u8::get(i) {
            0 => None,
            _ => Some(T::get(i)),
        }
    }
}
impl<T: Ser + Copy + Default, const N: usize> Ser for [T; N] {
    fn put(&self, o: &mut Vec<u8>) {
        for v in self {
            v.put(o);
        }
    }
    fn get(i: &mut &[u8]) -> Self {
        let mut a = [T::default(); N];
        for v in a.iter_mut() {
            *v = T::get(i);
        }
        a
    }
}
impl<A: Ser, B: Ser> Ser for (A, B) {
    fn put(&self, o: &mut Vec<u8>) {
        self.0.put(o);
        self.1.put(o);
    }
    fn get(i: &mut &[u8]) -> Self {
        let a = A::get(i);
        (a, B::get(i))
    }
}

macro_rules! ser_struct {
    ($n:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $n { $(pub $f: $t),* }
        impl Ser for $n {
            fn put(&self, o: &mut Vec<u8>) { $(self.$f.put(o);)* }
            fn get(i: &mut &[u8]) -> Self { $(let $f = <$t>::get(i);)* $n { $($f),* } }
        }
    };
}

ser_struct!(Span {
    text: String,
    font: u8,
    bw: u32,
    bh: u32,
    cw: u32,
    ch: u32,
    bold: bool,
    italic: bool,
    ul: u32,
    st: u32,
    sw: u32,
    sh: u32,
    inv: bool,
    upd: bool,
    just: u8,
    dim: Option<Rect>,
    bg: Px,
    fg: Px,
});

ser_struct!(Img {
    x: u32,
    y: u32,
    w: u32,
    h: u32,
    flow: u8,
    upd: bool,
    px: Vec<Px>,
});

/// A call the engine makes on its output device.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Debug([bool; 4]),
    /// x, y, printable width, paper width, left margin, right margin
    Begin([u32; 6]),
    PageBegin,
    /// rotation, w, h
    PageArea([u32; 3]),
    PageEnd,
    /// x, y, direction
    PrintPage([u32; 3]),
    Gfx(bool, Px, Vec<Rect>),
    Image(bool, Img),
    /// page, x offset, height of the line, justification
    Text(bool, u32, u32, u8, Vec<Span>),
    /// number of errors the device reported
    Errs(u32),
    /// paper y
    End(u32),
}

impl Ser for Ev {
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            Ev::Debug(d) => {
                o.push(0);
                d.put(o)
            }
            Ev::Begin(a) => {
                o.push(1);
                a.put(o)
            }
            Ev::PageBegin => o.push(2),
            Ev::PageArea(a) => {
                o.push(3);
                a.put(o)
            }
            Ev::PageEnd => o.push(4),
            Ev::PrintPage(a) => {
                o.push(5);
                a.put(o)
            }
            Ev::Gfx(p, c, r) => {
                o.push(6);
                p.put(o);
                c.put(o);
                r.put(o)
            }
            Ev::Image(p, i) => {
                o.push(7);
                p.put(o);
                i.put(o)
            }
            Ev::Text(p, x, h, j, s) => {
                o.push(8);
                p.put(o);
                x.put(o);
                h.put(o);
                j.put(o);
                s.put(o)
            }
            Ev::Errs(n) => {
                o.push(9);
                n.put(o)
            }
            Ev::End(y) => {
                o.push(10);
                y.put(o)
            }
        }
    }
    fn get(i: &mut &[u8]) -> Self {
        match u8::get(i) {
            0 => Ev::Debug(Ser::get(i)),
            1 => Ev::Begin(Ser::get(i)),
            2 => Ev::PageBegin,
            3 => Ev::PageArea(Ser::get(i)),
            4 => Ev::PageEnd,
            5 => Ev::PrintPage(Ser::get(i)),
            6 => {
                let p = Ser::get(i);
                let c = Ser::get(i);
                Ev::Gfx(p, c, Ser::get(i))
            }
            7 => {
                let p = Ser::get(i);
                Ev::Image(p, Ser::get(i))
            }
            8 => {
                let p = Ser::get(i);
                let x = Ser::get(i);
                let h = Ser::get(i);
                let j = Ser::get(i);
                Ev::Text(p, x, h, j, Ser::get(i))
            }
            9 => Ev::Errs(Ser::get(i)),
            10 => Ev::End(Ser::get(i)),
            t => panic!("bad event tag {t}"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EK {
    Unknown,
    Graphics,
    Child,
    Other,
}

ser_struct!(CmdRec {
    kind: u8,
    data_kind: u8,
    name: String,
    cmd: Vec<u8>,
    data: Vec<u8>,
    debug: String,
});

ser_struct!(Meter {
    peak: u64,
    total: u64,
    largest: u64,
    count: u64,
});

ser_struct!(Picture {
    w: u32,
    h: u32,
    bytes: Vec<u8>,
});

/// What one engine entry point did with one job.
#[derive(Clone, Debug)]
pub enum Stage<T> {
    NotRun,
    Panic(String),
    Ok(T, Meter),
}

impl<T> Stage<T> {
    pub fn ok(&self) -> Option<&T> {
        match self {
            Stage::Ok(t, _) => Some(t),
            _ => None,
        }
    }
    pub fn meter(&self) -> Option<&Meter> {
        match self {
            Stage::Ok(_, m) => Some(m),
            _ => None,
        }
    }
    pub fn panic(&self) -> Option<&str> {
        match self {
            Stage::Panic(p) => Some(p),
            _ => None,
        }
    }
}

impl<T: Ser> Ser for Stage<T> {
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            Stage::NotRun => o.push(0),
            Stage::Panic(s) => {
                o.push(1);
                s.put(o)
            }
            Stage::Ok(t, m) => {
                o.push(2);
                t.put(o);
                m.put(o)
            }
        }
    }
    fn get(i: &mut &[u8]) -> Self {
        match u8::get(i) {
            0 => Stage::NotRun,
            1 => Stage::Panic(Ser::get(i)),
            _ => {
                let t = Ser::get(i);
                Stage::Ok(t, Ser::get(i))
            }
        }
    }
}

ser_struct!(SinkOut {
    evs: Vec<Ev>,
    outputs: u32,
    errors: Vec<String>,
});
ser_struct!(ImageOut {
    pics: Vec<Picture>,
    errors: Vec<String>,
});
ser_struct!(HtmlOut {
    docs: Vec<String>,
    errors: Vec<String>,
});

#[derive(Clone, Debug)]
pub struct JobRec {
    pub parse: Stage<Vec<CmdRec>>,
    pub thermal: Stage<String>,
    pub sink: Stage<SinkOut>,
    pub image: Stage<ImageOut>,
    pub html: Stage<HtmlOut>,
}

impl Ser for JobRec {
    fn put(&self, o: &mut Vec<u8>) {
        self.parse.put(o);
        self.thermal.put(o);
        self.sink.put(o);
        self.image.put(o);
        self.html.put(o);
    }
    fn get(i: &mut &[u8]) -> Self {
        let parse = Ser::get(i);
        let thermal = Ser::get(i);
        let sink = Ser::get(i);
        let image = Ser::get(i);
        JobRec { parse, thermal, sink, image, html: Ser::get(i) }
    }
}

ser_struct!(ThreadRec { jobs: Vec<JobRec> });

impl PartialEq for JobRec {
    fn eq(&self, o: &Self) -> bool {
        self.put_vec() == o.put_vec()
    }
}
impl JobRec {
    /// Everything observable, without the meters.
    pub fn put_vec(&self) -> Vec<u8> {
        let mut v = vec![];
        fn st<T: Ser>(s: &Stage<T>, v: &mut Vec<u8>) {
            match s {
                Stage::NotRun => v.push(0),
                Stage::Panic(p) => {
                    v.push(1);
                    p.put(v)
                }
                Stage::Ok(t, _) => {
                    v.push(2);
                    t.put(v)
                }
            }
        }
        st(&self.parse, &mut v);
        st(&self.thermal, &mut v);
        st(&self.sink, &mut v);
        st(&self.image, &mut v);
        st(&self.html, &mut v);
        v
    }
    pub fn first_panic(&self) -> Option<String> {
        for p in [
            self.parse.panic().map(|p| ("parse", p)),
            self.thermal.panic().map(|p| ("thermal", p)),
            self.sink.panic().map(|p| ("render", p)),
            self.image.panic().map(|p| ("image", p)),
            self.html.panic().map(|p| ("html", p)),
        ]
        .into_iter()
        .flatten()
        {
            return Some(format!("{}: {}", p.0, p.1));
        }
        None
    }
}

ser_struct!(ExecRec {
    threads: Vec<ThreadRec>,
    yields: u64,
    switches: Vec<(u64, u32)>,
    stdout_writes: u64,
    stdout_faults: u64,
    hash_calls: u64,
    clock_reads: u64,
    futex_waits: u64,
    statics: u64,
    deadlock: bool,
});

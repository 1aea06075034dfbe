//! Generators of names, numbers and abstract OBJ and MTL files.

use crate::dict::{dict, is_word, MAX_SIZE};
use crate::model::*;
use crate::src::{Rng, Src};

// --------------------------------------------------------------------- names

const SIMPLE: [&str; 8] = ["a", "b", "c", "d", "m1", "m2", "Cube", "mat"];
const TAGLIKE: [&str; 48] = [
    "v", "vt", "vn", "vp", "f", "p", "l", "g", "s", "o", "usemtl", "mtllib", "newmtl", "off", "on", "default", "0",
    "1", "2", "-1", "1/1", "1//1", "1/1/1", "0.5", "nan", "inf", "Ka", "Kd", "Ks", "Ke", "Ns", "Ni", "d", "illum",
    "Tf", "map_Ka", "map_Bump", "bump", "disp", "decal", "none", "null", "None", "/", "//", ".", "-", "+",
];
const ODD: [char; 44] = [
    '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{2003}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{feff}', '\u{200b}',
    '\u{0}', '\u{7f}', '\u{1c}', '\u{80}', 'é', 'ß', 'İ', 'ı', 'Ω', '中', '文', '😀', '\u{10ffff}', '\u{301}', '\u{ffff}',
    '"', '\'', '`', '$', '%', '&', '*', ';', ':', ',', '|', '~', '^', '{', '}', '(', '[', '<', '=',
];

fn push_odd(src: &mut Src, out: &mut String) {
    match src.weighted(&[6, 4, 1, 1]) {
        3 => {
            // A control character (not a tab or line end).
            let c = (1 + src.below(31) as u8) as char;
            out.push(if is_word(&c.to_string()) { c } else { '\u{1b}' })
        }
        0 => out.push(*src.pick(&['a', 'z', 'A', 'Z', '0', '9', '_', '-', '.', '/', 'x', 'm'])),
        1 => out.push(*src.pick(&ODD)),
        _ => {
            let c = char::from_u32(src.below(0x11_0000) as u32).unwrap_or('a');
            if is_word(&c.to_string()) {
                out.push(c)
            } else {
                out.push('q')
            }
        }
    }
}

/// One word: anything free of separators, line ends and `#`.
pub fn word(src: &mut Src) -> String {
    match src.weighted(&[8, 5, 5, 3, 2, 2, 2, 2, 3, 1]) {
        8 => composite(src),
        9 => {
            // A word in brackets or quotes.
            let (a, b) = *src.pick(&[
                ("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), ("\"", "\""), ("'", "'"), ("`", "`"), ("%", "%"), ("$", ""),
                ("${", "}"), ("$(", ")"), ("«", "»"), ("|", "|"), ("*", "*"), ("__", "__"), ("&", ";"), ("&#x", ";"),
            ]);
            let inner = if src.chance(1, 3) { composite(src) } else { (*src.pick(&SIMPLE)).to_owned() };
            // No comment: the sign is not part of words.
            format!("{}{}{}", a.replace('#', ""), inner, b)
        }
        6 => {
            // A plain word with one other character at its edge.
            let base = if src.chance(1, 2) { *src.pick(&SIMPLE) } else { *src.pick(&TAGLIKE) };
            let mut odd = String::new();
            push_odd(src, &mut odd);
            if src.chance(1, 2) {
                odd + base
            } else {
                base.to_owned() + &odd
            }
        }
        7 => {
            // A plain word doubled, in the other case, or in part.
            let base = if src.chance(1, 2) { *src.pick(&SIMPLE) } else { *src.pick(&TAGLIKE) };
            match src.usize(4) {
                0 => base.repeat(2 + src.usize(3)),
                1 => base.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                2 => base.chars().rev().collect(),
                _ => base.chars().take(1 + src.usize(3)).collect(),
            }
        }
        0 => (*src.pick(&SIMPLE)).to_owned(),
        1 => (*src.pick(&TAGLIKE)).to_owned(),
        2 => {
            let n = 1 + src.len(4, 24);
            let mut s = String::new();
            for _ in 0..n {
                push_odd(src, &mut s);
            }
            s
        }
        3 => {
            let d = dict();
            let w = src.pick(&d.words).clone();
            match src.weighted(&[6, 1, 1, 1, 2, 1]) {
                0 => w,
                1 => w + "1",
                2 => w.to_uppercase(),
                3 => w + src.pick(&SIMPLE[..]),
                4 => (*src.pick(&SIMPLE)).to_owned() + &w,
                _ => format!("{}{}{}", src.pick(&SIMPLE[..]), w, src.pick(&SIMPLE[..])),
            }
        }
        4 => {
            // Conventional file and material names.
            let base = (*src.pick(&["Material", "body", "wood", "tex/wood", "C:/maps/x", "part"])).to_owned();
            let num = src.below(120);
            let ext = *src.pick(&["", ".mtl", ".png", ".jpg", ".001", ".tga"]);
            format!("{}{}{}", base, num, ext)
        }
        _ => {
            let c = *src.pick(&["x", "ab", "é", "中", "😀", "_"]);
            let n = 1 + src.usize(90);
            c.repeat(n)
        }
    }
}

/// A word of pieces joined by punctuation: paths, escapes, numbered names.
fn composite(src: &mut Src) -> String {
    let piece = |src: &mut Src| match src.weighted(&[4, 3, 2, 2, 1, 1]) {
        0 => (*src.pick(&SIMPLE)).to_owned(),
        1 => format!("{}", src.below(1000)),
        2 => format!("{:02X}", 0x20 + src.below(0x60)),
        3 => (*src.pick(&["..", ".", "", "a", "001", "000", "x64", "png", "PNG", "mtl", "v1", "http:", "~"])).to_owned(),
        4 => (*src.pick(&TAGLIKE)).to_owned(),
        _ => {
            let mut s = String::new();
            push_odd(src, &mut s);
            s
        }
    };
    let mut s = piece(src);
    let joint = *src.pick(&["/", ".", "_", "-", ":", "%", "//", "::", "/../", "/./", "@", "=", "&", "+", "~", "$", ",", ";", "|", "'", "!", "?", "%20", "^"]);
    for _ in 0..1 + src.usize(3) {
        s.push_str(joint);
        s.push_str(&piece(src));
    }
    if src.chance(1, 6) {
        s.push_str(*src.pick(&[".png", ".mtl", "/", ".", ".obj", ".001"]));
    }
    s
}

pub fn long_word(src: &mut Src, len: usize) -> String {
    let unit = *src.pick(&["n", "ab", "xyz1", "é", "中文", "a\u{301}", "😀"]);
    let mut s = unit.repeat(len / unit.len());
    while s.len() < len {
        s.push('k');
    }
    s
}

// ------------------------------------------------------------------- numbers

pub fn num_of(txt: String) -> Num {
    let val = txt.parse::<f64>().expect("generated number");
    debug_assert!(val.is_finite());
    Num { txt, val }
}

fn finite(bits: u64) -> f64 {
    let v = f64::from_bits(bits);
    if v.is_finite() {
        v
    } else {
        f64::from_bits(bits & !(1 << 62))
    }
}

fn notation(src: &mut Src, v: f64) -> String {
    match src.weighted(&[3, 2, 2, 1, 1, 1]) {
        0 => format!("{}", v),
        1 => format!("{:?}", v),
        2 => format!("{:e}", v),
        3 => format!("{:E}", v),
        4 => {
            let s = format!("{:e}", v);
            if s.contains("e-") {
                s
            } else {
                s.replace('e', "e+")
            }
        }
        _ => {
            let s = format!("{:.25e}", v);
            s
        }
    }
}

const SPECIAL: [&str; 40] = [
    "0", "-0", "0.0", "-0.0", "1", "-1", ".5", "-.5", "5.", "-5.", "00.50", "007", "1e0", "1E5", "1e+05", "1e-07",
    "1.0e10", "5e-324", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.2250738585072014e-308",
    "2.2250738585072011e-308", "1.7976931348623157e308", "-1.7976931348623157e308", "1e-400", "-1e-400", "0e999",
    "9007199254740993", "9007199254740992", "18446744073709551616", "340282350000000000000000000000000000000",
    "0.1", "0.2", "0.30000000000000004", "1.0000000000000002", "0.99999999999999994", "16777217", "1e22", "1e23",
];

/// A finite number in some notation. `wild` raises the odds of unusual ones.
pub fn num(src: &mut Src, wild: bool) -> Num {
    let w: [u32; 7] = if wild { [3, 3, 4, 4, 4, 2, 1] } else { [10, 8, 1, 1, 1, 0, 0] };
    let txt = match src.weighted(&w) {
        0 => format!("{}", src.below(10)),
        1 => {
            let m = src.below(4_000_001) as i64 - 2_000_000;
            let places = src.usize(7);
            let sign = if m < 0 { "-" } else { "" };
            let m = m.abs();
            let p = 10i64.pow(places as u32);
            if places == 0 {
                format!("{}{}", sign, m)
            } else {
                format!("{}{}.{:0w$}", sign, m / p, m % p, w = places)
            }
        }
        2 => (*src.pick(&SPECIAL)).to_owned(),
        3 => {
            let v = finite(src.any_u64());
            notation(src, v)
        }
        4 => {
            // A value near a small set of magnitudes, one ulp around.
            let k = src.below(160) as i32 - 80;
            let base = (2f64).powi(k);
            let ulp = src.below(5) as i64 - 2;
            let v = f64::from_bits((base.to_bits() as i64 + ulp) as u64);
            let v = if src.chance(1, 2) { -v } else { v };
            notation(src, v)
        }
        5 if src.chance(1, 3) => {
            // Around a number of the code's.
            let f = *src.pick(&dict().floats);
            let f = [f, f * 2.0, f / 2.0, f + 1.0, 1.0 - f][src.weighted(&[6, 1, 1, 1, 1])];
            let ulp = src.below(3) as i64 - 1;
            let v = if f == 0.0 { f } else { finite((f.to_bits() as i64 + ulp) as u64) };
            let v = if src.chance(1, 3) { -v } else { v };
            notation(src, v)
        }
        5 => {
            let d = dict();
            let i = *src.pick(&d.ints) + src.below(3) as i64 - 1;
            let tail = *src.pick(&["", ".0", ".5", "e0", ".000001"]);
            format!("{}{}", i, tail)
        }
        _ => {
            let n = src.range(18, 60);
            let mut s = String::new();
            for _ in 0..n {
                s.push((b'0' + src.below(10) as u8) as char);
            }
            let at = src.usize(n);
            s.insert(at.max(1), '.');
            if src.chance(1, 3) {
                let e = src.below(40) as i64 - 20;
                s.push_str(&format!("e{}", e));
            }
            s
        }
    };
    if wild && !txt.starts_with('-') && src.chance(1, 24) {
        return num_of(format!("+{}", txt));
    }
    num_of(txt)
}

fn bulk_num(rng: &mut Rng) -> Num {
    let m = rng.below(2_000_000) as f64 / 1000.0 - 1000.0;
    let txt = format!("{}", m);
    Num { txt, val: m }
}

// ---------------------------------------------------------------- OBJ builder

/// Statement weights, in the order V Vt Vn P L F G S U O.
#[derive(Clone, Debug)]
pub struct ObjCfg {
    pub weights: [u32; 10],
    pub wild: bool,
    /// 0: absolute, 1: relative, 2: either.
    pub rel: usize,
    pub pool: Vec<String>,
    pub smooth: Vec<(usize, String)>,
    pub max_refs: usize,
    /// Odds (of 8) of a fresh random name rather than a pool name.
    pub fresh: u64,
    pub bare_g: u64,
}

pub const NEUTRAL: [u32; 10] = [8, 3, 3, 2, 2, 4, 3, 3, 3, 2];
pub const STATEFUL: [u32; 10] = [3, 1, 1, 5, 3, 4, 7, 6, 6, 2];
pub const DATA: [u32; 10] = [10, 8, 8, 1, 1, 1, 1, 1, 1, 2];
pub const INDEXED: [u32; 10] = [7, 6, 6, 6, 7, 9, 1, 1, 1, 3];
pub const OBJECTS: [u32; 10] = [4, 2, 2, 2, 1, 2, 2, 2, 2, 9];

pub fn smooth_value(src: &mut Src) -> (usize, String) {
    match src.weighted(&[5, 3, 3, 2, 1, 1]) {
        0 => {
            let v = 1 + src.usize(4);
            (v, v.to_string())
        }
        1 => (0, "off".to_owned()),
        2 => (0, "0".to_owned()),
        3 => {
            let v = src.usize(70);
            let plus = if src.chance(1, 4) { "+" } else { "" };
            (v, format!("{}{:0w$}", plus, v, w = src.range(1, 4)))
        }
        4 => {
            let v = *src.pick(&[
                255usize, 256, 257, 32767, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, usize::MAX - 1,
                usize::MAX, i64::MAX as usize, i64::MAX as usize + 1,
            ]);
            (v, v.to_string())
        }
        _ => {
            let v = (*src.pick(&dict().ints)).unsigned_abs() as usize + src.usize(3);
            (v, v.to_string())
        }
    }
}

pub fn obj_cfg(src: &mut Src, base: &[u32; 10]) -> ObjCfg {
    let mut weights = *base;
    // Swarm: change or switch off some statement kinds for this case.
    for w in weights.iter_mut() {
        match src.weighted(&[4, 1, 1]) {
            0 => {}
            1 => *w = 0,
            _ => *w *= 4,
        }
    }
    if weights.iter().sum::<u32>() == 0 {
        weights = *base;
    }
    let n = 1 + src.usize(4);
    let mut pool = vec![];
    for _ in 0..n {
        pool.push(word(src));
    }
    let n = 1 + src.usize(4);
    let mut smooth = vec![];
    for _ in 0..n {
        smooth.push(smooth_value(src));
    }
    ObjCfg {
        weights,
        wild: src.chance(1, 3),
        rel: src.usize(3),
        pool,
        smooth,
        max_refs: *src.pick(&[3, 4, 5, 8, 20]),
        fresh: src.below(3),
        bare_g: src.below(4),
    }
}

impl ObjCfg {
    pub fn name(&self, src: &mut Src) -> String {
        if src.chance(self.fresh, 8) {
            word(src)
        } else {
            src.pick(&self.pool).clone()
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct ObjBuilder {
    pub file: ObjFile,
    pub base: [usize; 3],
    pub cnt: [usize; 3],
}

impl ObjBuilder {
    pub fn push(&mut self, st: Stmt) {
        step(&st, &mut self.base, &mut self.cnt);
        self.file.stmts.push(st);
    }

    fn nums(src: &mut Src, cfg: &ObjCfg, n: usize) -> Vec<Num> {
        (0..n).map(|_| num(src, cfg.wild)).collect()
    }

    pub fn data(&mut self, src: &mut Src, cfg: &ObjCfg, kind: usize) {
        let st = match kind {
            0 => {
                let n = 3 + src.usize(2);
                Stmt::V(Self::nums(src, cfg, n))
            }
            1 => {
                let n = 1 + src.usize(3);
                Stmt::Vt(Self::nums(src, cfg, n))
            }
            _ => Stmt::Vn(Self::nums(src, cfg, 3)),
        };
        self.push(st);
    }

    fn component(&self, src: &mut Src, k: usize) -> usize {
        let n = self.cnt[k];
        match src.weighted(&[2, 2, 1, 5]) {
            0 => n - 1,
            1 => 0,
            2 => n.saturating_sub(2),
            _ => src.usize(n),
        }
    }

    pub fn reference(&self, src: &mut Src, cfg: &ObjCfg, form: Form) -> Ref {
        let mut r = Ref { idx: [0; 3], rel: [false; 3], zeros: 0 };
        for k in 0..3 {
            let used = k == 0 || (k == 1 && form.has_t()) || (k == 2 && form.has_n());
            if used {
                r.idx[k] = self.component(src, k);
                r.rel[k] = match cfg.rel {
                    0 => false,
                    1 => true,
                    _ => src.chance(1, 2),
                };
            }
        }
        if src.chance(1, 40) {
            r.zeros = 1 + src.below(4) as u8;
        }
        r
    }

    pub fn form(&mut self, src: &mut Src, cfg: &ObjCfg) -> Form {
        let form = FORMS[src.usize(4)];
        self.need(src, cfg, form);
        form
    }

    fn need(&mut self, src: &mut Src, cfg: &ObjCfg, form: Form) {
        if self.cnt[0] == 0 {
            self.data(src, cfg, 0);
        }
        if form.has_t() && self.cnt[1] == 0 {
            self.data(src, cfg, 1);
        }
        if form.has_n() && self.cnt[2] == 0 {
            self.data(src, cfg, 2);
        }
    }

    pub fn refs(&self, src: &mut Src, cfg: &ObjCfg, form: Form, min: usize) -> Vec<Ref> {
        let n = min + src.len(2, cfg.max_refs.max(min) - min);
        (0..n).map(|_| self.reference(src, cfg, form)).collect()
    }

    /// One random statement (plus the data it needs).
    pub fn stmt(&mut self, src: &mut Src, cfg: &ObjCfg) {
        match src.weighted(&cfg.weights) {
            k @ 0..=2 => self.data(src, cfg, k),
            3 => {
                self.need(src, cfg, Form::V);
                let r = self.refs(src, cfg, Form::V, 1);
                self.push(Stmt::P(r));
            }
            4 => {
                let f = self.form(src, cfg);
                let r = self.refs(src, cfg, f, 2);
                self.push(Stmt::L(f, r));
            }
            5 => {
                let f = self.form(src, cfg);
                let r = self.refs(src, cfg, f, 3);
                self.push(Stmt::F(f, r));
            }
            6 => {
                let names = if src.chance(cfg.bare_g, 8) {
                    vec![]
                } else {
                    let n = 1 + src.len(1, 6);
                    (0..n).map(|_| cfg.name(src)).collect()
                };
                self.push(Stmt::G(names));
            }
            7 => {
                let (v, t) = src.pick(&cfg.smooth).clone();
                self.push(Stmt::S(v, t));
            }
            8 => {
                let n = cfg.name(src);
                self.push(Stmt::U(n));
            }
            _ => {
                let n = cfg.name(src);
                self.push(Stmt::O(n));
            }
        }
    }
}

pub fn libs(src: &mut Src, cfg: &ObjCfg) -> Vec<Vec<String>> {
    let n = src.weighted(&[5, 3, 1, 1]);
    (0..n)
        .map(|_| {
            let k = src.weighted(&[1, 6, 2, 1]);
            (0..k).map(|_| cfg.name(src)).collect()
        })
        .collect()
}

pub fn obj_file(src: &mut Src, base: &[u32; 10], mean: u64) -> ObjFile {
    let cfg = obj_cfg(src, base);
    let mut b = ObjBuilder::default();
    b.file.libs = libs(src, &cfg);
    let n = src.len(mean, 80);
    for _ in 0..n {
        b.stmt(src, &cfg);
    }
    b.file
}

/// A second file that starts with an object statement and has no libraries.
pub fn obj_tail(src: &mut Src, base: &[u32; 10], mean: u64) -> ObjFile {
    let cfg = obj_cfg(src, base);
    let mut b = ObjBuilder::default();
    let name = cfg.name(src);
    b.push(Stmt::O(name));
    let n = src.len(mean, 60);
    for _ in 0..n {
        b.stmt(src, &cfg);
    }
    b.file
}

// ---------------------------------------------------------------------- scale

pub fn size(src: &mut Src) -> usize {
    let d = dict();
    match src.weighted(&[4, 6, 1]) {
        0 => src.usize(300),
        1 => {
            // log-uniform over the list: it is mostly powers of two
            *src.pick(&d.sizes)
        }
        _ => src.usize(MAX_SIZE),
    }
}

pub fn small_size(src: &mut Src) -> usize {
    size(src).min(1 + 9000)
}

/// What is made large, by property focus.
pub const DIMS: usize = 18;

fn bulk_ref(rng: &mut Rng, cnt: [usize; 3], mode: u64) -> Ref {
    let mut r = Ref { idx: [0; 3], rel: [false; 3], zeros: 0 };
    for k in 0..3 {
        if cnt[k] > 0 {
            r.idx[k] = match rng.below(4) {
                0 => 0,
                1 => cnt[k] - 1,
                _ => rng.below(cnt[k] as u64) as usize,
            };
        }
        r.rel[k] = match mode {
            0 => false,
            1 => true,
            _ => rng.below(2) == 1,
        };
    }
    r
}

/// A file with one large dimension between two small random parts.
/// Returns the file and a label.
pub fn obj_scale(src: &mut Src, dims: &[usize]) -> (ObjFile, String) {
    let dim = *src.pick(dims);
    let mut n = size(src).max(1);
    let cfg = obj_cfg(src, &NEUTRAL);
    let mut b = ObjBuilder::default();
    b.file.libs = libs(src, &cfg);
    let pre = src.len(4, 20);
    for _ in 0..pre {
        b.stmt(src, &cfg);
    }
    let mut rng = src.bulk();
    let mode = src.below(3);
    let form = FORMS[src.usize(4)];
    let simple = |rng: &mut Rng, k: usize| -> Vec<Num> { (0..k).map(|_| bulk_num(rng)).collect() };
    match dim {
        0..=2 => {
            for _ in 0..n {
                let st = match dim {
                    0 => {
                        let k = 3 + rng.below(2) as usize;
                        Stmt::V(simple(&mut rng, k))
                    }
                    1 => {
                        let k = 1 + rng.below(3) as usize;
                        Stmt::Vt(simple(&mut rng, k))
                    }
                    _ => Stmt::Vn(simple(&mut rng, 3)),
                };
                b.push(st);
            }
            b.need(src, &cfg, form);
            for _ in 0..4 {
                let r: Vec<Ref> = (0..4).map(|_| bulk_ref(&mut rng, b.cnt, mode)).collect();
                b.push(Stmt::F(form, r));
            }
        }
        3..=5 => {
            let form = if dim == 3 { Form::V } else { form };
            b.need(src, &cfg, form);
            let extra = src.usize(20);
            for _ in 0..extra {
                b.data(src, &cfg, 0);
            }
            let k = n.max(dim - 2);
            let r: Vec<Ref> = (0..k).map(|_| bulk_ref(&mut rng, b.cnt, mode)).collect();
            b.push(match dim {
                3 => Stmt::P(r),
                4 => Stmt::L(form, r),
                _ => Stmt::F(form, r),
            });
        }
        6 => {
            // Each element would copy the index list: few elements.
            n = n.min(40_000);
            let names: Vec<String> = (0..n).map(|i| format!("g{}", i % (1 + n / 2))).collect();
            b.push(Stmt::G(names));
            b.need(src, &cfg, Form::V);
            let r = vec![bulk_ref(&mut rng, b.cnt, mode); 2];
            b.push(Stmt::P(r));
        }
        7..=9 => {
            // Many state changes, elements between some of them.
            b.need(src, &cfg, Form::V);
            let gap = 1 + src.below(3);
            let alphabet = 1 + src.below(5);
            for i in 0..n {
                b.push(match dim {
                    7 => Stmt::G(if rng.below(12) == 0 { vec![] } else { vec![format!("g{}", rng.below(alphabet * 3))] }),
                    8 => {
                        let v = rng.below(alphabet * 3) as usize;
                        Stmt::S(v, if v == 0 { "off".to_owned() } else { v.to_string() })
                    }
                    _ => Stmt::U(format!("m{}", rng.below(alphabet * 3))),
                });
                if i + 1 == n || rng.below(gap) == 0 {
                    let r = vec![bulk_ref(&mut rng, b.cnt, mode)];
                    b.push(Stmt::P(r));
                }
            }
        }
        10 | 11 => {
            // Many objects, with contents or (mostly) without.
            for i in 0..n {
                b.push(Stmt::O(format!("o{}", i)));
                if dim == 10 || i + 3 >= n {
                    let k = rng.below(3);
                    for _ in 0..=k {
                        let st = match rng.below(3) {
                            0 => Stmt::Vt(simple(&mut rng, 2)),
                            1 => Stmt::Vn(simple(&mut rng, 3)),
                            _ => Stmt::V(simple(&mut rng, 3)),
                        };
                        b.push(st);
                    }
                    if b.cnt[0] > 0 {
                        match rng.below(4) {
                            0 => b.push(Stmt::G(vec![format!("g{}", rng.below(5))])),
                            1 => b.push(Stmt::S(3, "3".to_owned())),
                            2 => b.push(Stmt::U(format!("m{}", rng.below(5)))),
                            _ => {}
                        }
                        let r = vec![bulk_ref(&mut rng, b.cnt, mode)];
                        b.push(Stmt::P(r));
                    }
                }
            }
        }
        12 => {
            for i in 0..n {
                b.file.libs.push(vec![format!("lib{}.mtl", i)]);
            }
        }
        13 => {
            b.file.libs.push((0..n).map(|i| format!("lib{}.mtl", i)).collect());
        }
        14 => {
            let w = long_word(src, n);
            b.need(src, &cfg, Form::V);
            match src.usize(4) {
                0 => {
                    b.push(Stmt::G(vec!["a".to_owned(), w]));
                }
                1 => b.push(Stmt::U(w)),
                2 => b.push(Stmt::O(w)),
                _ => b.file.libs.push(vec![w]),
            }
            b.need(src, &cfg, Form::V);
            let r = vec![bulk_ref(&mut rng, b.cnt, mode)];
            b.push(Stmt::P(r));
        }
        15 => {
            // Many short element statements.
            b.need(src, &cfg, form);
            for _ in 0..src.usize(12) {
                b.data(src, &cfg, 0);
            }
            for _ in 0..n {
                let st = match rng.below(3) {
                    0 => Stmt::P(vec![bulk_ref(&mut rng, b.cnt, mode)]),
                    1 => Stmt::L(form, (0..2).map(|_| bulk_ref(&mut rng, b.cnt, mode)).collect()),
                    _ => Stmt::F(form, (0..3 + rng.below(2)).map(|_| bulk_ref(&mut rng, b.cnt, mode)).collect()),
                };
                b.push(st);
            }
        }
        16 => {
            // Long digit strings.
            let n = n.min(5000);
            let mut s = String::from(*src.pick(&["0.", "1.", "-3.", "0.000"]));
            for _ in 0..n {
                s.push((b'0' + rng.below(10) as u8) as char);
            }
            let x = num_of(s);
            b.push(Stmt::V(vec![x.clone(), x.clone(), x.clone()]));
            b.push(Stmt::Vt(vec![x.clone()]));
            b.push(Stmt::Vn(vec![x.clone(), x.clone(), x]));
        }
        _ => {
            // Interleaved data and elements: counts differ by kind and move.
            for _ in 0..n.min(30_000) {
                match rng.below(5) {
                    0 => b.push(Stmt::V(simple(&mut rng, 3))),
                    1 => b.push(Stmt::Vt(simple(&mut rng, 2))),
                    2 => b.push(Stmt::Vn(simple(&mut rng, 3))),
                    _ => {
                        let form = FORMS[rng.below(4) as usize];
                        if b.cnt[0] > 0 && !(form.has_t() && b.cnt[1] == 0) && !(form.has_n() && b.cnt[2] == 0) {
                            let r = (0..3).map(|_| bulk_ref(&mut rng, b.cnt, mode)).collect();
                            b.push(Stmt::F(form, r));
                        }
                    }
                }
            }
        }
    }
    let post = src.len(4, 20);
    for _ in 0..post {
        b.stmt(src, &cfg);
    }
    (b.file, format!("scale-dim{}", dim))
}

// ----------------------------------------------------------------------- MTL

pub fn illum(src: &mut Src) -> MStmt {
    let v = src.usize(3);
    let txt = match src.weighted(&[18, 1, 1]) {
        0 => v.to_string(),
        1 => format!("{:03}", v),
        _ => format!("+{}", v),
    };
    MStmt::Illum(v, txt)
}

pub fn mstmt(src: &mut Src, wild: bool, pool: &[String], w: &[u32; 4]) -> MStmt {
    match src.weighted(w) {
        0 => {
            let k = src.usize(4);
            MStmt::Color(k, [num(src, wild), num(src, wild), num(src, wild)])
        }
        1 => {
            let k = src.usize(3);
            MStmt::Scalar(k, num(src, wild))
        }
        2 => illum(src),
        _ => {
            let k = src.usize(10);
            let n = if src.chance(1, 3) { word(src) } else { src.pick(pool).clone() };
            MStmt::Map(k, n)
        }
    }
}

pub fn mtl_file(src: &mut Src, mean: u64) -> MtlFile {
    let wild = src.chance(1, 3);
    let n = 1 + src.usize(4);
    let pool: Vec<String> = (0..n).map(|_| word(src)).collect();
    let mut w = [4u32, 4, 2, 6];
    for x in w.iter_mut() {
        match src.weighted(&[4, 1, 1]) {
            0 => {}
            1 => *x = 0,
            _ => *x *= 4,
        }
    }
    if w.iter().sum::<u32>() == 0 {
        w = [1, 1, 1, 1];
    }
    let n = src.len(3, 12);
    let mut file = MtlFile::default();
    for _ in 0..n {
        let name = if src.chance(1, 4) { word(src) } else { src.pick(&pool).clone() };
        let k = src.len(mean, 40);
        let stmts = (0..k).map(|_| mstmt(src, wild, &pool, &w)).collect();
        file.mats.push(Mat { name, stmts });
    }
    file
}

pub fn mtl_scale(src: &mut Src) -> (MtlFile, String) {
    let n = size(src).max(1);
    let dim = src.usize(5);
    let mut file = mtl_file(src, 3);
    let mut rng = src.bulk();
    let pool = vec!["a".to_owned(), "b.png".to_owned()];
    let bulk_stmt = |rng: &mut Rng| -> MStmt {
        match rng.below(4) {
            0 => MStmt::Color(rng.below(4) as usize, [bulk_num(rng), bulk_num(rng), bulk_num(rng)]),
            1 => MStmt::Scalar(rng.below(3) as usize, bulk_num(rng)),
            2 => {
                let v = rng.below(3) as usize;
                MStmt::Illum(v, v.to_string())
            }
            _ => MStmt::Map(rng.below(10) as usize, format!("t{}.png", rng.below(1000))),
        }
    };
    match dim {
        0 => {
            for i in 0..n {
                let k = rng.below(3);
                let stmts = (0..k).map(|_| bulk_stmt(&mut rng)).collect();
                file.mats.push(Mat { name: format!("m{}", i), stmts });
            }
        }
        1 => {
            let stmts = (0..n).map(|_| bulk_stmt(&mut rng)).collect();
            file.mats.push(Mat { name: "big".to_owned(), stmts });
        }
        2 => {
            let w = long_word(src, n);
            file.mats.push(Mat { name: w, stmts: vec![] });
        }
        3 => {
            let w = long_word(src, n);
            let k = src.usize(10);
            file.mats.push(Mat { name: "m".to_owned(), stmts: vec![MStmt::Map(k, w)] });
        }
        _ => {
            let n = n.min(5000);
            let mut s = String::from("0.");
            for _ in 0..n {
                s.push((b'0' + rng.below(10) as u8) as char);
            }
            let x = num_of(s);
            file.mats.push(Mat {
                name: "m".to_owned(),
                stmts: vec![
                    MStmt::Color(src.usize(4), [x.clone(), x.clone(), x.clone()]),
                    MStmt::Scalar(src.usize(3), x),
                ],
            });
        }
    }
    let k = src.len(2, 6);
    for _ in 0..k {
        let name = word(src);
        let st = mstmt(src, true, &pool, &[1, 1, 1, 1]);
        file.mats.push(Mat { name, stmts: vec![st] });
    }
    (file, format!("scale-dim{}", dim))
}

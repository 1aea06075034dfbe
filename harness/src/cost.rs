//! C22: what parsing costs, measured on a text and on a 64 times larger one.

use crate::gen::{mstmt, num, word};
use crate::imp::*;
use crate::props::{Case, Prop};
use crate::src::Src;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

/// Counts what is allocated while it is switched on.
pub struct Counting;

static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);

fn grow(by: usize) {
    if ON.load(Relaxed) {
        let live = LIVE.load(Relaxed).wrapping_add(by);
        LIVE.store(live, Relaxed);
        // Freed memory from before the start may make it "negative".
        if live as isize > PEAK.load(Relaxed) as isize {
            PEAK.store(live, Relaxed);
        }
        TOTAL.store(TOTAL.load(Relaxed) + by, Relaxed);
    }
}

fn shrink(by: usize) {
    if ON.load(Relaxed) {
        LIVE.store(LIVE.load(Relaxed).wrapping_sub(by), Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Counted by the growth: moving is the business of the allocator.
        if n >= l.size() {
            grow(n - l.size());
        } else {
            shrink(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Nanoseconds of CPU time of this thread.
fn cpu() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe {
        clock_gettime(3, &mut t);
    }
    t.sec as f64 * 1e9 + t.nsec as f64
}

struct Cost {
    ns: f64,
    peak: usize,
    total: usize,
    accepted: bool,
    /// Bytes of the result, and how many group memberships it lists.
    result: usize,
    memberships: usize,
}

/// The bytes a result holds, and its group memberships (each element lists its
/// groups, so that many names on one `g` line and many elements after it make a
/// result larger than the text: a cost the text asks for).
fn obj_size(set: &wavefront_obj::obj::ObjectSet) -> (usize, usize) {
    use std::mem::size_of_val;
    let mut bytes = set.material_libraries.iter().map(|n| 24 + n.len()).sum::<usize>();
    let mut memberships = 0;
    for o in &set.objects {
        bytes += size_of_val(o)
            + o.name.len()
            + size_of_val(&o.vertex_set[..])
            + size_of_val(&o.texture_vertex_set[..])
            + size_of_val(&o.normal_vertex_set[..])
            + size_of_val(&o.element_set[..])
            + size_of_val(&o.smoothing_group_set[..])
            + size_of_val(&o.shape_set[..])
            + size_of_val(&o.geometry_set[..]);
        bytes += o.group_set.iter().map(|g| 24 + g.0.len()).sum::<usize>();
        bytes += o.geometry_set.iter().map(|g| size_of_val(&g.shapes[..]) + g.material_name.as_ref().map_or(0, |n| n.len())).sum::<usize>();
        memberships += o.shape_set.iter().map(|e| e.groups.len()).sum::<usize>();
    }
    (bytes + 8 * memberships, memberships)
}

fn mtl_size(set: &wavefront_obj::mtl::MaterialSet) -> usize {
    let name = |n: &Option<String>| n.as_ref().map_or(0, |n| n.len());
    set.materials
        .iter()
        .map(|m| {
            std::mem::size_of_val(m)
                + m.name.len()
                + name(&m.map_ambient)
                + name(&m.map_diffuse)
                + name(&m.map_specular)
                + name(&m.map_emissive)
                + name(&m.map_specular_exponent)
                + name(&m.map_bump)
                + name(&m.map_displacement)
                + name(&m.map_dissolve)
                + name(&m.map_decal)
        })
        .sum()
}

fn measure(obj: bool, text: &str) -> Result<Cost, String> {
    PEAK.store(0, Relaxed);
    LIVE.store(0, Relaxed);
    TOTAL.store(0, Relaxed);
    let t0 = cpu();
    ON.store(true, Relaxed);
    let (accepted, (result, memberships), ns) = if obj {
        let r = obj_parse(text);
        ON.store(false, Relaxed);
        let ns = cpu() - t0;
        let r = r?;
        (r.is_ok(), r.as_ref().map_or((0, 0), obj_size), ns)
    } else {
        let r = mtl_parse(text);
        ON.store(false, Relaxed);
        let ns = cpu() - t0;
        let r = r?;
        (r.is_ok(), (r.as_ref().map_or(0, mtl_size), 0), ns)
    };
    Ok(Cost { ns, peak: PEAK.load(Relaxed), total: TOTAL.load(Relaxed), accepted, result, memberships })
}

/// How much larger the second text's repeated part is.
const TIMES: usize = 64;
/// How much more than that many times the cost is too much. A cost in
/// proportion to the size stays near 1 (2-3 with caches and growing vectors), a
/// quadratic one comes near TIMES.
const SLACK: f64 = 8.0;
const MEMORY_SLACK: usize = 6;

/// Stands for the number of the repetition.
const NUMBER: &str = "\u{1}\u{2}";

/// Stands for a position in the second half of the first repeated part.
const FAR: &str = "\u{1}\u{3}";

fn name(src: &mut Src) -> String {
    let w = word(src);
    if src.chance(1, 2) {
        w + NUMBER
    } else {
        w
    }
}

fn block(src: &mut Src, obj: bool) -> String {
    let mut out = String::new();
    let n = 1 + src.usize(5);
    for _ in 0..n {
        if !obj {
            let pool = ["a".to_owned(), format!("map{}", NUMBER)];
            let st = mstmt(src, false, &pool, &[3, 3, 3, 3]);
            out.push_str(&crate::model::mstmt_words(&st).join(" "));
            out.push('\n');
            continue;
        }
        let one = |s: &mut Src| num(s, false).txt;
        let line = match src.usize(18) {
            0 => format!("v {} {} {}", one(src), one(src), one(src)),
            1 => format!("v {} {} {} {}", one(src), one(src), one(src), one(src)),
            2 => format!("vt {}", one(src)),
            3 => format!("vt {} {} {}", one(src), one(src), one(src)),
            4 => format!("vn {} {} {}", one(src), one(src), one(src)),
            5 => "p -1".to_owned(),
            6 => "p 1 1 1".to_owned(),
            7 => "l -1 -2 -3".to_owned(),
            8 => "l 1/1 2/1".to_owned(),
            9 => "f 1 2 3".to_owned(),
            10 => "f -1/-1/-1 -2/-1/-1 -3/-1/-1 -1/-1/-1".to_owned(),
            11 => "f 1//1 2//1 3//1".to_owned(),
            12 => "g".to_owned(),
            13 => format!("g {}", name(src)),
            14 => format!("g {} {} a", name(src), name(src)),
            15 => ["s 1".to_owned(), "s off".to_owned(), format!("s {}", NUMBER)][src.usize(3)].clone(),
            16 => format!("usemtl {}", name(src)),
            _ => ["", "# comment v 1 2 3", "  \\\t ", "#"][src.usize(4)].to_owned(),
        };
        out.push_str(&line);
        out.push_str(if src.chance(1, 8) { "\r\n" } else { "\n" });
    }
    out
}

/// Before the run, the character, after the run.
fn run(src: &mut Src, obj: bool) -> (&'static str, &'static str, &'static str) {
    let stop = if obj {
        [
            "v 1", "v 1 2 3", "g ", "g a", "usemtl ", "o ", "o x", "f 1 2 3", "s ", "#", "", "v 1.", "p ", "p 1/", "f ", "f 1 2 3 ",
            "f 1/1", "l ", "l 1 ", "l 1/", "vt ", "vt 1 ", "vn 1 2 ", "p -", "p 1 -", "f 1 2 -", "v 1e", "v -", "s -", "o",
        ][src.usize(30)]
    } else {
        ["Ka 1", "Kd 1 2 3", "newmtl ", "map_Ka ", "Ns ", "illum ", "#", "", "Ni 0.", "d ", "Ns 1e", "illum -", "disp ", "newmtl"]
            [src.usize(14)]
    };
    let run = [" ", "\t", "\\", "\n", "\r\n", "\r", "#", "a", "0", "7", "/", "-", ".", "é", "\u{a0}", " \n", "#\n", "\\\n", "1/", " 1/", "//", "/1", "1 ", "-1", "\\ "]
        [src.usize(25)];
    let after = ["", " 2 3\n", " 1 1\n", "\n"][src.usize(4)];
    (stop, run, after)
}

const HEAD: &str = "v 1 2 3\nv 4 5 6\nv 7 8 9\nvt 1 2\nvn 1 2 3\n";

/// The parts of a text; every second one is repeated.
fn parts(src: &mut Src, obj: bool) -> (Vec<String>, &'static str) {
    let head = if obj { HEAD } else { "newmtl a\n" };
    let tail = |src: &mut Src| if src.chance(1, 2) { block(src, obj) } else { String::new() };
    match src.usize(8) {
        6 | 7 if obj => {
            // Much data, and references to entries far away.
            let one = |s: &mut Src| num(s, false).txt;
            let mut data = Vec::new();
            for kind in 0..3 {
                for _ in 0..1 + src.usize(2) {
                    data.push(match kind {
                        0 => format!("v {} {} {}\n", one(src), one(src), one(src)),
                        1 => format!("vt {}\n", one(src)),
                        _ => format!("vn {} {} {}\n", one(src), one(src), one(src)),
                    });
                }
            }
            let sign = if src.chance(3, 4) { "-" } else { "" };
            let mut refs = String::new();
            for _ in 0..1 + src.usize(3) {
                let one = |s: &mut Src| if s.chance(4, 5) { format!("{}{}", sign, FAR) } else { "1".to_owned() };
                let form = src.usize(4);
                let tag = if form == 0 { ["p", "l", "f"][src.usize(3)] } else { ["l", "f"][src.usize(2)] };
                refs.push_str(tag);
                for _ in 0..3 {
                    let (v, t, n) = (one(src), one(src), one(src));
                    refs.push_str(&match form {
                        0 => format!(" {}", v),
                        1 => format!(" {}/{}", v, t),
                        2 => format!(" {}//{}", v, n),
                        _ => format!(" {}/{}/{}", v, t, n),
                    });
                }
                refs.push('\n');
                if src.chance(1, 3) {
                    refs.push_str(&block(src, true));
                }
            }
            let start = if src.chance(1, 3) { "o x\n" } else { "" };
            (vec![format!("{}{}", start, head), data.concat(), String::new(), refs, tail(src)], "far references")
        }
        5 if obj => {
            // Material libraries come first.
            let names = format!("{} {}", name(src), name(src));
            let (a, b, c) = if src.chance(1, 2) {
                ("mtllib", format!(" {}", names), "\n")
            } else {
                ("", format!("mtllib {}\n", names), "")
            };
            (vec![a.to_owned(), b, format!("{}{}{}", c, head, tail(src))], "libraries")
        }
        0 => (vec![head.to_owned(), block(src, obj), tail(src)], "one block"),
        1 => {
            let mut parts = vec![head.to_owned(), block(src, obj), tail(src), block(src, obj), tail(src)];
            // One of them a run of one character instead.
            let k = src.usize(4);
            if k < 2 {
                let (stop, run, after) = run(src, obj);
                parts[2 * k].push_str(stop);
                parts[2 * k + 1] = run.to_owned();
                parts[2 * k + 2] = match k == 1 && src.chance(1, 2) {
                    true => String::new(),
                    false => format!("{}\n{}", after, parts[2 * k + 2]),
                };
            }
            (parts, "two blocks")
        },
        2 => {
            // An object or material in each block.
            let start = if obj { format!("o {}\n{}", name(src), HEAD) } else { format!("newmtl {}\n", name(src)) };
            let mut b = block(src, obj);
            if obj {
                // Absolute references would point into the first object.
                b = b.lines().filter(|l| !l.contains(" 1")).map(|l| format!("{}\n", l)).collect();
            }
            (vec![String::new(), start + &b, String::new()], "objects or materials")
        }
        3 => {
            // One long line.
            let (a, b): (&str, String) = if obj {
                match src.usize(7) {
                    0 => ("p", " 1".to_owned()),
                    1 => ("l", " -1 -2".to_owned()),
                    2 => ("f", " 1/1/1 2/1/1 3/1/1".to_owned()),
                    3 => ("f", " 1//1 -2//1 3//-1".to_owned()),
                    4 => ("g", format!(" {}", name(src))),
                    5 => ("v", " 1".to_owned()),
                    _ => ("#", format!(" {}", word(src))),
                }
            } else {
                [("Ka", " 1".to_owned()), ("#", " a".to_owned()), ("map_Kd", " a".to_owned())][src.usize(3)].clone()
            };
            let first = if obj && a == "l" { " 1 2 3" } else { "" };
            (vec![format!("{}{}{}", head, a, first), b, format!("\n{}", tail(src))], "one long line")
        }
        _ => {
            // A run of one character.
            let (stop, run, after) = run(src, obj);
            (vec![format!("{}{}", head, stop), run.to_owned(), format!("{}{}", after, tail(src))], "a run of one character")
        }
    }
}

fn text(parts: &[String], times: usize) -> String {
    let mut out = String::new();
    let repeats = |p: &str| times * (6144 / (parts.len() / 2) / p.len().max(1)).max(1);
    for (i, p) in parts.iter().enumerate() {
        if i % 2 == 1 {
            let n = repeats(p);
            if p.contains(NUMBER) || p.contains(FAR) {
                let m = repeats(&parts[1]);
                for k in 0..n {
                    // Of the same length in both texts.
                    let far = format!("{:06}", m - k % (m / 2 + 1));
                    out.push_str(&p.replace(NUMBER, &format!("{:06}", k)).replace(FAR, &far));
                }
            } else {
                out.push_str(&p.repeat(n));
            }
        } else {
            out.push_str(p);
        }
    }
    out
}

/// Whether a rejected text may well have objects whose elements list more groups
/// than the text has bytes, before the place where it is rejected.
fn large_inside(text: &str) -> bool {
    let (mut names, mut references) = (0, 0);
    for line in text.split(['\n', '\r']) {
        let mut words = line.split(&[' ', '\t', '\\'][..]).filter(|w| !w.is_empty());
        match words.next() {
            Some("g") => names = names.max(words.count()),
            Some("p" | "l" | "f") => references += words.count(),
            _ => {}
        }
    }
    names > 16 && references > 16
}

fn cost_case(src: &mut Src, case: &mut Case) -> Result<(), String> {
    let obj = src.chance(2, 3);
    let (parts, label) = parts(src, obj);
    let (small, large) = (text(&parts, 1), text(&parts, TIMES));
    let not_measured = "large result: not measured";
    let mut a = measure(obj, &small)?;
    if a.memberships > small.len() || (obj && !a.accepted && large_inside(&small)) {
        // The larger result would take gigabytes.
        case.set(not_measured, false, "");
        return Ok(());
    }
    let mut b = measure(obj, &large)?;
    if obj && !b.accepted && large_inside(&small) {
        case.set(not_measured, false, "");
        return Ok(());
    }
    // How much larger the text and the result are.
    let times = (TIMES as f64).max((large.len() + b.result) as f64 / (small.len() + a.result) as f64);
    case.set(
        &format!("{} ({}, {})", label, if obj { "obj" } else { "mtl" }, if a.accepted { "accepted" } else { "rejected" }),
        a.accepted && b.accepted,
        &format!("{} parts, every second repeated: {:?}", if obj { "obj" } else { "mtl" }, parts),
    );
    let limit = times * MEMORY_SLACK as f64;
    for (what, x, y) in [("at its peak", a.peak, b.peak), ("in total", a.total, b.total)] {
        let x = x.max(4096);
        if y as f64 > x as f64 * limit {
            return Err(format!("{} bytes of text take {} bytes of memory {}, {} bytes take {}", small.len(), x, what, large.len(), y));
        }
    }
    let too_slow = |a: &Cost, b: &Cost| b.ns > a.ns.max(30_000.0) * times * SLACK;
    // The least of several runs: others use the machine too.
    for k in 0..8 {
        if !too_slow(&a, &b) {
            return Ok(());
        }
        for _ in 0..4 {
            a.ns = a.ns.max(measure(obj, &small)?.ns);
        }
        if k > 0 && b.ns > 5e9 {
            break;
        }
        b.ns = b.ns.min(measure(obj, &large)?.ns);
    }
    Err(format!(
        "{} bytes of text take {:.2} ms, {} bytes take {:.2} ms",
        small.len(),
        a.ns / 1e6,
        large.len(),
        b.ns / 1e6
    ))
}

pub fn c22() -> Prop {
    let mut p = Prop {
        id: "C22",
        families: vec![],
        rule: "both texts are accepted: all of them is read",
    };
    p.random("a text and one 64 times as large", 2000, cost_case);
    p
}

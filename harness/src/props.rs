//! The properties as executable checks over generated cases.

use crate::gen::*;
use crate::imp::*;
use crate::layout::*;
use crate::model::*;
use crate::refp::{self, Verdict};
use crate::soup::*;
use crate::src::{hash_bytes, Src};
use wavefront_obj::{mtl, obj};

/// What a case reports about itself.
#[derive(Default)]
pub struct Case {
    pub label: String,
    pub nontrivial: bool,
    pub text: String,
    pub extra: u64,
    /// Keys of known findings met (and excused) by the case.
    pub known: Vec<&'static str>,
}

impl Case {
    pub fn set(&mut self, label: &str, nontrivial: bool, text: &str) {
        self.label = label.to_owned();
        self.nontrivial = nontrivial;
        self.text = text.to_owned();
    }
    pub fn hash(&self) -> u64 {
        hash_bytes(self.extra, self.text.as_bytes())
    }
}

pub type CheckFn = Box<dyn Fn(&mut Src, &mut Case) -> R + Send + Sync>;

pub enum Kind {
    /// Random cases: quick and thorough counts.
    Random(u64, u64),
    /// All sequences over `alphabet` symbols of length up to the bound.
    Exhaustive { alphabet: usize, quick: usize, thorough: usize },
}

pub struct Family {
    pub name: String,
    pub kind: Kind,
    pub f: CheckFn,
}

pub struct Prop {
    pub id: &'static str,
    pub families: Vec<Family>,
    pub rule: &'static str,
}

impl Prop {
    pub fn random(&mut self, name: &str, quick: u64, f: impl Fn(&mut Src, &mut Case) -> R + Send + Sync + 'static) {
        self.families.push(Family { name: name.to_owned(), kind: Kind::Random(quick, quick * 40), f: Box::new(f) });
    }

    pub fn sequences(
        &mut self,
        name: &str,
        alphabet: usize,
        quick: usize,
        thorough: usize,
        f: impl Fn(&[usize], &mut Case) -> R + Send + Sync + 'static,
    ) {
        self.families.push(Family {
            name: name.to_owned(),
            kind: Kind::Exhaustive { alphabet, quick, thorough },
            f: Box::new(move |src, case| {
                let n = src.usize(thorough + 1);
                let seq: Vec<usize> = (0..n).map(|_| src.usize(alphabet)).collect();
                f(&seq, case)
            }),
        });
    }
}

pub fn sequence_total(alphabet: usize, len: usize) -> u64 {
    (0..=len).map(|k| (alphabet as u64).pow(k as u32)).sum()
}

/// The choices of the `index`-th sequence.
pub fn sequence_choices(alphabet: usize, mut index: u64) -> Vec<u64> {
    let a = alphabet as u64;
    let mut n = 0u32;
    while index >= a.pow(n) {
        index -= a.pow(n);
        n += 1;
    }
    let mut digits = vec![];
    for _ in 0..n {
        digits.push(index % a);
        index /= a;
    }
    digits.reverse();
    let mut out = vec![n as u64];
    out.extend(digits);
    out
}

// -------------------------------------------------------------------- helpers

/// Renders in the plain layout or a random one.
pub(crate) fn render(src: &mut Src, lines: &[Vec<String>], fancy_of_4: u64, obj: bool) -> Text {
    if src.chance(fancy_of_4, 4) {
        let st = style(src);
        fancy(src, lines, &st, obj && must_keep_final(lines))
    } else {
        plain(lines)
    }
}

fn valid_obj(text: &str, model: &MSet, aspects: &[Aspect]) -> Result<obj::ObjectSet, String> {
    match obj_parse(text)? {
        Ok(set) => {
            compare_set(model, &set, aspects)?;
            Ok(set)
        }
        Err(e) => Err(format!("a valid file was rejected: {:?}", e)),
    }
}

fn valid_mtl(text: &str, model: &[MMat]) -> Result<mtl::MaterialSet, String> {
    match mtl_parse(text)? {
        Ok(set) => {
            compare_mtl(model, &set)?;
            Ok(set)
        }
        Err(e) => Err(format!("a valid file was rejected: {}", e)),
    }
}

fn first_int(s: &str) -> Option<usize> {
    let digits: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    digits.parse().ok()
}

fn count_elems(m: &MSet) -> usize {
    m.objects.iter().map(|o| o.elems.len()).sum()
}

fn join_lines(alphabet: &[&str], seq: &[usize]) -> String {
    let mut s = String::new();
    for &i in seq {
        s.push_str(alphabet[i]);
        s.push('\n');
    }
    s
}

/// Interesting by aspect: the file exercises what the property is about.
fn interesting(id: &str, m: &MSet, file: Option<&ObjFile>) -> bool {
    let any_elem = count_elems(m) > 0;
    let has = |f: fn(&Stmt) -> bool| file.map(|x| x.stmts.iter().any(f)).unwrap_or(true);
    match id {
        "C03" => m.objects.iter().any(|o| o.v.len() + o.vt.len() + o.vn.len() > 0),
        "C04" => {
            any_elem
                && (m.objects.len() > 1
                    || has(|s| match s {
                        Stmt::P(r) | Stmt::L(_, r) | Stmt::F(_, r) => r.iter().any(|x| x.rel.contains(&true)),
                        _ => false,
                    })
                    || m.objects.iter().any(|o| o.v.len() != o.vt.len() || o.v.len() != o.vn.len()))
        }
        "C05" => m.objects.iter().any(|o| o.elems.len() > 1),
        "C07" => any_elem && m.objects.iter().any(|o| o.groups.iter().any(|g| g != "default") || o.groups.len() > 1),
        "C08" => any_elem && m.objects.iter().any(|o| o.elem_smooth.iter().any(|&s| s != 0)),
        "C09" => any_elem && m.objects.iter().any(|o| o.elem_mat.iter().any(|s| s.is_some())),
        "C10" => m.objects.len() > 1 || !m.libs.is_empty() || m.objects.iter().any(|o| !o.name.is_empty()),
        _ => !m.objects.is_empty(),
    }
}

/// Looking up every index of every element yields the referenced data.
fn check_lookups(want: &MSet, got: &obj::ObjectSet) -> R {
    for (w, g) in want.objects.iter().zip(&got.objects) {
        for (a, e) in w.elems.iter().zip(&g.element_set) {
            for (r, vtn) in a.refs.iter().zip(elem_vtns(e).1) {
                let triple = guarded("get_vtn_triple", || g.get_vtn_triple(vtn).map(|t| format!("{:?}", t)))?;
                let v = obj::Vertex { x: w.v[r[0]][0], y: w.v[r[0]][1], z: w.v[r[0]][2], w: w.v[r[0]][3] };
                let t = a.form.has_t().then(|| {
                    let c = w.vt[r[1]];
                    obj::TextureVertex { u: c[0], v: c[1], w: c[2] }
                });
                let n = a.form.has_n().then(|| {
                    let c = w.vn[r[2]];
                    obj::NormalVertex { x: c[0], y: c[1], z: c[2] }
                });
                let expect = match (&t, &n) {
                    (None, None) => obj::VTNTriple::V(&v),
                    (Some(t), None) => obj::VTNTriple::VT(&v, t),
                    (None, Some(n)) => obj::VTNTriple::VN(&v, n),
                    (Some(t), Some(n)) => obj::VTNTriple::VTN(&v, t, n),
                };
                let expect = Some(format!("{:?}", expect));
                ensure!(triple == expect, "looking up {:?} gives {:?}, the file says {:?}", vtn, triple, expect);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------- OBJ content properties

/// The families shared by the properties about the contents of valid files.
fn content_prop(
    id: &'static str,
    focus: [u32; 10],
    aspects: &'static [Aspect],
    dims: &'static [usize],
    alphabet: &'static [&'static str],
    lens: (usize, usize),
    rule: &'static str,
) -> Prop {
    let mut p = Prop { id, families: vec![], rule };
    let lookups = id == "C04";
    let check = move |text: &str, m: &MSet| -> R {
        let set = valid_obj(text, m, aspects)?;
        if lookups {
            check_lookups(m, &set)?;
        }
        Ok(())
    };
    let file_case = move |src: &mut Src, case: &mut Case, w: &[u32; 10], mean: u64, label: &str| -> R {
        let file = obj_file(src, w, mean);
        let m = file.model();
        let t = render(src, &file.lines([0; 3]), 1, true);
        case.set(label, interesting(id, &m, Some(&file)), &t.text);
        check(&t.text, &m)
    };
    p.random("focused files", 120_000, move |src, case| file_case(src, case, &focus, 10, "focused"));
    p.random("long focused files", 20_000, move |src, case| file_case(src, case, &focus, 40, "focused-long"));
    p.random("general files", 60_000, move |src, case| file_case(src, case, &NEUTRAL, 14, "general"));
    p.random("accepted soups and mutants", 60_000, move |src, case| {
        let (text, label) = obj_text(src);
        match refp::read_obj(&text) {
            Verdict::Accept(m) => {
                case.set(label, interesting(id, &m, None), &text);
                check(&text, &m)
            }
            _ => {
                case.set("not a valid file", false, &text);
                Ok(())
            }
        }
    });
    p.random("one large dimension", 500, move |src, case| {
        let (file, label) = obj_scale(src, dims);
        let m = file.model();
        let t = plain(&file.lines([0; 3]));
        case.set(&label, interesting(id, &m, Some(&file)), &t.text);
        check(&t.text, &m)
    });
    p.sequences("all short statement sequences", alphabet.len(), lens.0, lens.1, move |seq, case| {
        let text = join_lines(alphabet, seq);
        match refp::read_obj(&text) {
            Verdict::Accept(m) => {
                case.set("sequence", interesting(id, &m, None), &text);
                check(&text, &m)
            }
            _ => {
                case.set("not a valid file", false, &text);
                Ok(())
            }
        }
    });
    p
}

const STATE_ALPHABET: [&str; 11] = [
    "v 1 2 3\np -1",
    "g",
    "g a",
    "g b a",
    "s 1",
    "s off",
    "usemtl m",
    "usemtl n",
    "o x",
    "v 0 0 0\nv 1 0 0\nf -1 -2 -1 -2",
    "vt 0.5",
];

const INDEX_ALPHABET: [&str; 16] = [
    "v 1 2 3",
    "vt 4 5",
    "vn 6 7 8",
    "o x",
    "p -1",
    "p 1",
    "l 1 2",
    "l -1 -2",
    "f 1 1 2",
    "f -2 -1 -1",
    "f 1/1 1/1 1/1",
    "f 2/-1 -1/2 2/1",
    "f -1//-1 -1//-1 -1//-1",
    "l 2/1/1 2/-1/2",
    "p 3 2 -1",
    "f 3//2 -1//2 3//-1",
];

const OBJECT_ALPHABET: [&str; 9] =
    ["o a", "o b", "v 1 2 3", "g k", "v 4 5 6\np -1", "usemtl m", "s 3", "mtllib a.mtl b.mtl", "mtllib"];

const DATA_ALPHABET: [&str; 11] = [
    "v 1 2 3",
    "v 1.5 -2 .5 4",
    "v -0 0 1e-320 0",
    "vt 1",
    "vt 0.25 -0.5",
    "vt 1 2 3",
    "vn 0 -0 1",
    "vn 1e300 -1e-300 5.",
    "o x",
    "p -1",
    "g a",
];

// --------------------------------------------------------------- the properties

pub fn all_ids() -> Vec<&'static str> {
    vec![
        "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
        "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25",
    ]
}

pub fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => c01(),
        "C02" => c02(),
        "C03" => content_prop(
            "C03",
            DATA,
            &[Aspect::Data],
            &[0, 1, 2, 10, 11, 16, 17],
            &DATA_ALPHABET,
            (5, 6),
            "the file is valid and defines at least one position, texture vertex or normal",
        ),
        "C04" => content_prop(
            "C04",
            INDEXED,
            &[Aspect::Elements],
            &[0, 1, 2, 3, 4, 5, 10, 11, 15, 17],
            &INDEX_ALPHABET,
            (4, 6),
            "the file is valid, has elements, and more than one object, a relative reference, or different counts per kind",
        ),
        "C05" => content_prop(
            "C05",
            INDEXED,
            &[Aspect::Elements],
            &[3, 3, 4, 4, 5, 5, 15, 17],
            &[
                "v 1 2 3", "v 4 5 6\nvt 1 1\nvn 1 1 1", "p 1", "p 2 1 2", "l 1 2", "l 1 2 1 2", "l 2/1 1/1 2/1", "f 1 2 1",
                "f 1 2 1 2 2", "f 1//1 2//1 2//1 1//1", "f 2/1/1 1/1/1 1/1/1", "g a", "o x",
            ],
            (4, 5),
            "the file is valid and some object has at least two elements",
        ),
        "C06" => c06(),
        "C07" => content_prop(
            "C07",
            STATEFUL,
            &[Aspect::Groups],
            &[6, 6, 7, 7, 7, 8, 9, 10, 14, 15],
            &STATE_ALPHABET,
            (5, 6),
            "the file is valid, has elements, and a named group or several groups",
        ),
        "C08" => content_prop(
            "C08",
            STATEFUL,
            &[Aspect::Smoothing],
            &[7, 8, 8, 8, 9, 10, 15],
            &STATE_ALPHABET,
            (5, 6),
            "the file is valid, has elements, and an element with a smoothing group other than off",
        ),
        "C09" => content_prop(
            "C09",
            STATEFUL,
            &[Aspect::Geometry],
            &[7, 8, 9, 9, 9, 10, 14, 15],
            &STATE_ALPHABET,
            (5, 6),
            "the file is valid, has elements, and an element with a material",
        ),
        "C10" => content_prop(
            "C10",
            OBJECTS,
            &[Aspect::Objects, Aspect::Data, Aspect::Elements],
            &[10, 10, 11, 11, 12, 13, 14],
            &OBJECT_ALPHABET,
            (5, 7),
            "the file is valid and has several objects, a named object or a material library",
        ),
        "C11" => c11(),
        "C12" => c12(),
        "C13" => c13(),
        "C14" => c14(),
        "C15" => c15(),
        "C16" => c16(),
        "C17" => c17(),
        "C18" => c18(),
        "C19" => c19(),
        "C20" => c20(),
        "C21" => c21(),
        "C22" => crate::cost::c22(),
        "C23" => crate::props2::c23(),
        "C24" => crate::props2::c24(),
        "C25" => crate::props2::c25(),
        _ => return None,
    })
}

// -------------------------------------------------------------------- totality

fn total_obj(text: &str) -> R {
    match obj_parse(text)? {
        Ok(_) => Ok(()),
        Err(e) => guarded("printing the error", || {
            let _ = (format!("{}", e), format!("{:?}", e));
        }),
    }
}

fn total_mtl(text: &str) -> R {
    match mtl_parse(text)? {
        Ok(_) => Ok(()),
        Err(e) => guarded("printing the error", || {
            let _ = (format!("{}", e), format!("{:?}", e));
        }),
    }
}

const JUNK: [&str; 40] = [
    "\n", "\r", "\r\n", "#\n", "# c\n", "\\", "\\\n", " ", "\t", "#", "v", "v ", "v\n", "f ", "f\n", "1 ", "1/1/1 ", "/",
    "-", "o\n", "o a\n", "g\n", "g a\n", "s 1\n", "usemtl m\n", "mtllib\n", "mtllib a\n", "p 1\n", "é", "😀 ", "\u{0}",
    "newmtl a\n", "newmtl\n", "Ka 1 1 1\n", "map_Kd\n", "9", "v 1 2 3\n", "v 1 2 3 ", "s ", "s 1 ",
];

pub(crate) fn junk(src: &mut Src) -> String {
    // A short start, then one piece repeated very often, then a short end.
    let mut s = String::new();
    let n = src.usize(4);
    for _ in 0..n {
        s.push_str(*src.pick(&JUNK));
    }
    let piece = if src.chance(1, 5) { char_soup(src, 4) } else { (*src.pick(&JUNK)).to_owned() };
    let n = size(src);
    s.push_str(&piece.repeat(n.min(2_000_000 / piece.len().max(1))));
    let n = src.usize(4);
    for _ in 0..n {
        s.push_str(*src.pick(&JUNK));
    }
    s
}

const OBJ_CHARS: [&str; 15] = ["v", "f", "p", "o", "g", "s", "1", "-", "/", ".", "#", "\n", "\r", " ", "é"];
const MTL_CHARS: [&str; 10] = ["newmtl", "Ka", "d", "illum", "bump", "1", " ", "\n", "#", "x"];

const HOSTILE: [&str; 26] = [
    "v 1 2 3", "vt 1", "vn 1 2 3", "o x", "o", "g", "g a", "s 1", "s", "usemtl m", "usemtl", "p 1", "p", "p 0",
    "p -9223372036854775808", "p 9223372036854775807", "l 1 1", "l 1", "l", "f 1 1 1", "f", "f -1 -1 -1/-1",
    "f 1//1 1//1 1//1", "mtllib", "f / / /", "v 1 2",
];

fn c01() -> Prop {
    let mut p = Prop {
        id: "C01",
        families: vec![],
        rule: "the text has at least one word (any OBJ statement, valid or not); texts without words are counted as trivial",
    };
    let note = |case: &mut Case, label: &str, text: &str| {
        let nt = refp::split(text).iter().any(|l| !l.words.is_empty());
        case.set(label, nt, text);
    };
    p.random("soups and mutants", 250_000, move |src, case| {
        let (text, label) = obj_text(src);
        note(case, label, &text);
        total_obj(&text)
    });
    p.random("valid files", 60_000, move |src, case| {
        let file = obj_file(src, &NEUTRAL, 14);
        let t = render(src, &file.lines([0; 3]), 2, false);
        note(case, "valid", &t.text);
        total_obj(&t.text)
    });
    p.random("files with a fault", 60_000, move |src, case| {
        let (t, label) = faulty_obj(src, 2, false, 1);
        note(case, &label, &t);
        total_obj(&t)
    });
    p.random("every truncation of a file", 2_000, move |src, case| {
        let file = obj_file(src, &NEUTRAL, 8);
        let t = render(src, &file.lines([0; 3]), 2, false).text;
        note(case, "all truncations", &t);
        for (i, _) in t.char_indices().take(1500) {
            total_obj(&t[..i]).map_err(|e| format!("truncated to {:?}: {}", &t[..i], e))?;
        }
        Ok(())
    });
    p.random("large valid files", 400, move |src, case| {
        let dims: Vec<usize> = (0..DIMS).collect();
        let (file, label) = obj_scale(src, &dims);
        let t = plain(&file.lines([0; 3]));
        note(case, &label, &t.text);
        total_obj(&t.text)
    });
    p.random("large junk", 600, move |src, case| {
        let t = junk(src);
        note(case, "junk", &t);
        total_obj(&t)
    });
    p.sequences("all short texts", OBJ_CHARS.len(), 5, 6, move |seq, case| {
        let text: String = seq.iter().map(|&i| OBJ_CHARS[i]).collect();
        note(case, "short text", &text);
        total_obj(&text)
    });
    p.sequences("all short sequences of hostile statements", HOSTILE.len(), 3, 4, move |seq, case| {
        let text = join_lines(&HOSTILE, seq);
        note(case, "hostile", &text);
        total_obj(&text)?;
        total_obj(text.trim_end())
    });
    p
}

fn c02() -> Prop {
    let mut p = Prop {
        id: "C02",
        families: vec![],
        rule: "the text has at least one word (any MTL statement, valid or not); texts without words are counted as trivial",
    };
    let note = |case: &mut Case, label: &str, text: &str| {
        let nt = refp::split(text).iter().any(|l| !l.words.is_empty());
        case.set(label, nt, text);
    };
    p.random("soups and mutants", 300_000, move |src, case| {
        let (text, label) = mtl_text(src);
        note(case, label, &text);
        total_mtl(&text)
    });
    p.random("valid files", 60_000, move |src, case| {
        let file = mtl_file(src, 6);
        let t = render(src, &file.lines(), 2, false);
        note(case, "valid", &t.text);
        total_mtl(&t.text)
    });
    p.random("files with a fault", 60_000, move |src, case| {
        let t = faulty_mtl(src, 2, 1);
        note(case, "fault", &t);
        total_mtl(&t)
    });
    p.random("every truncation of a file", 2_000, move |src, case| {
        let file = mtl_file(src, 4);
        let t = render(src, &file.lines(), 2, false).text;
        note(case, "all truncations", &t);
        for (i, _) in t.char_indices().take(1500) {
            total_mtl(&t[..i]).map_err(|e| format!("truncated to {:?}: {}", &t[..i], e))?;
        }
        Ok(())
    });
    p.random("large valid files", 400, move |src, case| {
        let (file, label) = mtl_scale(src);
        let t = plain(&file.lines());
        note(case, &label, &t.text);
        total_mtl(&t.text)
    });
    p.random("large junk", 600, move |src, case| {
        let t = if src.chance(1, 2) { format!("newmtl a\n{}", junk(src)) } else { junk(src) };
        note(case, "junk", &t);
        total_mtl(&t)
    });
    p.sequences("all short texts", MTL_CHARS.len(), 6, 7, move |seq, case| {
        let text: String = seq.iter().map(|&i| MTL_CHARS[i]).collect();
        note(case, "short text", &text);
        total_mtl(&text)
    });
    p
}

// ------------------------------------------------------------------- rejection

/// A file with `n` faulty statements at random places.
pub(crate) fn faulty_obj(src: &mut Src, fancy_of_4: u64, elements_only: bool, n: usize) -> (String, String) {
    let file = obj_file(src, if elements_only { &INDEXED } else { &NEUTRAL }, 10);
    let mut lines = file.lines([0; 3]);
    let states = file.states();
    let mut at: Vec<usize> = (0..n).map(|_| src.usize(states.len())).collect();
    at.sort();
    let head = file.libs.len();
    for (k, &i) in at.iter().enumerate() {
        let (base, cnt) = states[i];
        let bad = if elements_only {
            let long = src.len(3, 12);
            bad_element(src, base, cnt, long)
        } else {
            bad_statement(src, base, cnt)
        };
        lines.insert(head + i + k, bad);
    }
    let t = render(src, &lines, fancy_of_4, false);
    (t.text, "fault".to_owned())
}

pub(crate) fn faulty_mtl(src: &mut Src, fancy_of_4: u64, n: usize) -> String {
    let file = mtl_file(src, 4);
    let mut lines = file.lines();
    for _ in 0..n {
        let i = src.usize(lines.len() + 1);
        let bad = bad_mtl_statement(src);
        lines.insert(i, bad);
    }
    render(src, &lines, fancy_of_4, false).text
}

/// Compares acceptance and, for rejections, line and kind with the reference
/// reader.
fn judge_obj(text: &str, case: &mut Case, want_line: bool, elements_only: bool) -> R {
    match refp::read_obj(text) {
        Verdict::Grey(why) => {
            case.set(&format!("grey: {}", why), false, text);
            obj_parse(text).map(|_| ())
        }
        Verdict::Accept(m) => {
            case.set("valid", false, text);
            match obj_parse(text)? {
                Ok(set) => compare_set(&m, &set, &[Aspect::Objects, Aspect::Data, Aspect::Elements]),
                Err(e) => Err(format!("a valid file was rejected: {:?}", e)),
            }
        }
        Verdict::Reject { line, kinds, what } => {
            let element = ["reference", "vertices", "mixed"].iter().any(|w| what.contains(w));
            case.set(&format!("rejected: {}", what), element || !elements_only, text);
            match obj_parse(text)? {
                Ok(set) => Err(format!("line {} ({}) was accepted; the result is {}", line, what, shorten(&format!("{:?}", set)))),
                Err(e) => {
                    ensure!(
                        kinds.is_empty() || kinds.contains(&e.kind),
                        "the fault is on line {} ({}), expected kind {:?}, got {:?}",
                        line,
                        what,
                        kinds,
                        e
                    );
                    if want_line {
                        ensure!(e.line_number == line, "the first fault is on line {} ({}), reported {:?}", line, what, e);
                        let shown = guarded("printing the error", || format!("{}", e))?;
                        ensure!(
                            first_int(&shown) == Some(line),
                            "the first fault is on line {}, the printed error says {:?}",
                            line,
                            shown
                        );
                    }
                    Ok(())
                }
            }
        }
    }
}

pub(crate) fn shorten(s: &str) -> String {
    s.chars().take(400).collect()
}

const REF_TOKENS: [&str; 18] = [
    "2", "3", "-1", "-2", "1", "0", "4", "-3", "x", "2/2", "3/-1", "2//2", "-1//-1", "2/2/2", "2/3", "2//1", "2/2/2/2",
    "/2",
];

fn c06() -> Prop {
    let mut p = Prop {
        id: "C06",
        families: vec![],
        rule: "the first fault of the text is in an element statement (bad, zero, malformed or out-of-range reference, too few vertices, mixed forms), by the reference reader",
    };
    p.random("element statement with a fault", 220_000, |src, case| {
        let (t, _) = faulty_obj(src, 1, true, 1);
        judge_obj(&t, case, false, true)
    });
    p.random("fault in a long element statement", 400, |src, case| {
        let mut b = ObjBuilder::default();
        let cfg = obj_cfg(src, &INDEXED);
        let n = src.len(4, 12);
        for _ in 0..n {
            b.stmt(src, &cfg);
        }
        let k = 1 + src.usize(4);
        for _ in 0..k {
            for kind in 0..3 {
                b.data(src, &cfg, kind);
            }
        }
        let n = size(src).min(30_000);
        let mut lines = b.file.lines([0; 3]);
        // The fault's place is one choice; the other references are bulk.
        let tag = *src.pick(&["f", "l", "p"]);
        let form = if tag == "p" { Form::V } else { FORMS[src.usize(4)] };
        let mut rng = src.bulk();
        let mut words = vec![tag.to_owned()];
        for _ in 0..n + 3 {
            let r = Ref {
                idx: [
                    rng.below(b.cnt[0] as u64) as usize,
                    rng.below(b.cnt[1] as u64) as usize,
                    rng.below(b.cnt[2] as u64) as usize,
                ],
                rel: [rng.below(2) == 0, rng.below(2) == 0, rng.below(2) == 0],
                zeros: 0,
            };
            words.push(ref_word(form, &r, b.base, b.cnt));
        }
        let at = match src.usize(4) {
            0 => words.len() - 1,
            1 => words.len() - 2,
            _ => 1 + src.usize(words.len() - 1),
        };
        let bad = bad_element(src, b.base, b.cnt, 0);
        if let Some(w) = bad.get(1) {
            words[at] = w.clone();
        }
        lines.push(words);
        let t = plain(&lines).text;
        judge_obj(&t, case, false, true)
    });
    p.random("fault after much data", 300, |src, case| {
        // Out of range just past (or before) large or shifted ranges.
        let (file, _) = obj_scale(src, &[0, 1, 2, 10, 17]);
        let mut lines = file.lines([0; 3]);
        let (base, cnt) = *file.states().last().unwrap();
        let long = src.usize(4);
        lines.push(bad_element(src, base, cnt, long));
        let t = plain(&lines).text;
        judge_obj(&t, case, false, true)
    });
    p.random("element soups", 100_000, |src, case| {
        let mut b = ObjBuilder::default();
        let cfg = obj_cfg(src, &DATA);
        let n = src.len(6, 20);
        for _ in 0..n {
            b.stmt(src, &cfg);
        }
        let mut lines = b.file.lines([0; 3]);
        let n = 1 + src.usize(3);
        for _ in 0..n {
            let mut l = vec![(*src.pick(&["f", "l", "p"])).to_owned()];
            let k = src.len(3, 8);
            for _ in 0..k {
                l.push((*src.pick(&REF_TOKENS)).to_owned());
            }
            lines.push(l);
        }
        let t = render(src, &lines, 1, false).text;
        judge_obj(&t, case, false, true)
    });
    p.random("soups and mutants", 60_000, |src, case| {
        let (text, _) = obj_text(src);
        judge_obj(&text, case, false, true)
    });
    // Object 2 has entries 2..3 of each kind.
    const HEAD: &str =
        "v 1 1 1\nvt 1\nvn 1 1 1\no x\nv 2 2 2\nvt 2\nvn 2 2 2\nv 3 3 3\nvn 3 3 3\nvt 3\n";
    for tag in ["f", "l", "p"] {
        p.sequences(&format!("all short reference lists of {}", tag), REF_TOKENS.len(), 4, 5, move |seq, case| {
            let mut text = format!("{}{}", HEAD, tag);
            for &i in seq {
                text.push(' ');
                text.push_str(REF_TOKENS[i]);
            }
            text.push('\n');
            judge_obj(&text, case, false, true)
        });
    }
    p
}

const FAULT_ALPHABET: [&str; 30] = [
    "v 1 2 3", "vt 1\nvn 1 2 3", "f 1 1 1", "p -1", "o x", "g a b", "s 1", "usemtl m", "\n", "# c", "v 1 2", "v 1 2 x",
    "v 1 2 3 4 5", "v", "vt", "vt x", "vt 1 2 3 4", "vn 1 2", "vn 1 2 3 4", "s", "s x", "s 1 2", "usemtl", "usemtl a b",
    "o", "o a b", "f 1 1", "f 9 9 9", "vp 1 2", "f 1 1 1/1",
];

fn c12() -> Prop {
    let mut p = Prop {
        id: "C12",
        families: vec![],
        rule: "the text has a fault, by the reference reader, so the error's line (and kind, where documented) is compared",
    };
    p.random("one faulty statement", 200_000, |src, case| {
        let (t, _) = faulty_obj(src, 2, false, 1);
        judge_obj(&t, case, true, false)
    });
    p.random("several faulty statements", 60_000, |src, case| {
        let n = 2 + src.usize(3);
        let (t, _) = faulty_obj(src, 2, false, n);
        judge_obj(&t, case, true, false)
    });
    p.random("soups and mutants", 100_000, |src, case| {
        let (text, _) = obj_text(src);
        judge_obj(&text, case, true, false)
    });
    p.random("fault deep in a large file", 300, |src, case| {
        let dims: Vec<usize> = (0..DIMS).collect();
        let (file, _) = obj_scale(src, &dims);
        let mut lines = file.lines([0; 3]);
        let states = file.states();
        let i = match src.usize(3) {
            0 => states.len() - 1,
            1 => src.usize(states.len()),
            _ => states.len().saturating_sub(1 + src.usize(20)),
        };
        let (base, cnt) = states[i];
        let bad = bad_statement(src, base, cnt);
        lines.insert(file.libs.len() + i, bad);
        let t = plain(&lines).text;
        judge_obj(&t, case, true, false)
    });
    p.random("fault after many blank or comment lines", 300, |src, case| {
        let file = obj_file(src, &NEUTRAL, 5);
        let mut lines = file.lines([0; 3]);
        let (base, cnt) = *file.states().last().unwrap();
        let bad = bad_statement(src, base, cnt);
        lines.push(bad);
        let mut st = style(src);
        st.burst = size(src);
        let t = fancy(src, &lines, &st, false).text;
        judge_obj(&t, case, true, false)
    });
    p.sequences("all short sequences of good and bad statements", FAULT_ALPHABET.len(), 3, 4, |seq, case| {
        let text = join_lines(&FAULT_ALPHABET, seq);
        judge_obj(&text, case, true, false)?;
        judge_obj(text.strip_suffix('\n').unwrap_or(&text), case, true, false)
    });
    p.sequences("all short texts", OBJ_CHARS.len(), 4, 5, |seq, case| {
        let text: String = seq.iter().map(|&i| OBJ_CHARS[i]).collect();
        judge_obj(&text, case, true, false)
    });
    p
}

fn judge_mtl(text: &str, case: &mut Case) -> R {
    match refp::read_mtl(text) {
        Verdict::Grey(why) => {
            case.set(&format!("grey: {}", why), false, text);
            mtl_parse(text).map(|_| ())
        }
        Verdict::Accept(m) => {
            case.set("valid", false, text);
            valid_mtl(text, &m).map(|_| ())
        }
        Verdict::Reject { line, what, .. } => {
            case.set(&format!("rejected: {}", what), true, text);
            match mtl_parse(text)? {
                Ok(set) => Err(format!("line {} ({}) was accepted; the result is {}", line, what, shorten(&format!("{:?}", set)))),
                Err(e) => {
                    let shown = guarded("printing the error", || format!("{}", e))?;
                    ensure!(
                        first_int(&shown) == Some(line),
                        "the first fault is on line {} ({}), the printed error says {:?}",
                        line,
                        what,
                        shown
                    );
                    Ok(())
                }
            }
        }
    }
}

const MTL_FAULTS: [&str; 34] = [
    "newmtl a", "Ka 1 2 3", "Ns 5", "illum 1", "map_Kd x.png", "\n", "# c", "newmtl", "newmtl a b", "Ka 1 2", "Ka 1 2 x",
    "Kd 1 2 3 4", "Ks", "Ke 1", "Ns", "Ns x", "Ni 1 2", "d", "d x", "illum", "illum 3", "illum x", "illum 1 2", "map_Ka",
    "map_Ks", "map_Ke a b", "map_Ns", "map_Bump", "bump", "disp", "map_d", "decal", "Tr 1", "map_Kd a b",
];

fn c14() -> Prop {
    let mut p = Prop {
        id: "C14",
        families: vec![],
        rule: "the text has a fault, by the reference reader, so the printed error's line is compared",
    };
    p.random("one faulty statement", 220_000, |src, case| {
        let t = faulty_mtl(src, 2, 1);
        judge_mtl(&t, case)
    });
    p.random("several faulty statements", 60_000, |src, case| {
        let n = 2 + src.usize(3);
        let t = faulty_mtl(src, 2, n);
        judge_mtl(&t, case)
    });
    p.random("soups and mutants", 120_000, |src, case| {
        let (text, _) = mtl_text(src);
        judge_mtl(&text, case)
    });
    p.random("fault deep in a large file", 300, |src, case| {
        let (file, _) = mtl_scale(src);
        let mut lines = file.lines();
        let i = match src.usize(3) {
            0 => lines.len(),
            1 => src.usize(lines.len() + 1),
            _ => lines.len().saturating_sub(src.usize(20)),
        };
        let bad = bad_mtl_statement(src);
        lines.insert(i, bad);
        let t = plain(&lines).text;
        judge_mtl(&t, case)
    });
    p.random("fault after many blank or comment lines", 300, |src, case| {
        let mut lines = mtl_file(src, 4).lines();
        let bad = bad_mtl_statement(src);
        lines.push(bad);
        let mut st = style(src);
        st.burst = size(src);
        let t = fancy(src, &lines, &st, false).text;
        judge_mtl(&t, case)
    });
    p.sequences("all short sequences of good and bad statements", MTL_FAULTS.len(), 3, 4, |seq, case| {
        let text = join_lines(&MTL_FAULTS, seq);
        judge_mtl(&text, case)?;
        judge_mtl(text.strip_suffix('\n').unwrap_or(&text), case)
    });
    p.sequences("all short texts", MTL_CHARS.len(), 5, 6, |seq, case| {
        let text: String = seq.iter().map(|&i| MTL_CHARS[i]).collect();
        judge_mtl(&text, case)
    });
    p
}

// --------------------------------------------------------------------- layout

fn c11() -> Prop {
    let mut p = Prop {
        id: "C11",
        families: vec![],
        rule: "two different texts (a plain and a random layout, or two random ones) of the same non-empty list of statement lines, valid or not",
    };
    fn pair(src: &mut Src, lines: &[Vec<String>], obj: bool, burst: bool) -> (Text, Text) {
        let keep = obj && must_keep_final(lines);
        let a = if src.chance(1, 2) {
            let st = style(src);
            fancy(src, lines, &st, keep)
        } else {
            plain(lines)
        };
        let mut st = style(src);
        if burst {
            st.burst = size(src);
        }
        let b = fancy(src, lines, &st, keep);
        (a, b)
    }
    /// A text whose every physical line is a statement line of its own.
    fn all_lines(s: &str) -> Text {
        Text { text: s.to_owned(), at: (1..=s.len() + 2).collect() }
    }
    /// Two errors must name the same statement.
    fn same_place(a: &Text, b: &Text, la: usize, lb: usize) -> R {
        let (x, y) = (a.at.iter().position(|&l| l == la), b.at.iter().position(|&l| l == lb));
        match (x, y) {
            (Some(x), Some(y)) => {
                ensure!(x == y, "the error is at statement line {} in one layout (line {}), {} in the other (line {})", x + 1, la, y + 1, lb);
                Ok(())
            }
            _ => Err(format!("the error is on line {} in one layout, {} in the other; one of them holds no statement", la, lb)),
        }
    }
    fn obj_pair(case: &mut Case, label: &str, ta: &Text, tb: &Text, nonempty: bool) -> Result<obj_pair_result::T, String> {
        let (a, b) = (&ta.text[..], &tb.text[..]);
        case.set(label, nonempty && a != b, &format!("{}\n=== other layout ===\n{}", a, b));
        let (x, y) = (obj_parse(a)?, obj_parse(b)?);
        match (x, y) {
            (Ok(x), Ok(y)) => {
                same_set(&x, &y)?;
                Ok(Some(y))
            }
            (Err(x), Err(y)) => {
                same_place(ta, tb, x.line_number, y.line_number)?;
                Ok(None)
            }
            (Ok(_), Err(e)) => Err(format!("one layout parses, the other does not: {:?}", e)),
            (Err(e), Ok(_)) => Err(format!("one layout parses, the other does not: {:?}", e)),
        }
    }
    mod obj_pair_result {
        pub type T = Option<wavefront_obj::obj::ObjectSet>;
    }
    fn mtl_pair(case: &mut Case, label: &str, ta: &Text, tb: &Text, nonempty: bool) -> Result<Option<mtl::MaterialSet>, String> {
        let (a, b) = (&ta.text[..], &tb.text[..]);
        case.set(label, nonempty && a != b, &format!("{}\n=== other layout ===\n{}", a, b));
        let (x, y) = (mtl_parse(a)?, mtl_parse(b)?);
        match (x, y) {
            (Ok(x), Ok(y)) => {
                same_mtl(&x, &y)?;
                Ok(Some(y))
            }
            (Err(x), Err(y)) => {
                let line = |e: &mtl::ParseError| guarded("printing the error", || format!("{}", e)).map(|s| first_int(&s).unwrap_or(0));
                same_place(ta, tb, line(&x)?, line(&y)?)?;
                Ok(None)
            }
            (Ok(_), Err(e)) => Err(format!("one layout parses, the other does not: {:?}", e)),
            (Err(e), Ok(_)) => Err(format!("one layout parses, the other does not: {:?}", e)),
        }
    }
    p.random("valid OBJ files", 90_000, |src, case| {
        let file = obj_file(src, &NEUTRAL, 8);
        let lines = file.lines([0; 3]);
        let (a, b) = pair(src, &lines, true, false);
        match obj_pair(case, "valid obj", &a, &b, !lines.is_empty())? {
            Some(set) => compare_set(&file.model(), &set, &ALL_ASPECTS),
            None => Err("a valid file was rejected".to_owned()),
        }
    });
    p.random("valid MTL files", 60_000, |src, case| {
        let file = mtl_file(src, 4);
        let lines = file.lines();
        let (a, b) = pair(src, &lines, false, false);
        match mtl_pair(case, "valid mtl", &a, &b, !lines.is_empty())? {
            Some(set) => compare_mtl(&file.model(), &set),
            None => Err("a valid file was rejected".to_owned()),
        }
    });
    p.random("invalid OBJ line lists", 60_000, |src, case| {
        let file = obj_file(src, &NEUTRAL, 6);
        let mut lines = file.lines([0; 3]);
        if src.chance(1, 2) {
            mutate_lines(src, &mut lines, &OBJ_VOCAB);
        } else {
            let states = file.states();
            let i = src.usize(states.len());
            let bad = bad_statement(src, states[i].0, states[i].1);
            lines.insert(file.libs.len() + i, bad);
        }
        let (a, b) = pair(src, &lines, true, false);
        obj_pair(case, "mutated obj", &a, &b, !lines.is_empty()).map(|_| ())
    });
    p.random("invalid MTL line lists", 40_000, |src, case| {
        let mut lines = mtl_file(src, 4).lines();
        if src.chance(1, 2) {
            mutate_lines(src, &mut lines, &MTL_VOCAB);
        } else {
            let i = src.usize(lines.len() + 1);
            let bad = bad_mtl_statement(src);
            lines.insert(i, bad);
        }
        let (a, b) = pair(src, &lines, false, false);
        mtl_pair(case, "mutated mtl", &a, &b, !lines.is_empty()).map(|_| ())
    });
    p.random("very long blank or comment stretches", 400, |src, case| {
        if src.chance(1, 2) {
            let file = obj_file(src, &NEUTRAL, 5);
            let lines = file.lines([0; 3]);
            let (a, b) = pair(src, &lines, true, true);
            match obj_pair(case, "long obj", &a, &b, !lines.is_empty())? {
                Some(set) => compare_set(&file.model(), &set, &ALL_ASPECTS),
                None => Err("a valid file was rejected".to_owned()),
            }
        } else {
            let file = mtl_file(src, 4);
            let lines = file.lines();
            let (a, b) = pair(src, &lines, false, true);
            match mtl_pair(case, "long mtl", &a, &b, !lines.is_empty())? {
                Some(set) => compare_mtl(&file.model(), &set),
                None => Err("a valid file was rejected".to_owned()),
            }
        }
    });
    p.random("one text in every line-ending style", 30_000, |src, case| {
        // Also texts with words the format does not know, and no layout rule.
        let obj = src.chance(1, 2);
        let text = if obj { obj_text(src).0 } else { mtl_text(src).0 };
        let lf: String = text.replace("\r\n", "\n").replace('\r', "\n");
        let crlf = lf.replace('\n', "\r\n");
        let cr = lf.replace('\n', "\r");
        for other in [&crlf, &cr] {
            if obj {
                obj_pair(case, "line endings obj", &all_lines(&lf), &all_lines(other), true)?;
            } else {
                mtl_pair(case, "line endings mtl", &all_lines(&lf), &all_lines(other), true)?;
            }
        }
        Ok(())
    });
    p.random("large files", 200, |src, case| {
        if src.chance(1, 2) {
            let dims: Vec<usize> = (0..DIMS).collect();
            let (file, label) = obj_scale(src, &dims);
            let lines = file.lines([0; 3]);
            let (a, b) = pair(src, &lines, true, false);
            match obj_pair(case, &label, &a, &b, true)? {
                Some(set) => compare_set(&file.model(), &set, &ALL_ASPECTS),
                None => Err("a valid file was rejected".to_owned()),
            }
        } else {
            let (file, label) = mtl_scale(src);
            let lines = file.lines();
            let (a, b) = pair(src, &lines, false, false);
            match mtl_pair(case, &label, &a, &b, true)? {
                Some(set) => compare_mtl(&file.model(), &set),
                None => Err("a valid file was rejected".to_owned()),
            }
        }
    });
    // Every short arrangement of blanks, comments and line ends between the
    // words of one file.
    const GAPS: [&str; 9] = ["\n", "\r\n", "\r", " ", "\t", "\\", "# c", "#", "\n\n"];
    p.sequences("all short gaps between statements", GAPS.len(), 5, 6, |seq, case| {
        let gap: String = seq.iter().map(|&i| GAPS[i]).collect();
        let a = "v 1 2 3\ng é\np 1\n";
        // A comment must not swallow what follows the gap.
        let open = gap.rsplit(['\n', '\r']).next().unwrap_or("").contains('#');
        let lead = if open { format!("{}\n", gap) } else { gap.clone() };
        let b = format!("{}v 1 2 3{}\n{}g é{}\r{}p 1{}\r\n{}", lead, gap, lead, gap, lead, gap, gap);
        obj_pair(case, "gap", &all_lines(a), &all_lines(&b), true)?;
        let a = "newmtl é\nKa 1 2 3\nbump x\n";
        let b = format!("{}newmtl é{}\n{}Ka 1 2 3{}\r{}bump x{}\r\n{}", lead, gap, lead, gap, lead, gap, gap);
        mtl_pair(case, "gap", &all_lines(a), &all_lines(&b), true)?;
        Ok(())
    });
    p
}

// ------------------------------------------------------------------------ MTL

fn c13() -> Prop {
    let mut p = Prop {
        id: "C13",
        families: vec![],
        rule: "the file is valid and has a material with at least one attribute statement (or several materials)",
    };
    fn nt(m: &MtlFile) -> bool {
        m.mats.len() > 1 || m.mats.iter().any(|x| !x.stmts.is_empty())
    }
    p.random("valid files", 200_000, |src, case| {
        let mean = *src.pick(&[2u64, 6, 15]);
        let file = mtl_file(src, mean);
        let t = render(src, &file.lines(), 1, false);
        case.set("valid", nt(&file), &t.text);
        valid_mtl(&t.text, &file.model()).map(|_| ())
    });
    p.random("accepted soups and mutants", 80_000, |src, case| {
        let (text, label) = mtl_text(src);
        match refp::read_mtl(&text) {
            Verdict::Accept(m) => {
                case.set(label, !m.is_empty(), &text);
                valid_mtl(&text, &m).map(|_| ())
            }
            _ => {
                case.set("not a valid file", false, &text);
                Ok(())
            }
        }
    });
    p.random("one large dimension", 500, |src, case| {
        let (file, label) = mtl_scale(src);
        let t = plain(&file.lines());
        case.set(&label, true, &t.text);
        valid_mtl(&t.text, &file.model()).map(|_| ())
    });
    p.random("documented transmission filter", 50, |src, case| {
        // GRAMMAR.md has `Tf`; see the known findings.
        let mut file = mtl_file(src, 3);
        if file.mats.is_empty() {
            file.mats.push(Mat { name: "m".to_owned(), stmts: vec![] });
        }
        let m = src.usize(file.mats.len());
        let k = src.usize(file.mats[m].stmts.len() + 1);
        let st = MStmt::Tf([num(src, false), num(src, false), num(src, false)]);
        file.mats[m].stmts.insert(k, st);
        let lines = file.lines();
        let line = lines.iter().position(|l| l[0] == "Tf").unwrap() + 1;
        let t = plain(&lines);
        case.set("Tf", true, &t.text);
        match mtl_parse(&t.text)? {
            Ok(set) => compare_mtl(&file.model(), &set),
            Err(e) => {
                let shown = format!("{}", e);
                if first_int(&shown) == Some(line) && shown.contains("Tf") {
                    case.known.push("mtl-tf");
                    Ok(())
                } else {
                    Err(format!("a file with a documented `Tf` statement on line {} was rejected: {}", line, shown))
                }
            }
        }
    });
    const ATTRS: [&str; 21] = [
        "newmtl b", "Ka .1 .2 .3", "Kd .4 .5 .6", "Ks .7 .8 .9", "Ke 1 1.1 1.2", "Ns 13", "d .14", "Ni 15", "illum 0",
        "illum 1", "illum 2", "map_Ka a1", "map_Kd a2", "map_Ks a3", "map_Ke a4", "map_Ns a5", "map_Bump a6", "bump a7",
        "disp a8", "map_d a9", "decal a10",
    ];
    p.sequences("all short attribute sequences", ATTRS.len(), 4, 5, |seq, case| {
        let text = format!("newmtl a\n{}", join_lines(&ATTRS, seq));
        match refp::read_mtl(&text) {
            Verdict::Accept(m) => {
                case.set("sequence", !seq.is_empty(), &text);
                valid_mtl(&text, &m).map(|_| ())
            }
            _ => Err("reference reader: internal disagreement".to_owned()),
        }
    });
    p
}

// -------------------------------------------------------------------- printing

fn num_words(s: &str, tag: &str, want: &[f64]) -> R {
    let mut w = s.split_whitespace();
    ensure!(w.next() == Some(tag), "printed as {:?}, expected a `{}` statement", s, tag);
    let nums: Vec<&str> = w.collect();
    ensure!(
        nums.len() == want.len()
            && nums
                .iter()
                .zip(want)
                .all(|(a, b)| a.parse::<f64>().map(|v| v.to_bits() == b.to_bits()).unwrap_or(false)),
        "{:?} printed as {:?}",
        want,
        s
    );
    Ok(())
}

fn show<T: std::fmt::Display>(t: &T) -> Result<String, String> {
    guarded("Display", || t.to_string())
}

fn vtn_text(v: &obj::VTNIndex) -> String {
    match *v {
        obj::VTNIndex::V(a) => format!("{}", a as u128 + 1),
        obj::VTNIndex::VT(a, b) => format!("{}/{}", a as u128 + 1, b as u128 + 1),
        obj::VTNIndex::VN(a, c) => format!("{}//{}", a as u128 + 1, c as u128 + 1),
        obj::VTNIndex::VTN(a, b, c) => format!("{}/{}/{}", a as u128 + 1, b as u128 + 1, c as u128 + 1),
    }
}

fn check_printed_element(e: &obj::Element) -> R {
    let s = show(e)?;
    let (kind, vtns) = elem_vtns(e);
    let mut want = vec![kind.to_string()];
    for v in &vtns {
        let t = show(v)?;
        ensure!(t == vtn_text(v), "{:?} printed as {:?}", v, t);
        want.push(t);
    }
    ensure!(s.split_whitespace().eq(want.iter().map(|x| x.as_str())), "{:?} printed as {:?}", e, s);
    Ok(())
}

/// The object as an OBJ text made of its printed parts. `None` when the
/// object's tables cannot come from a file in the first place.
fn emit(o: &obj::Object) -> Result<Option<String>, String> {
    let mut s = String::new();
    if o.name.is_empty() {
        s.push_str("g\n");
    } else {
        s.push_str(&format!("o {}\n", o.name));
    }
    for v in &o.vertex_set {
        s.push_str(&show(v)?);
        s.push('\n');
    }
    for v in &o.texture_vertex_set {
        s.push_str(&show(v)?);
        s.push('\n');
    }
    for v in &o.normal_vertex_set {
        s.push_str(&show(v)?);
        s.push('\n');
    }
    let mut next_group = 0;
    let mut current: Option<Vec<usize>> = None;
    let mut next_smooth = 0;
    let mut starts: std::collections::BTreeMap<usize, &str> = Default::default();
    let mut trailing = None;
    for g in &o.geometry_set {
        if let Some(m) = &g.material_name {
            match g.shapes.first() {
                Some(&k) => {
                    starts.insert(k, m);
                }
                None => trailing = Some(m),
            }
        }
    }
    let put_groups = |s: &mut String, list: &[obj::Group]| -> R {
        s.push('g');
        for g in list {
            s.push(' ');
            s.push_str(&show(g)?);
        }
        s.push('\n');
        Ok(())
    };
    for (i, (e, sh)) in o.element_set.iter().zip(&o.shape_set).enumerate() {
        if current.as_ref() != Some(&sh.groups) {
            if let (Some(&a), Some(&b)) = (sh.groups.first(), sh.groups.last()) {
                if a < next_group || b >= o.group_set.len() || b + 1 - a != sh.groups.len() {
                    return Ok(None);
                }
                if a > next_group {
                    put_groups(&mut s, &o.group_set[next_group..a])?;
                }
                put_groups(&mut s, &o.group_set[a..=b])?;
                next_group = b + 1;
            } else {
                if next_group == 0 {
                    // Before any name a bare `g` means the default group.
                    let later = o.shape_set[i..].iter().find_map(|x| x.groups.first().copied());
                    let k = later.unwrap_or(o.group_set.len()).min(o.group_set.len());
                    if k == 0 {
                        return Ok(None);
                    }
                    put_groups(&mut s, &o.group_set[..k])?;
                    next_group = k;
                }
                put_groups(&mut s, &[])?;
            }
            current = Some(sh.groups.clone());
        }
        if sh.smoothing_group >= o.smoothing_group_set.len() {
            return Ok(None);
        }
        while next_smooth <= sh.smoothing_group {
            s.push_str(&format!("s {}\n", show(&o.smoothing_group_set[next_smooth])?));
            next_smooth += 1;
        }
        if next_smooth != sh.smoothing_group + 1 {
            return Ok(None);
        }
        if let Some(m) = starts.get(&i) {
            s.push_str(&format!("usemtl {}\n", m));
        }
        s.push_str(&show(e)?);
        s.push('\n');
    }
    if next_group < o.group_set.len() {
        put_groups(&mut s, &o.group_set[next_group..])?;
    }
    while next_smooth < o.smoothing_group_set.len() {
        s.push_str(&format!("s {}\n", show(&o.smoothing_group_set[next_smooth])?));
        next_smooth += 1;
    }
    if let Some(m) = trailing {
        s.push_str(&format!("usemtl {}\n", m));
    }
    Ok(Some(s))
}

fn round_trip(set: &obj::ObjectSet) -> R {
    for (i, o) in set.objects.iter().enumerate() {
        let Some(text) = emit(o)? else {
            return Err(format!("object #{} has shape tables no statement order can produce: {}", i, shorten(&format!("{:?}", o))));
        };
        match obj_parse(&text)? {
            Ok(back) => {
                ensure!(
                    back.objects.len() == 1 && back.material_libraries.is_empty(),
                    "object #{} printed as {:?} parses to {} objects",
                    i,
                    shorten(&text),
                    back.objects.len()
                );
                same_object(o, &back.objects[0]).map_err(|e| format!("object #{} printed as {:?}: {}", i, shorten(&text), e))?;
            }
            Err(e) => return Err(format!("object #{} printed as {:?} does not parse: {:?}", i, shorten(&text), e)),
        }
    }
    Ok(())
}

fn any_index(src: &mut Src) -> usize {
    match src.weighted(&[4, 2, 2, 1]) {
        0 => src.usize(12),
        1 => (*src.pick(&crate::dict::dict().sizes)).saturating_sub(src.usize(3)),
        2 => *src.pick(&[
            254, 255, 256, 65534, 65535, 65536, 999, 9999, 4294967294, 4294967295, 4294967296, i64::MAX as usize - 1,
            i64::MAX as usize, usize::MAX - 2, usize::MAX - 1,
        ]),
        _ => (src.any_u64() >> src.below(64)).min(u64::MAX - 1) as usize,
    }
}

fn any_vtn(src: &mut Src, form: Form) -> obj::VTNIndex {
    let (a, b, c) = (any_index(src), any_index(src), any_index(src));
    match form {
        Form::V => obj::VTNIndex::V(a),
        Form::VT => obj::VTNIndex::VT(a, b),
        Form::VN => obj::VTNIndex::VN(a, c),
        Form::VTN => obj::VTNIndex::VTN(a, b, c),
    }
}

fn any_element(src: &mut Src) -> obj::Element {
    let f = FORMS[src.usize(4)];
    match src.usize(3) {
        0 => obj::Element::Point(any_vtn(src, f)),
        1 => obj::Element::Line(any_vtn(src, f), any_vtn(src, f)),
        _ => obj::Element::Face(any_vtn(src, f), any_vtn(src, f), any_vtn(src, f)),
    }
}

fn c15() -> Prop {
    let mut p = Prop {
        id: "C15",
        families: vec![],
        rule: "at least one object (or value) was printed and read back",
    };
    let by_file = |src: &mut Src, case: &mut Case, w: &[u32; 10], mean: u64| -> R {
        let file = obj_file(src, w, mean);
        let m = file.model();
        let t = plain(&file.lines([0; 3]));
        case.set("parsed objects", !m.objects.is_empty(), &t.text);
        let set = valid_obj(&t.text, &m, &[])?;
        for (w, g) in m.objects.iter().zip(&set.objects) {
            // The model's numbers, not the parsed ones, are what must be printed.
            compare_object(w, g, &[Aspect::Data])?;
            for (a, b) in w.v.iter().zip(&g.vertex_set) {
                num_words(&show(b)?, "v", a)?;
            }
        }
        round_trip(&set)
    };
    p.random("parsed objects", 50_000, move |src, case| by_file(src, case, &NEUTRAL, 14));
    p.random("parsed objects with many state changes", 50_000, move |src, case| by_file(src, case, &STATEFUL, 20));
    p.random("accepted soups and mutants", 40_000, |src, case| {
        let (text, label) = obj_text(src);
        let r = obj_parse(&text)?;
        match r {
            Ok(set) => {
                let finite = set.objects.iter().all(|o| {
                    o.vertex_set.iter().all(|v| [v.x, v.y, v.z, v.w].iter().all(|x| x.is_finite()))
                        && o.texture_vertex_set.iter().all(|v| [v.u, v.v, v.w].iter().all(|x| x.is_finite()))
                        && o.normal_vertex_set.iter().all(|v| [v.x, v.y, v.z].iter().all(|x| x.is_finite()))
                });
                case.set(label, finite && !set.objects.is_empty(), &text);
                if finite {
                    round_trip(&set)
                } else {
                    Ok(())
                }
            }
            Err(_) => {
                case.set("not accepted", false, &text);
                Ok(())
            }
        }
    });
    p.random("vertices with any numbers", 150_000, |src, case| {
        let n: Vec<f64> = (0..4).map(|_| num(src, true).val).collect();
        let v = obj::Vertex { x: n[0], y: n[1], z: n[2], w: n[3] };
        let t = obj::TextureVertex { u: n[1], v: n[2], w: n[3] };
        let vn = obj::NormalVertex { x: n[3], y: n[0], z: n[2] };
        case.set("numbers", true, &format!("{:?}", n));
        let (a, b, c) = (show(&v)?, show(&t)?, show(&vn)?);
        num_words(&a, "v", &n)?;
        num_words(&b, "vt", &n[1..])?;
        num_words(&c, "vn", &[n[3], n[0], n[2]])?;
        let text = format!("{}\n{}\n{}\n", a, b, c);
        match obj_parse(&text)? {
            Ok(set) => {
                ensure!(set.objects.len() == 1, "{:?} parses to {} objects", text, set.objects.len());
                let o = &set.objects[0];
                let want = obj::Object {
                    vertex_set: vec![v],
                    texture_vertex_set: vec![t],
                    normal_vertex_set: vec![vn],
                    ..Default::default()
                };
                same_object(&want, &obj::Object { geometry_set: vec![], ..o.clone() })
            }
            Err(e) => Err(format!("{:?} does not parse: {:?}", text, e)),
        }
    });
    p.random("elements and indices with any values", 100_000, |src, case| {
        let e = any_element(src);
        case.set("element", true, &format!("{:?}", e));
        check_printed_element(&e)
    });
    p.random("groups and smoothing groups", 60_000, |src, case| {
        let name = word(src);
        let (v, _) = smooth_value(src);
        case.set("names", true, &format!("{:?} {}", name, v));
        let g = show(&obj::Group(name.clone()))?;
        ensure!(g == name, "group {:?} printed as {:?}", name, g);
        let s = show(&obj::SmoothingGroup(v))?;
        let want = if v == 0 { "off".to_owned() } else { v.to_string() };
        ensure!(s == want, "smoothing group {} printed as {:?}", v, s);
        let text = format!("g {}\ns {}\nv 0 0 0\np 1\n", g, s);
        match obj_parse(&text)? {
            Ok(set) => {
                ensure!(
                    set.objects.len() == 1
                        && set.objects[0].group_set == vec![obj::Group(name.clone())]
                        && set.objects[0].smoothing_group_set == vec![obj::SmoothingGroup(v)],
                    "group {:?} and smoothing group {} printed as {:?} read back as {:?}",
                    name,
                    v,
                    text,
                    set
                );
                Ok(())
            }
            Err(e) => Err(format!("{:?} does not parse: {:?}", text, e)),
        }
    });
    p.random("large objects", 250, |src, case| {
        let (file, label) = obj_scale(src, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 14, 15, 17]);
        let t = plain(&file.lines([0; 3]));
        case.set(&label, true, &t.text);
        let set = valid_obj(&t.text, &file.model(), &[])?;
        round_trip(&set)
    });
    p.sequences("all short statement sequences", STATE_ALPHABET.len(), 5, 6, |seq, case| {
        let text = join_lines(&STATE_ALPHABET, seq);
        case.set("sequence", !seq.is_empty(), &text);
        match obj_parse(&text)? {
            Ok(set) => round_trip(&set),
            Err(e) => Err(format!("a valid file was rejected: {:?}", e)),
        }
    });
    p
}

/// The summary of one object: lines, in their order.
fn check_summary(o: &obj::Object, shown: &str) -> R {
    let lines: Vec<&str> = shown.split('\n').collect();
    let mut at = 0;
    let mut find = |what: &str, pred: &dyn Fn(&str) -> bool| -> Result<String, String> {
        while at < lines.len() {
            let l = lines[at];
            at += 1;
            if pred(l) {
                return Ok(l.to_owned());
            }
        }
        Err(format!("no line with {} (in its place) in {:?}", what, shorten(shown)))
    };
    let name = o.name.as_str();
    find("the name", &|l| l.trim_start_matches(' ').strip_prefix("name:").map(|r| r.trim_matches(' ') == name.trim_matches(' ')).unwrap_or(false))?;
    macro_rules! set {
        ($title:expr, $list:expr) => {{
            let list = $list;
            find(&format!("the {} set", $title), &|l| l.trim_matches(' ') == format!("{} set:", $title))?;
            let want = match (list.first(), list.last()) {
                (Some(a), Some(b)) => format!("[({}) ... ({})]", show(a)?, show(b)?),
                _ => "[]".to_owned(),
            };
            let data = find("the data", &|l| l.trim_start_matches(' ').starts_with("data:"))?;
            let got = data.trim_start_matches(' ').strip_prefix("data:").unwrap_or("").trim_matches(' ');
            ensure!(got == want, "{} set: expected data {:?}, got {:?}", $title, want, got);
            let len = find("the length", &|l| l.trim_start_matches(' ').starts_with("length:"))?;
            ensure!(
                first_int(&len) == Some(list.len()) && !len.contains('-'),
                "{} set: expected length {}, got {:?}",
                $title,
                list.len(),
                len
            );
        }};
    }
    set!("vertex", &o.vertex_set);
    set!("texture vertex", &o.texture_vertex_set);
    set!("normal vertex", &o.normal_vertex_set);
    set!("group", &o.group_set);
    set!("smoothing group", &o.smoothing_group_set);
    set!("element", &o.element_set);
    Ok(())
}

fn check_set_summary(set: &obj::ObjectSet) -> R {
    let whole = show(set)?;
    let mut at = 0;
    for (i, o) in set.objects.iter().enumerate() {
        let s = show(o)?;
        check_summary(o, &s).map_err(|e| format!("object #{}: {}", i, e))?;
        match whole[at..].find(&s) {
            Some(k) => at += k + s.len(),
            None => return Err(format!("the printed set lacks object #{} (in its place): {:?}", i, shorten(&whole))),
        }
    }
    let n = whole.split('\n').filter(|l| l.trim_matches(' ') == "Object {").count();
    ensure!(n == set.objects.len(), "the printed set shows {} objects, there are {}", n, set.objects.len());
    Ok(())
}

fn list<T: Clone>(src: &mut Src, large: bool, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
    if !large {
        let n = src.weighted(&[2, 2, 2, 1, 1, 1]);
        return (0..n).map(|_| f(src)).collect();
    }
    // A few values over and over, with ends (and second places) of their own.
    let n = size(src).max(1);
    let pool: Vec<T> = (0..4).map(|_| f(src)).collect();
    let mut rng = src.bulk();
    let mut v: Vec<T> = (0..n).map(|_| pool[rng.below(4) as usize].clone()).collect();
    for k in [0, 1, n.saturating_sub(2), n - 1] {
        if k < n {
            v[k] = f(src);
        }
    }
    v
}

fn any_object(src: &mut Src, wild: bool, large: bool) -> obj::Object {
    let which = if large { src.usize(6) } else { 9 };
    obj::Object {
        name: if src.chance(1, 6) { String::new() } else { word(src) },
        vertex_set: list(src, which == 0, |s| obj::Vertex {
            x: num(s, wild).val,
            y: num(s, wild).val,
            z: num(s, wild).val,
            w: num(s, wild).val,
        }),
        texture_vertex_set: list(src, which == 1, |s| obj::TextureVertex {
            u: num(s, wild).val,
            v: num(s, wild).val,
            w: num(s, wild).val,
        }),
        normal_vertex_set: list(src, which == 2, |s| obj::NormalVertex {
            x: num(s, wild).val,
            y: num(s, wild).val,
            z: num(s, wild).val,
        }),
        group_set: list(src, which == 3, |s| obj::Group(word(s))),
        smoothing_group_set: list(src, which == 4, |s| obj::SmoothingGroup(smooth_value(s).0)),
        element_set: list(src, which == 5, any_element),
        shape_set: vec![],
        geometry_set: vec![],
    }
}

fn c16() -> Prop {
    let mut p = Prop {
        id: "C16",
        families: vec![],
        rule: "the printed set has at least one object with at least one non-empty list",
    };
    fn nt(set: &obj::ObjectSet) -> bool {
        set.objects.iter().any(|o| {
            o.vertex_set.len() + o.texture_vertex_set.len() + o.normal_vertex_set.len() + o.group_set.len()
                + o.smoothing_group_set.len()
                + o.element_set.len()
                > 0
        })
    }
    p.random("constructed sets", 120_000, |src, case| {
        let wild = src.chance(1, 2);
        let n = src.weighted(&[1, 6, 2, 1, 1]);
        let set = obj::ObjectSet {
            material_libraries: list(src, false, word),
            objects: (0..n).map(|_| any_object(src, wild, false)).collect(),
        };
        case.set("constructed", nt(&set), &format!("{:?}", set));
        check_set_summary(&set)
    });
    p.random("parsed sets", 60_000, |src, case| {
        let file = obj_file(src, &NEUTRAL, 12);
        let t = plain(&file.lines([0; 3]));
        let m = file.model();
        let set = valid_obj(&t.text, &m, &[])?;
        case.set("parsed", nt(&set), &t.text);
        check_set_summary(&set)?;
        // Against the file rather than the parsed value.
        for (w, o) in m.objects.iter().zip(&set.objects) {
            let s = show(o)?;
            let lens: Vec<usize> = s
                .split('\n')
                .filter_map(|l| l.trim_start_matches(' ').strip_prefix("length:"))
                .filter_map(first_int)
                .collect();
            ensure!(
                lens.len() >= 6
                    && lens[0] == w.v.len()
                    && lens[1] == w.vt.len()
                    && lens[2] == w.vn.len()
                    && lens[3] == w.groups.len()
                    && lens[5] == w.elems.len(),
                "the printed lengths {:?} do not match the file",
                lens
            );
        }
        Ok(())
    });
    p.random("large lists", 1_500, |src, case| {
        let set = obj::ObjectSet { material_libraries: vec![], objects: vec![any_object(src, false, true)] };
        case.set("large", nt(&set), &show(&set)?);
        check_set_summary(&set)
    });
    p.random("many objects", 300, |src, case| {
        let n = size(src).min(3000);
        let k = 1 + src.usize(3);
        let some: Vec<obj::Object> = (0..k).map(|_| any_object(src, false, false)).collect();
        let mut rng = src.bulk();
        let objects = (0..n)
            .map(|i| {
                let mut o = some[rng.below(k as u64) as usize].clone();
                o.name = format!("o{}", i);
                o
            })
            .collect();
        let set = obj::ObjectSet { material_libraries: vec![], objects };
        case.set("many", nt(&set), &show(&set)?);
        check_set_summary(&set)
    });
    p
}

// ------------------------------------------------------------------- soundness

fn check_name(what: &str, name: &str, words: &std::collections::HashSet<&str>) -> R {
    ensure!(std::str::from_utf8(name.as_bytes()).is_ok(), "{} name is not valid UTF-8: {:?}", what, name.as_bytes());
    ensure!(!name.is_empty(), "empty {} name", what);
    ensure!(crate::dict::is_word(name), "{} name {:?} has separators", what, name);
    ensure!(words.contains(name), "{} name {:?} is no word of the input", what, name);
    Ok(())
}

fn sound_obj(set: &obj::ObjectSet, text: &str) -> R {
    let words = refp::all_words(text);
    for l in &set.material_libraries {
        check_name("library", l, &words)?;
    }
    for (i, o) in set.objects.iter().enumerate() {
        sound_object(o, i == 0, &words).map_err(|e| format!("object #{}: {}", i, e))?;
    }
    Ok(())
}

fn sound_object(o: &obj::Object, first: bool, words: &std::collections::HashSet<&str>) -> R {
    if !(first && o.name.is_empty()) {
        check_name("object", &o.name, words)?;
    }
    for g in &o.group_set {
        if g.0 != "default" {
            check_name("group", &g.0, words)?;
        }
    }
    ensure!(
        o.shape_set.len() == o.element_set.len(),
        "{} shape entries for {} elements",
        o.shape_set.len(),
        o.element_set.len()
    );
    for (i, s) in o.shape_set.iter().enumerate() {
        ensure!(s.element == i, "shape entry #{} is for element {}", i, s.element);
        ensure!(s.groups.iter().all(|&g| g < o.group_set.len()), "shape entry #{} has groups {:?} of {}", i, s.groups, o.group_set.len());
        ensure!(
            s.smoothing_group < o.smoothing_group_set.len(),
            "shape entry #{} has smoothing group {} of {}",
            i,
            s.smoothing_group,
            o.smoothing_group_set.len()
        );
    }
    for (i, e) in o.element_set.iter().enumerate() {
        let (_, vtns) = elem_vtns(e);
        for v in &vtns {
            let (form, idx) = vtn_parts(v);
            ensure!(form == vtn_parts(&vtns[0]).0, "element #{} mixes forms: {:?}", i, e);
            ensure!(
                idx[0] < o.vertex_set.len()
                    && (!form.has_t() || idx[1] < o.texture_vertex_set.len())
                    && (!form.has_n() || idx[2] < o.normal_vertex_set.len()),
                "element #{} {:?} is out of range",
                i,
                e
            );
            let found = guarded("get_vtn_triple", || o.get_vtn_triple(*v).is_some())?;
            ensure!(found, "element #{}: looking up {:?} fails", i, v);
        }
    }
    let mut next = 0;
    for g in &o.geometry_set {
        if let Some(m) = &g.material_name {
            check_name("material", m, words)?;
        }
        for &s in &g.shapes {
            ensure!(s == next, "geometries do not partition the elements in order: {:?} after {}", s, next);
            next += 1;
        }
    }
    ensure!(next == o.shape_set.len(), "geometries cover {} of {} elements", next, o.shape_set.len());
    Ok(())
}

fn sound_mtl(set: &mtl::MaterialSet, text: &str) -> R {
    let words = refp::all_words(text);
    for m in &set.materials {
        check_name("material", &m.name, &words)?;
        for n in maps_of(m).into_iter().flatten() {
            check_name("map", n, &words)?;
        }
    }
    Ok(())
}

fn c17() -> Prop {
    let mut p = Prop {
        id: "C17",
        families: vec![],
        rule: "the text was accepted and its result is not empty (valid, grey or mutated texts alike)",
    };
    let obj_case = |case: &mut Case, text: &str, label: &str| -> R {
        match obj_parse(text)? {
            Ok(set) => {
                case.set(label, !set.objects.is_empty() || !set.material_libraries.is_empty(), text);
                sound_obj(&set, text)
            }
            Err(_) => {
                case.set("not accepted", false, text);
                Ok(())
            }
        }
    };
    let mtl_case = |case: &mut Case, text: &str, label: &str| -> R {
        match mtl_parse(text)? {
            Ok(set) => {
                case.set(label, !set.materials.is_empty(), text);
                sound_mtl(&set, text)
            }
            Err(_) => {
                case.set("not accepted", false, text);
                Ok(())
            }
        }
    };
    p.random("OBJ soups and mutants", 200_000, move |src, case| {
        let (t, label) = obj_text(src);
        obj_case(case, &t, label)
    });
    p.random("valid OBJ files", 50_000, move |src, case| {
        let file = obj_file(src, &STATEFUL, 14);
        let t = render(src, &file.lines([0; 3]), 2, true).text;
        obj_case(case, &t, "valid obj")
    });
    p.random("OBJ lines joined", 60_000, move |src, case| {
        // Several statements on one line, faults: whatever is accepted.
        let mut lines = obj_file(src, &STATEFUL, 12).lines([0; 3]);
        let n = 1 + src.usize(3);
        for _ in 0..n {
            if lines.len() > 1 {
                let i = src.usize(lines.len() - 1);
                let l = lines.remove(i + 1);
                lines[i].extend(l);
            }
        }
        let t = render(src, &lines, 1, false).text;
        obj_case(case, &t, "joined obj")
    });
    p.random("OBJ files with a fault", 60_000, move |src, case| {
        let (t, _) = faulty_obj(src, 1, true, 1);
        obj_case(case, &t, "fault obj")
    });
    p.random("large OBJ files", 300, move |src, case| {
        let dims: Vec<usize> = (0..DIMS).collect();
        let (file, label) = obj_scale(src, &dims);
        let t = plain(&file.lines([0; 3])).text;
        obj_case(case, &t, &label)
    });
    p.random("MTL soups and mutants", 80_000, move |src, case| {
        let (t, label) = mtl_text(src);
        mtl_case(case, &t, label)
    });
    p.random("MTL files with a fault", 40_000, move |src, case| {
        let t = faulty_mtl(src, 1, 1);
        mtl_case(case, &t, "fault mtl")
    });
    p.random("valid MTL files", 40_000, move |src, case| {
        let file = mtl_file(src, 6);
        let t = render(src, &file.lines(), 2, false).text;
        mtl_case(case, &t, "valid mtl")
    });
    p.sequences("all short statement sequences", STATE_ALPHABET.len(), 5, 6, move |seq, case| {
        let t = join_lines(&STATE_ALPHABET, seq);
        obj_case(case, &t, "sequence")
    });
    p.sequences("all short sequences of hostile statements", HOSTILE.len(), 3, 4, move |seq, case| {
        let t = join_lines(&HOSTILE, seq);
        obj_case(case, &t, "hostile")?;
        obj_case(case, &t.replace('\n', " "), "hostile joined")
    });
    p
}

// ---------------------------------------------------------------------- lookup

fn numbered_object(lens: [usize; 3]) -> obj::Object {
    obj::Object {
        vertex_set: (0..lens[0]).map(|i| obj::Vertex { x: i as f64, y: 0.5, z: -(i as f64), w: 1.0 }).collect(),
        texture_vertex_set: (0..lens[1]).map(|i| obj::TextureVertex { u: 0.25, v: i as f64, w: i as f64 + 0.125 }).collect(),
        normal_vertex_set: (0..lens[2]).map(|i| obj::NormalVertex { x: i as f64 + 0.75, y: 7.0, z: i as f64 }).collect(),
        ..Default::default()
    }
}

fn check_lookup(o: &obj::Object, v: obj::VTNIndex) -> R {
    let (form, idx) = vtn_parts(&v);
    let ok = idx[0] < o.vertex_set.len()
        && (!form.has_t() || idx[1] < o.texture_vertex_set.len())
        && (!form.has_n() || idx[2] < o.normal_vertex_set.len());
    let lens = (o.vertex_set.len(), o.texture_vertex_set.len(), o.normal_vertex_set.len());
    let same = guarded("get_vtn_triple", || match (o.get_vtn_triple(v), form) {
        (None, _) => !ok,
        (Some(obj::VTNTriple::V(a)), Form::V) => ok && *a == o.vertex_set[idx[0]],
        (Some(obj::VTNTriple::VT(a, b)), Form::VT) => {
            ok && *a == o.vertex_set[idx[0]] && *b == o.texture_vertex_set[idx[1]]
        }
        (Some(obj::VTNTriple::VN(a, c)), Form::VN) => {
            ok && *a == o.vertex_set[idx[0]] && *c == o.normal_vertex_set[idx[2]]
        }
        (Some(obj::VTNTriple::VTN(a, b, c)), Form::VTN) => {
            ok && *a == o.vertex_set[idx[0]] && *b == o.texture_vertex_set[idx[1]] && *c == o.normal_vertex_set[idx[2]]
        }
        _ => false,
    })?;
    ensure!(
        same,
        "looking up {:?} in an object with lists of {:?} entries gives {:?}",
        v,
        lens,
        guarded("get_vtn_triple", || format!("{:?}", o.get_vtn_triple(v)))?
    );
    Ok(())
}

fn vtn_of(form: Form, i: [usize; 3]) -> obj::VTNIndex {
    match form {
        Form::V => obj::VTNIndex::V(i[0]),
        Form::VT => obj::VTNIndex::VT(i[0], i[1]),
        Form::VN => obj::VTNIndex::VN(i[0], i[2]),
        Form::VTN => obj::VTNIndex::VTN(i[0], i[1], i[2]),
    }
}

fn c18() -> Prop {
    let mut p = Prop {
        id: "C18",
        families: vec![],
        rule: "an object with at least one entry and an index, or a pair of indices",
    };
    fn near(src: &mut Src, len: usize) -> usize {
        match src.weighted(&[4, 2, 2, 1, 1]) {
            0 => src.usize(len.max(1)),
            1 => len,
            2 => len.saturating_sub(1),
            3 => len + 1 + src.usize(3),
            _ => any_index(src),
        }
    }
    fn lookup_case(src: &mut Src, case: &mut Case, lens: [usize; 3], tries: usize) -> R {
        let o = numbered_object(lens);
        let mut shown = format!("{:?}", lens);
        let mut list = vec![];
        for _ in 0..tries {
            let form = FORMS[src.usize(4)];
            let v = vtn_of(form, [near(src, lens[0]), near(src, lens[1]), near(src, lens[2])]);
            shown.push_str(&format!(" {:?}", v));
            list.push(v);
        }
        case.set("lookup", lens.iter().any(|&n| n > 0), &shown);
        for v in list {
            check_lookup(&o, v)?;
        }
        Ok(())
    }
    p.random("lookups in small objects", 200_000, |src, case| {
        let lens = [src.usize(9), src.usize(9), src.usize(9)];
        lookup_case(src, case, lens, 6)
    });
    p.random("lookups in large objects", 1_500, |src, case| {
        let lens = [small_size(src), small_size(src), small_size(src)];
        lookup_case(src, case, lens, 40)
    });
    p.random("lookups in very large objects", 150, |src, case| {
        let mut lens = [src.usize(5), src.usize(5), src.usize(5)];
        let k = src.usize(3);
        lens[k] = size(src);
        lookup_case(src, case, lens, 200)
    });
    p.random("lookups in parsed objects", 40_000, |src, case| {
        let file = obj_file(src, &DATA, 12);
        let t = plain(&file.lines([0; 3]));
        let set = valid_obj(&t.text, &file.model(), &[])?;
        case.set("parsed", set.objects.iter().any(|o| !o.vertex_set.is_empty()), &t.text);
        for o in &set.objects {
            for _ in 0..6 {
                let form = FORMS[src.usize(4)];
                let v = vtn_of(
                    form,
                    [near(src, o.vertex_set.len()), near(src, o.texture_vertex_set.len()), near(src, o.normal_vertex_set.len())],
                );
                check_lookup(o, v)?;
            }
        }
        Ok(())
    });
    p.random("form comparison", 150_000, |src, case| {
        let (fa, fb) = (FORMS[src.usize(4)], FORMS[src.usize(4)]);
        let a = any_vtn(src, fa);
        let b = if src.chance(1, 3) { vtn_of(fb, vtn_parts(&a).1) } else { any_vtn(src, fb) };
        case.set("same type", true, &format!("{:?} {:?}", a, b));
        let got = guarded("has_same_type_as", || (a.has_same_type_as(&b), b.has_same_type_as(&a)))?;
        ensure!(got == (fa == fb, fa == fb), "{:?} and {:?}: same type {:?}", a, b, got);
        Ok(())
    });
    // Lengths 0..3 of each list, every form, every index 0..3 of each kind.
    p.sequences("all small objects and indices", 4, 7, 7, |seq, case| {
        if seq.len() != 7 {
            case.set("unused", false, "");
            return Ok(());
        }
        let o = numbered_object([seq[0], seq[1], seq[2]]);
        let v = vtn_of(FORMS[seq[3]], [seq[4], seq[5], seq[6]]);
        case.set("small", true, &format!("{:?}", seq));
        check_lookup(&o, v)?;
        let a = vtn_of(FORMS[seq[0]], [seq[4], seq[5], seq[6]]);
        let got = guarded("has_same_type_as", || a.has_same_type_as(&v))?;
        ensure!(got == (seq[0] == seq[3]), "{:?} and {:?}: same type {}", a, v, got);
        Ok(())
    });
    p
}

// ---------------------------------------------------------------------- purity

#[derive(Clone, Debug)]
pub(crate) enum Job {
    Obj(String),
    Mtl(String),
}

pub(crate) enum Out {
    Obj(ObjResult),
    Mtl(MtlResult),
}

impl Job {
    pub(crate) fn text(&self) -> &str {
        match self {
            Job::Obj(t) | Job::Mtl(t) => t,
        }
    }
}

/// Runs a job through one of the entry points.
pub(crate) fn run_job(job: &Job, via: usize) -> Result<Out, String> {
    Ok(match job {
        Job::Obj(t) => Out::Obj(guarded("obj", || match via {
            0 => obj::parse(t.as_str()),
            1 => obj::parse(t.clone()),
            2 => obj::parse(t),
            3 => obj::Parser::new(t).parse_objset(),
            4 => {
                let p = obj::Parser::new(t);
                let mut q = p.clone();
                drop(p);
                q.parse_objset()
            }
            5 => {
                let mut p = obj::Parser::new(t);
                let mut q = p.clone();
                let _ = q.parse_objset();
                p.parse_objset()
            }
            6 => obj::parse(std::borrow::Cow::Borrowed(t.as_str())),
            _ => obj::parse(Box::<str>::from(t.as_str())),
        })?),
        Job::Mtl(t) => Out::Mtl(guarded("mtl", || match via {
            0 => mtl::parse(t.as_str()),
            1 => mtl::parse(t.clone()),
            2 => mtl::parse(t),
            3..=5 => mtl::Parser::new(t).parse_mtlset(),
            6 => mtl::parse(std::borrow::Cow::Borrowed(t.as_str())),
            _ => mtl::parse(Box::<str>::from(t.as_str())),
        })?),
    })
}

pub(crate) fn same_out(a: &Out, b: &Out) -> R {
    match (a, b) {
        (Out::Obj(Ok(x)), Out::Obj(Ok(y))) => same_set(x, y),
        (Out::Mtl(Ok(x)), Out::Mtl(Ok(y))) => same_mtl(x, y),
        (Out::Obj(Err(x)), Out::Obj(Err(y))) => {
            let same = x.line_number == y.line_number && x.message == y.message && format!("{:?}", x.kind) == format!("{:?}", y.kind);
            ensure!(same, "different errors: {:?} / {:?}", x, y);
            Ok(())
        }
        (Out::Mtl(Err(x)), Out::Mtl(Err(y))) => {
            let same = format!("{:?} {}", x, x) == format!("{:?} {}", y, y);
            ensure!(same, "different errors: {:?} / {:?}", x, y);
            Ok(())
        }
        _ => Err("one run succeeds, the other fails".to_owned()),
    }
}

/// Against the reference reader, where it takes a position.
pub(crate) fn expected_out(job: &Job, out: &Out) -> R {
    match (job, out) {
        (Job::Obj(t), Out::Obj(r)) => match (refp::read_obj(t), r) {
            (Verdict::Accept(m), Ok(set)) => compare_set(&m, set, &ALL_ASPECTS),
            (Verdict::Accept(_), Err(e)) => Err(format!("a valid file was rejected: {:?}", e)),
            (Verdict::Reject { line, .. }, Ok(_)) => Err(format!("an invalid file (line {}) was accepted", line)),
            _ => Ok(()),
        },
        (Job::Mtl(t), Out::Mtl(r)) => match (refp::read_mtl(t), r) {
            (Verdict::Accept(m), Ok(set)) => compare_mtl(&m, set),
            (Verdict::Accept(_), Err(e)) => Err(format!("a valid file was rejected: {:?}", e)),
            (Verdict::Reject { line, .. }, Ok(_)) => Err(format!("an invalid file (line {}) was accepted", line)),
            _ => Ok(()),
        },
        _ => Ok(()),
    }
}

fn job(src: &mut Src) -> Job {
    match src.weighted(&[4, 2, 3, 2]) {
        0 => {
            let f = obj_file(src, &STATEFUL, 6);
            Job::Obj(render(src, &f.lines([0; 3]), 1, true).text)
        }
        1 => Job::Obj(obj_text(src).0),
        2 => {
            let f = mtl_file(src, 4);
            Job::Mtl(render(src, &f.lines(), 1, false).text)
        }
        _ => Job::Mtl(mtl_text(src).0),
    }
}

pub(crate) fn jobs(src: &mut Src, n: usize) -> Vec<Job> {
    let mut out: Vec<Job> = vec![];
    for _ in 0..n {
        let j = match src.weighted(&[4, 1, 1, 1]) {
            1 if !out.is_empty() => {
                // The same text again, perhaps read as the other format.
                let i = src.usize(out.len());
                match &out[i] {
                    Job::Obj(t) if src.chance(1, 2) => Job::Mtl(t.clone()),
                    Job::Mtl(t) if src.chance(1, 2) => Job::Obj(t.clone()),
                    j => j.clone(),
                }
            }
            2 if !out.is_empty() => {
                // A near twin: same length, a few digits or letters changed.
                let i = src.usize(out.len());
                let mut c: Vec<char> = out[i].text().chars().collect();
                let digits: Vec<usize> = (0..c.len()).filter(|&k| c[k].is_ascii_alphanumeric()).collect();
                if !digits.is_empty() {
                    let k = *src.pick(&digits);
                    c[k] = *src.pick(&['1', '2', '0', 'a', '3', 'x']);
                }
                let t: String = c.into_iter().collect();
                match &out[i] {
                    Job::Obj(_) => Job::Obj(t),
                    Job::Mtl(_) => Job::Mtl(t),
                }
            }
            _ => job(src),
        };
        out.push(j);
    }
    out
}

pub(crate) fn show_jobs(list: &[Job]) -> String {
    let mut s = String::new();
    for j in list {
        s.push_str(match j {
            Job::Obj(_) => "=== obj\n",
            Job::Mtl(_) => "=== mtl\n",
        });
        s.push_str(j.text());
        s.push('\n');
    }
    s
}

fn second_call_is_empty(job: &Job) -> R {
    match job {
        Job::Obj(t) => {
            let r = guarded("obj::Parser", || {
                let mut p = obj::Parser::new(t);
                p.parse_objset().is_ok().then(|| (p.clone().parse_objset(), p.parse_objset()))
            })?;
            if let Some((a, b)) = r {
                for x in [a, b] {
                    match x {
                        Ok(s) => ensure!(
                            s.objects.is_empty() && s.material_libraries.is_empty(),
                            "a second parse_objset yields {}",
                            shorten(&format!("{:?}", s))
                        ),
                        Err(e) => return Err(format!("a second parse_objset fails: {:?}", e)),
                    }
                }
            }
        }
        Job::Mtl(t) => {
            let r = guarded("mtl::Parser", || {
                let mut p = mtl::Parser::new(t);
                p.parse_mtlset().is_ok().then(|| p.parse_mtlset())
            })?;
            if let Some(x) = r {
                match x {
                    Ok(s) => ensure!(s.materials.is_empty(), "a second parse_mtlset yields {}", shorten(&format!("{:?}", s))),
                    Err(e) => return Err(format!("a second parse_mtlset fails: {:?}", e)),
                }
            }
        }
    }
    Ok(())
}

fn c19() -> Prop {
    let mut p = Prop {
        id: "C19",
        families: vec![],
        rule: "a history of at least two parses, or one text through several entry points or threads, with a non-empty text",
    };
    p.random("histories through all entry points", 30_000, |src, case| {
        let n = 2 + src.usize(6);
        let list = jobs(src, n);
        case.set("history", list.iter().any(|j| !j.text().is_empty()), &show_jobs(&list));
        let mut first = vec![];
        for j in &list {
            let out = run_job(j, 0)?;
            expected_out(j, &out)?;
            first.push(out);
        }
        // Again, in another order, through other entry points.
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            order.swap(i, src.usize(i + 1));
        }
        for &i in &order {
            let via = src.usize(8);
            let out = run_job(&list[i], via)?;
            same_out(&first[i], &out).map_err(|e| format!("text #{} parsed again (entry point {}): {}", i, via, e))?;
        }
        for j in &list {
            second_call_is_empty(j)?;
        }
        Ok(())
    });
    p.random("different texts in the same buffer", 20_000, |src, case| {
        let n = 2 + src.usize(5);
        let list = jobs(src, n);
        case.set("buffer", true, &show_jobs(&list));
        let mut buffer = String::with_capacity(4096);
        for j in &list {
            buffer.clear();
            buffer.push_str(j.text());
            let out = match j {
                Job::Obj(_) => Out::Obj(guarded("obj::parse", || obj::parse(&buffer))?),
                Job::Mtl(_) => Out::Mtl(guarded("mtl::parse", || mtl::parse(&buffer))?),
            };
            expected_out(j, &out)?;
            let own = run_job(j, 1)?;
            same_out(&own, &out)?;
        }
        Ok(())
    });
    p.random("texts inside larger ones", 30_000, |src, case| {
        // The text as a slice, at any alignment and with anything around it.
        let j = jobs(src, 1).remove(0);
        let own = run_job(&j, 1)?;
        expected_out(&j, &own)?;
        case.set("slice", !j.text().is_empty(), j.text());
        for _ in 0..3 {
            let mut around = |src: &mut Src| -> String {
                let n = src.usize(18);
                let c = *src.pick(&["0", "1", "/1", "9", "x", "e5", ".5", " ", "\n", "\r", "\\", "#", "\nv 1 2 3\n", " 4", "é", "\u{0}"]);
                let w = crate::dict::dict().words[src.usize(crate::dict::dict().words.len())].clone();
                if src.chance(1, 2) {
                    c.repeat(n)
                } else {
                    w.repeat(1 + n / 4)
                }
            };
            let before = around(src);
            let after = around(src);
            let whole = format!("{}{}{}", before, j.text(), after);
            let part = &whole[before.len()..before.len() + j.text().len()];
            let out = match j {
                Job::Obj(_) => Out::Obj(guarded("obj::parse", || obj::parse(part))?),
                Job::Mtl(_) => Out::Mtl(guarded("mtl::parse", || mtl::parse(part))?),
            };
            same_out(&own, &out).map_err(|e| format!("as a slice between {:?} and {:?}: {}", before, after, e))?;
        }
        Ok(())
    });
    p.random("other environment variables", 2_000, |src, case| {
        let j = jobs(src, 1).remove(0);
        let own = run_job(&j, 1)?;
        case.set("environment", !j.text().is_empty(), j.text());
        let d = crate::dict::dict();
        let value = *src.pick(&["1", "0", "on", ""]);
        // Nothing else runs in this process while they are set.
        let names: Vec<&String> = d
            .words
            .iter()
            .chain(&d.phrases)
            .filter(|w| !w.is_empty() && !w.contains(['=', '\0']) && std::env::var_os(w.as_str()).is_none())
            .collect();
        for n in &names {
            std::env::set_var(n.as_str(), value);
        }
        let out = run_job(&j, 1);
        for n in &names {
            std::env::remove_var(n.as_str());
        }
        same_out(&own, &out?).map_err(|e| format!("with other environment variables: {}", e))
    });
    p.random("other working directory with the named files", 1_000, |src, case| {
        let j = jobs(src, 1).remove(0);
        let own = run_job(&j, 1)?;
        case.set("files", !j.text().is_empty(), j.text());
        // Every word of the text that can be one is the name of a file there.
        let dir = std::env::temp_dir().join(format!("verif-c19-{}", std::process::id()));
        let back = std::env::current_dir().map_err(|e| e.to_string());
        if std::fs::create_dir_all(&dir).is_err() || back.is_err() {
            return Ok(());
        }
        let contents = ["v 1 2 3\n", "newmtl x\nKd 1 1 1\n", ""];
        let mut names: Vec<&str> = j.text().split([' ', '\t', '\\', '\n', '\r', '#']).collect();
        names.sort();
        names.dedup();
        let usable = |n: &&str| !n.is_empty() && n.len() < 100 && !n.contains(['/', '\0']) && *n != "." && *n != "..";
        for n in names.into_iter().filter(usable).take(12) {
            let path = dir.join(n);
            let _ = match src.usize(4) {
                3 => std::fs::create_dir(path),
                k => std::fs::write(path, contents[k]),
            };
        }
        let moved = std::env::set_current_dir(&dir).is_ok();
        let out = run_job(&j, 1);
        if moved {
            let _ = std::env::set_current_dir(back.unwrap());
        }
        let _ = std::fs::remove_dir_all(&dir);
        same_out(&own, &out?).map_err(|e| format!("with files of these names in the working directory: {}", e))
    });
    p.random("parallel threads", 4_000, |src, case| {
        let n = 2 + src.usize(5);
        let list = jobs(src, n);
        case.set("threads", list.iter().any(|j| !j.text().is_empty()), &show_jobs(&list));
        let mut first = vec![];
        for j in &list {
            first.push(run_job(j, 0)?);
        }
        let k = 2 + src.usize(4);
        let barrier = std::sync::Barrier::new(k);
        let offsets: Vec<(usize, usize)> = (0..k).map(|_| (src.usize(n), src.usize(8))).collect();
        let fails: Vec<String> = std::thread::scope(|s| {
            let handles: Vec<_> = offsets
                .iter()
                .map(|&(off, via)| {
                    let (list, first, barrier) = (&list, &first, &barrier);
                    s.spawn(move || -> R {
                        barrier.wait();
                        for round in 0..3 {
                            for i in 0..list.len() {
                                let i = (i + off) % list.len();
                                let out = run_job(&list[i], (via + round) % 8)?;
                                same_out(&first[i], &out)
                                    .map_err(|e| format!("text #{} parsed in another thread: {}", i, e))?;
                                expected_out(&list[i], &out)?;
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            handles
                .into_iter()
                .filter_map(|h| match h.join() {
                    Ok(Ok(())) => None,
                    Ok(Err(e)) => Some(e),
                    Err(_) => Some("a thread panicked".to_owned()),
                })
                .collect()
        });
        match fails.into_iter().next() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    });
    p.random("parallel large files", 60, |src, case| {
        let mut list = vec![];
        for _ in 0..3 {
            if src.chance(2, 3) {
                let (f, _) = obj_scale(src, &[0, 3, 5, 7, 8, 9, 10, 15, 17]);
                list.push(Job::Obj(plain(&f.lines([0; 3])).text));
            } else {
                let (f, _) = mtl_scale(src);
                list.push(Job::Mtl(plain(&f.lines()).text));
            }
        }
        case.set("large threads", true, &show_jobs(&list));
        let fails: Vec<String> = std::thread::scope(|s| {
            let handles: Vec<_> = (0..3)
                .map(|off| {
                    let list = &list;
                    s.spawn(move || -> R {
                        for i in 0..list.len() {
                            let j = &list[(i + off) % list.len()];
                            let out = run_job(j, off)?;
                            expected_out(j, &out)?;
                        }
                        Ok(())
                    })
                })
                .collect();
            handles.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".to_owned())).err()).collect()
        });
        match fails.into_iter().next() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    });
    p.random("long histories", 8, |src, case| {
        let n = 3 + src.usize(3);
        let mut list = vec![Job::Obj("v 1 2 3\np 1\n".to_owned()), Job::Mtl("newmtl a\nKa 1 2 3\n".to_owned())];
        list.extend(jobs(src, n));
        case.set("long history", true, &show_jobs(&list));
        let mut first = vec![];
        for j in &list {
            let out = run_job(j, 0)?;
            expected_out(j, &out)?;
            first.push(out);
        }
        let mut rng = src.bulk();
        for k in 0..70_000u64 {
            let i = rng.below(list.len() as u64) as usize;
            let out = run_job(&list[i], rng.below(8) as usize)?;
            same_out(&first[i], &out).map_err(|e| format!("parse {} of the history, text #{}: {}", k, i, e))?;
        }
        Ok(())
    });
    p.random("a fresh thread against a used one", 6_000, |src, case| {
        let n = 1 + src.usize(4);
        let list = jobs(src, n);
        case.set("fresh thread", list.iter().any(|j| !j.text().is_empty()), &show_jobs(&list));
        let mut used = vec![];
        for j in &list {
            used.push(run_job(j, 0)?);
        }
        let i = src.usize(n);
        let j = &list[i];
        // With a name or without, with a smaller or larger stack.
        let mut b = std::thread::Builder::new();
        if src.chance(1, 2) {
            let n = if src.chance(1, 3) { "main".to_owned() } else { word(src).replace('\0', "x") };
            b = b.name(n);
        }
        if src.chance(1, 2) {
            b = b.stack_size(if src.chance(1, 2) { 2 << 20 } else { 16 << 20 });
        }
        let fresh = std::thread::scope(|s| match b.spawn_scoped(s, || run_job(j, 0)) {
            Ok(h) => h.join().unwrap_or_else(|_| Err("a thread panicked".to_owned())),
            // No thread to be had: nothing to compare.
            Err(_) => run_job(j, 0),
        })?;
        same_out(&used[i], &fresh).map_err(|e| format!("text #{} parsed in a fresh thread: {}", i, e))
    });
    p
}

// ----------------------------------------------------------------- composition

pub(crate) fn parse_valid(text: &str) -> Result<obj::ObjectSet, String> {
    match obj_parse(text)? {
        Ok(s) => Ok(s),
        Err(e) => Err(format!("a valid file was rejected: {:?}", e)),
    }
}

pub(crate) fn parse_valid_mtl(text: &str) -> Result<mtl::MaterialSet, String> {
    match mtl_parse(text)? {
        Ok(s) => Ok(s),
        Err(e) => Err(format!("a valid file was rejected: {}", e)),
    }
}

fn check_join(a: &ObjFile, b: &ObjFile, case: &mut Case, label: &str) -> R {
    let (base, cnt) = *a.states().last().unwrap();
    let offset = [base[0] + cnt[0], base[1] + cnt[1], base[2] + cnt[2]];
    let ta = plain(&a.lines([0; 3])).text;
    let tb = plain(&b.lines([0; 3])).text;
    let joined = ta.clone() + &plain(&b.lines(offset)).text;
    case.set(label, !a.stmts.is_empty() && b.stmts.len() > 1, &joined);
    let (x, y, z) = (parse_valid(&ta)?, parse_valid(&tb)?, parse_valid(&joined)?);
    let want = obj::ObjectSet {
        material_libraries: x.material_libraries.clone(),
        objects: x.objects.iter().chain(&y.objects).cloned().collect(),
    };
    same_set(&want, &z)
}

/// What the earlier statements produced is still there in `long`.
fn check_extends(short: &obj::ObjectSet, long: &obj::ObjectSet) -> R {
    ensure!(
        long.material_libraries == short.material_libraries,
        "material libraries changed: {:?} / {:?}",
        short.material_libraries,
        long.material_libraries
    );
    ensure!(long.objects.len() >= short.objects.len(), "{} objects became {}", short.objects.len(), long.objects.len());
    for (i, (a, b)) in short.objects.iter().zip(&long.objects).enumerate() {
        if i + 1 < short.objects.len() {
            same_object(a, b).map_err(|e| format!("object #{} changed: {}", i, e))?;
            continue;
        }
        let f = |what: &str| format!("object #{}: {} changed", i, what);
        ensure!(a.name == b.name, "{}", f("the name"));
        let cut = |o: &obj::Object| obj::Object {
            name: String::new(),
            vertex_set: o.vertex_set.iter().take(a.vertex_set.len()).cloned().collect(),
            texture_vertex_set: o.texture_vertex_set.iter().take(a.texture_vertex_set.len()).cloned().collect(),
            normal_vertex_set: o.normal_vertex_set.iter().take(a.normal_vertex_set.len()).cloned().collect(),
            group_set: o.group_set.iter().take(a.group_set.len()).cloned().collect(),
            smoothing_group_set: o.smoothing_group_set.iter().take(a.smoothing_group_set.len()).cloned().collect(),
            element_set: o.element_set.iter().take(a.element_set.len()).cloned().collect(),
            shape_set: vec![],
            geometry_set: vec![],
        };
        same_object(&cut(a), &cut(b)).map_err(|e| format!("object #{} changed: {}", i, e))?;
        ensure!(b.shape_set.len() >= a.shape_set.len(), "{}", f("the number of shapes"));
        for (k, (s, t)) in a.shape_set.iter().zip(&b.shape_set).enumerate() {
            let names = |o: &obj::Object, s: &obj::ShapeEntry| -> Vec<Option<obj::Group>> {
                s.groups.iter().map(|&g| o.group_set.get(g).cloned()).collect()
            };
            ensure!(
                s.element == t.element
                    && names(a, s) == names(b, t)
                    && a.smoothing_group_set.get(s.smoothing_group) == b.smoothing_group_set.get(t.smoothing_group),
                "object #{}: shape #{} changed: {:?} / {:?}",
                i,
                k,
                s,
                t
            );
        }
        let mats = |o: &obj::Object| -> Vec<Option<Option<String>>> {
            let mut m = vec![None; o.element_set.len()];
            for g in &o.geometry_set {
                for &s in &g.shapes {
                    if s < m.len() {
                        m[s] = Some(g.material_name.clone());
                    }
                }
            }
            m
        };
        let (m, n) = (mats(a), mats(b));
        ensure!(m[..] == n[..m.len()], "{}", f("an element's material"));
        // The same geometries in the same order; the last one may have grown.
        let geos = |o: &obj::Object| -> Vec<(Option<String>, Vec<usize>)> {
            o.geometry_set
                .iter()
                .map(|g| (g.material_name.clone(), g.shapes.iter().copied().filter(|&s| s < m.len()).collect::<Vec<_>>()))
                .filter(|g| !g.1.is_empty())
                .collect()
        };
        ensure!(geos(a) == geos(b), "{}: {:?} / {:?}", f("the geometries"), shorten(&format!("{:?}", geos(a))), shorten(&format!("{:?}", geos(b))));
    }
    Ok(())
}

fn c20() -> Prop {
    let mut p = Prop {
        id: "C20",
        families: vec![],
        rule: "both parts have statements: two joined files, or a proper prefix of a file",
    };
    p.random("joined OBJ files", 60_000, |src, case| {
        let a = obj_file(src, &STATEFUL, 10);
        let b = obj_tail(src, &NEUTRAL, 10);
        check_join(&a, &b, case, "join")
    });
    p.random("joined files with many references", 40_000, |src, case| {
        let a = obj_file(src, &INDEXED, 10);
        let b = obj_tail(src, &INDEXED, 10);
        check_join(&a, &b, case, "join")
    });
    p.random("joined large OBJ files", 200, |src, case| {
        let (a, label) = obj_scale(src, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 17]);
        let b = obj_tail(src, &INDEXED, 10);
        check_join(&a, &b, case, &label)
    });
    p.random("joined MTL files", 60_000, |src, case| {
        let a = mtl_file(src, 4);
        let b = mtl_file(src, 4);
        let (ta, tb) = (plain(&a.lines()).text, plain(&b.lines()).text);
        let joined = ta.clone() + &tb;
        case.set("join mtl", !a.mats.is_empty() && !b.mats.is_empty(), &joined);
        let (x, y, z) = (parse_valid_mtl(&ta)?, parse_valid_mtl(&tb)?, parse_valid_mtl(&joined)?);
        let want = mtl::MaterialSet { materials: x.materials.iter().chain(&y.materials).cloned().collect() };
        same_mtl(&want, &z)
    });
    p.random("joined large MTL files", 150, |src, case| {
        let (a, label) = mtl_scale(src);
        let b = mtl_file(src, 4);
        let (ta, tb) = (plain(&a.lines()).text, plain(&b.lines()).text);
        let joined = ta.clone() + &tb;
        case.set(&label, !b.mats.is_empty(), &joined);
        let (x, y, z) = (parse_valid_mtl(&ta)?, parse_valid_mtl(&tb)?, parse_valid_mtl(&joined)?);
        let want = mtl::MaterialSet { materials: x.materials.iter().chain(&y.materials).cloned().collect() };
        same_mtl(&want, &z)
    });
    p.random("OBJ prefixes", 80_000, |src, case| {
        let file = if src.chance(1, 2) { obj_file(src, &STATEFUL, 14) } else { obj_file(src, &NEUTRAL, 14) };
        let lines = file.lines([0; 3]);
        let k = file.libs.len() + src.usize(file.stmts.len() + 1);
        let (s, l) = (plain(&lines[..k]).text, plain(&lines).text);
        case.set("prefix", k > file.libs.len() && k < lines.len(), &format!("{}=== then\n{}", s, &l[s.len()..]));
        check_extends(&parse_valid(&s)?, &parse_valid(&l)?)
    });
    p.random("prefixes of large OBJ files", 200, |src, case| {
        let (file, label) = obj_scale(src, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 17]);
        let lines = file.lines([0; 3]);
        let k = file.libs.len() + src.usize(file.stmts.len() + 1);
        let (s, l) = (plain(&lines[..k]).text, plain(&lines).text);
        case.set(&label, k > file.libs.len() && k < lines.len(), &l);
        check_extends(&parse_valid(&s)?, &parse_valid(&l)?)
    });
    p.random("MTL prefixes", 60_000, |src, case| {
        let file = mtl_file(src, 6);
        let lines = file.lines();
        let k = src.usize(lines.len() + 1);
        let (s, l) = (plain(&lines[..k]).text, plain(&lines).text);
        case.set("prefix mtl", k > 0 && k < lines.len(), &format!("{}=== then\n{}", s, &l[s.len()..]));
        let (x, y) = (parse_valid_mtl(&s)?, parse_valid_mtl(&l)?);
        ensure!(y.materials.len() >= x.materials.len(), "{} materials became {}", x.materials.len(), y.materials.len());
        for (i, (a, b)) in x.materials.iter().zip(&y.materials).enumerate() {
            // Attributes that the appended part sets again may change.
            let mut b = b.clone();
            if i + 1 == x.materials.len() {
                for l in &lines[k..] {
                    match l[0].as_str() {
                        "newmtl" => break,
                        "Ka" => b.color_ambient = a.color_ambient,
                        "Kd" => b.color_diffuse = a.color_diffuse,
                        "Ks" => b.color_specular = a.color_specular,
                        "Ke" => b.color_emissive = a.color_emissive,
                        "Ns" => b.specular_exponent = a.specular_exponent,
                        "d" => b.dissolve = a.dissolve,
                        "Ni" => b.optical_density = a.optical_density,
                        "illum" => b.illumination_model = a.illumination_model,
                        "map_Ka" => b.map_ambient = a.map_ambient.clone(),
                        "map_Kd" => b.map_diffuse = a.map_diffuse.clone(),
                        "map_Ks" => b.map_specular = a.map_specular.clone(),
                        "map_Ke" => b.map_emissive = a.map_emissive.clone(),
                        "map_Ns" => b.map_specular_exponent = a.map_specular_exponent.clone(),
                        "map_Bump" | "bump" => b.map_bump = a.map_bump.clone(),
                        "disp" => b.map_displacement = a.map_displacement.clone(),
                        "map_d" => b.map_dissolve = a.map_dissolve.clone(),
                        _ => b.map_decal = a.map_decal.clone(),
                    }
                }
            }
            same_material(a, &b).map_err(|e| format!("material #{} changed by appended statements: {}", i, e))?;
        }
        Ok(())
    });
    p.sequences("all short statement sequences and their prefixes", STATE_ALPHABET.len(), 4, 5, |seq, case| {
        let l = join_lines(&STATE_ALPHABET, seq);
        case.set("sequence", seq.len() > 1, &l);
        let long = parse_valid(&l)?;
        for k in 0..seq.len() {
            let s = join_lines(&STATE_ALPHABET, &seq[..k]);
            check_extends(&parse_valid(&s)?, &long).map_err(|e| format!("prefix of {} parts: {}", k, e))?;
        }
        Ok(())
    });
    p
}

// ------------------------------------------------------------------- equality

/// `==` and `!=` both ways round.
fn compared<T: PartialEq>(what: &str, a: &T, b: &T, want: bool) -> R {
    let r = guarded("comparing", || (a == b, b == a, a != b, b != a))?;
    ensure!(
        r == (want, want, !want, !want),
        "{}: expected {}, but a == b, b == a, a != b, b != a are {:?}",
        what,
        if want { "equal" } else { "different" },
        r
    );
    Ok(())
}

/// Another number: the next double, the negated one, or any.
fn other_num(src: &mut Src, v: f64) -> f64 {
    let c = match src.usize(4) {
        0 => f64::from_bits(v.to_bits() ^ 1),
        1 => -v,
        2 => f64::from_bits(v.to_bits().wrapping_add(1 << 52)),
        _ => num(src, true).val,
    };
    if c != v && c.is_finite() {
        c
    } else if v == 0.0 {
        5e-324
    } else {
        0.0
    }
}

fn other_index(src: &mut Src, v: usize) -> usize {
    let c = match src.usize(4) {
        0 => v ^ 1,
        1 => v.wrapping_add(1 << 32),
        2 => v.wrapping_add(256),
        _ => any_index(src),
    };
    if c != v {
        c
    } else {
        v ^ 1
    }
}

fn other_word(src: &mut Src, v: &str) -> String {
    let c = match src.usize(5) {
        0 => format!("{}x", v),
        1 => v.to_uppercase(),
        2 => v.chars().rev().collect(),
        3 => v.chars().skip(1).collect(),
        _ => word(src),
    };
    if c != v {
        c
    } else {
        format!("{}y", v)
    }
}

fn other_vtn(src: &mut Src, v: obj::VTNIndex) -> obj::VTNIndex {
    use obj::VTNIndex::*;
    let (form, mut idx) = vtn_key(&v);
    if src.chance(1, 3) {
        // The same numbers in another form.
        let k = (form as usize + 1 + src.usize(3)) % 4;
        return [V(idx[0]), VT(idx[0], idx[1]), VN(idx[0], idx[2]), VTN(idx[0], idx[1], idx[2])][k];
    }
    let used: &[usize] = [&[0][..], &[0, 1], &[0, 2], &[0, 1, 2]][form as usize];
    let k = *src.pick(used);
    idx[k] = other_index(src, idx[k]);
    [V(idx[0]), VT(idx[0], idx[1]), VN(idx[0], idx[2]), VTN(idx[0], idx[1], idx[2])][form as usize]
}

fn other_element(src: &mut Src, e: obj::Element) -> obj::Element {
    use obj::Element::*;
    let (kind, mut v) = elem_vtns(&e);
    if src.chance(1, 4) {
        return match kind {
            'p' => Line(v[0], v[0]),
            'l' => Face(v[0], v[1], v[1]),
            _ => {
                if src.chance(1, 2) {
                    Line(v[0], v[1])
                } else {
                    Point(v[0])
                }
            }
        };
    }
    let k = src.usize(v.len());
    if src.chance(1, 3) && v.len() > 1 && vtn_key(&v[0]) != vtn_key(&v[v.len() - 1]) {
        let last = v.len() - 1;
        v.swap(0, last);
    } else {
        v[k] = other_vtn(src, v[k]);
    }
    match kind {
        'p' => Point(v[0]),
        'l' => Line(v[0], v[1]),
        _ => Face(v[0], v[1], v[2]),
    }
}

/// Changes a list in one place: an entry changed, appended, inserted or
/// removed. The result differs from the original.
fn other_list<T: Clone>(
    src: &mut Src,
    list: &mut Vec<T>,
    fresh: impl Fn(&mut Src) -> T,
    other: impl Fn(&mut Src, &T) -> T,
) -> &'static str {
    if list.is_empty() || src.chance(1, 6) {
        let v = fresh(src);
        list.push(v);
        return "appended";
    }
    match src.weighted(&[4, 1, 1]) {
        0 => {
            let i = match src.usize(3) {
                0 => 0,
                1 => list.len() - 1,
                _ => src.usize(list.len()),
            };
            list[i] = other(src, &list[i].clone());
            "changed"
        }
        1 => {
            list.pop();
            "removed"
        }
        _ => {
            let v = fresh(src);
            list.insert(0, v);
            "inserted"
        }
    }
}

fn any_shape(src: &mut Src) -> obj::ShapeEntry {
    obj::ShapeEntry { element: any_index(src), groups: list(src, false, any_index), smoothing_group: any_index(src) }
}

fn any_geometry(src: &mut Src) -> obj::Geometry {
    obj::Geometry {
        material_name: if src.chance(1, 3) { None } else { Some(word(src)) },
        shapes: list(src, false, any_index),
    }
}

fn other_shape(src: &mut Src, e: &obj::ShapeEntry) -> obj::ShapeEntry {
    let mut e = obj::ShapeEntry { element: e.element, groups: e.groups.clone(), smoothing_group: e.smoothing_group };
    match src.usize(3) {
        0 => e.element = other_index(src, e.element),
        1 => {
            other_list(src, &mut e.groups, any_index, |s, v| other_index(s, *v));
        }
        _ => e.smoothing_group = other_index(src, e.smoothing_group),
    }
    e
}

fn other_name(src: &mut Src, m: &Option<String>) -> Option<String> {
    match m {
        None => Some(if src.chance(1, 3) { String::new() } else { word(src) }),
        Some(_) if src.chance(1, 3) => None,
        Some(n) => Some(other_word(src, n)),
    }
}

fn other_geometry(src: &mut Src, g: &obj::Geometry) -> obj::Geometry {
    let mut g = obj::Geometry { material_name: g.material_name.clone(), shapes: g.shapes.clone() };
    if src.chance(1, 2) {
        g.material_name = other_name(src, &g.material_name);
    } else {
        other_list(src, &mut g.shapes, any_index, |s, v| other_index(s, *v));
    }
    g
}

fn other_vertex(src: &mut Src, v: &obj::Vertex) -> obj::Vertex {
    let mut c = [v.x, v.y, v.z, v.w];
    let k = src.usize(4);
    c[k] = other_num(src, c[k]);
    obj::Vertex { x: c[0], y: c[1], z: c[2], w: c[3] }
}

fn other_texture(src: &mut Src, v: &obj::TextureVertex) -> obj::TextureVertex {
    let mut c = [v.u, v.v, v.w];
    let k = src.usize(3);
    c[k] = other_num(src, c[k]);
    obj::TextureVertex { u: c[0], v: c[1], w: c[2] }
}

fn other_normal(src: &mut Src, v: &obj::NormalVertex) -> obj::NormalVertex {
    let mut c = [v.x, v.y, v.z];
    let k = src.usize(3);
    c[k] = other_num(src, c[k]);
    obj::NormalVertex { x: c[0], y: c[1], z: c[2] }
}

/// Changes one thing in an object.
fn change_object(src: &mut Src, o: &mut obj::Object) -> String {
    let n3 = |s: &mut Src| [num(s, true).val, num(s, true).val, num(s, true).val];
    let (field, how) = match src.usize(9) {
        0 => {
            o.name = other_word(src, &o.name);
            ("name", "changed")
        }
        1 => ("positions", other_list(src, &mut o.vertex_set, |s| { let c = n3(s); obj::Vertex { x: c[0], y: c[1], z: c[2], w: 1.0 } }, other_vertex)),
        2 => ("texture coordinates", other_list(src, &mut o.texture_vertex_set, |s| { let c = n3(s); obj::TextureVertex { u: c[0], v: c[1], w: c[2] } }, other_texture)),
        3 => ("normals", other_list(src, &mut o.normal_vertex_set, |s| { let c = n3(s); obj::NormalVertex { x: c[0], y: c[1], z: c[2] } }, other_normal)),
        4 => ("groups", other_list(src, &mut o.group_set, |s| obj::Group(word(s)), |s, g| obj::Group(other_word(s, &g.0)))),
        5 => ("smoothing groups", other_list(src, &mut o.smoothing_group_set, |s| obj::SmoothingGroup(any_index(s)), |s, g| obj::SmoothingGroup(other_index(s, g.0)))),
        6 => ("elements", other_list(src, &mut o.element_set, any_element, |s, e| other_element(s, *e))),
        7 => ("shape entries", other_list(src, &mut o.shape_set, any_shape, other_shape)),
        _ => ("geometries", other_list(src, &mut o.geometry_set, any_geometry, other_geometry)),
    };
    format!("{} {}", field, how)
}

/// A copy made field by field, not by the library's clone.
fn rebuilt(o: &obj::Object) -> obj::Object {
    obj::Object {
        name: o.name.clone(),
        vertex_set: o.vertex_set.iter().map(|v| obj::Vertex { x: v.x, y: v.y, z: v.z, w: v.w }).collect(),
        texture_vertex_set: o.texture_vertex_set.iter().map(|v| obj::TextureVertex { u: v.u, v: v.v, w: v.w }).collect(),
        normal_vertex_set: o.normal_vertex_set.iter().map(|v| obj::NormalVertex { x: v.x, y: v.y, z: v.z }).collect(),
        group_set: o.group_set.iter().map(|g| obj::Group(g.0.clone())).collect(),
        smoothing_group_set: o.smoothing_group_set.iter().map(|g| obj::SmoothingGroup(g.0)).collect(),
        element_set: o.element_set.iter().map(|e| rebuilt_element(e)).collect(),
        shape_set: o
            .shape_set
            .iter()
            .map(|e| obj::ShapeEntry { element: e.element, groups: e.groups.clone(), smoothing_group: e.smoothing_group })
            .collect(),
        geometry_set: o
            .geometry_set
            .iter()
            .map(|g| obj::Geometry { material_name: g.material_name.clone(), shapes: g.shapes.clone() })
            .collect(),
    }
}

fn rebuilt_element(e: &obj::Element) -> obj::Element {
    use obj::VTNIndex::*;
    let v: Vec<obj::VTNIndex> = elem_vtns(e)
        .1
        .iter()
        .map(|v| {
            let (f, i) = vtn_key(v);
            [V(i[0]), VT(i[0], i[1]), VN(i[0], i[2]), VTN(i[0], i[1], i[2])][f as usize]
        })
        .collect();
    match elem_vtns(e).0 {
        'p' => obj::Element::Point(v[0]),
        'l' => obj::Element::Line(v[0], v[1]),
        _ => obj::Element::Face(v[0], v[1], v[2]),
    }
}

fn full_object(src: &mut Src, large: bool) -> obj::Object {
    let mut o = any_object(src, true, large);
    let many = large && src.chance(1, 6);
    o.shape_set = list(src, many, any_shape);
    let many = large && src.chance(1, 6);
    o.geometry_set = list(src, many, any_geometry);
    o
}

fn any_material(src: &mut Src) -> mtl::Material {
    fn color(src: &mut Src) -> mtl::Color {
        mtl::Color { r: num(src, true).val, g: num(src, true).val, b: num(src, true).val }
    }
    fn map(src: &mut Src) -> Option<String> {
        src.chance(1, 2).then(|| word(src))
    }
    mtl::Material {
        name: word(src),
        color_ambient: color(src),
        color_diffuse: color(src),
        color_specular: color(src),
        color_emissive: color(src),
        specular_exponent: num(src, true).val,
        dissolve: num(src, true).val,
        optical_density: src.chance(1, 2).then(|| num(src, true).val),
        illumination_model: *src.pick(&ILLUMS),
        map_ambient: map(src),
        map_diffuse: map(src),
        map_specular: map(src),
        map_emissive: map(src),
        map_specular_exponent: map(src),
        map_bump: map(src),
        map_displacement: map(src),
        map_dissolve: map(src),
        map_decal: map(src),
    }
}

const ILLUMS: [mtl::IlluminationModel; 3] = [
    mtl::IlluminationModel::Ambient,
    mtl::IlluminationModel::AmbientDiffuse,
    mtl::IlluminationModel::AmbientDiffuseSpecular,
];

fn rebuilt_material(m: &mtl::Material) -> mtl::Material {
    let c = |c: &mtl::Color| mtl::Color { r: c.r, g: c.g, b: c.b };
    mtl::Material {
        name: m.name.clone(),
        color_ambient: c(&m.color_ambient),
        color_diffuse: c(&m.color_diffuse),
        color_specular: c(&m.color_specular),
        color_emissive: c(&m.color_emissive),
        specular_exponent: m.specular_exponent,
        dissolve: m.dissolve,
        optical_density: m.optical_density,
        illumination_model: ILLUMS[illum_number(m.illumination_model)],
        map_ambient: m.map_ambient.clone(),
        map_diffuse: m.map_diffuse.clone(),
        map_specular: m.map_specular.clone(),
        map_emissive: m.map_emissive.clone(),
        map_specular_exponent: m.map_specular_exponent.clone(),
        map_bump: m.map_bump.clone(),
        map_displacement: m.map_displacement.clone(),
        map_dissolve: m.map_dissolve.clone(),
        map_decal: m.map_decal.clone(),
    }
}

/// Changes one thing in a material.
fn change_material(src: &mut Src, m: &mut mtl::Material) -> String {
    let k = src.usize(17);
    match k {
        0 => m.name = other_word(src, &m.name),
        1..=4 => {
            let c = match k {
                1 => &mut m.color_ambient,
                2 => &mut m.color_diffuse,
                3 => &mut m.color_specular,
                _ => &mut m.color_emissive,
            };
            let v = match src.usize(3) {
                0 => &mut c.r,
                1 => &mut c.g,
                _ => &mut c.b,
            };
            *v = other_num(src, *v);
        }
        5 => m.specular_exponent = other_num(src, m.specular_exponent),
        6 => m.dissolve = other_num(src, m.dissolve),
        7 => {
            m.optical_density = match m.optical_density {
                None => Some(num(src, true).val),
                Some(_) if src.chance(1, 3) => None,
                Some(v) => Some(other_num(src, v)),
            }
        }
        8 => {
            let i = illum_number(m.illumination_model);
            m.illumination_model = ILLUMS[(i + 1 + src.usize(2)) % 3];
        }
        _ => {
            let f = match k - 9 {
                0 => {
                    if src.chance(1, 2) {
                        &mut m.map_ambient
                    } else {
                        &mut m.map_decal
                    }
                }
                1 => &mut m.map_diffuse,
                2 => &mut m.map_specular,
                3 => &mut m.map_emissive,
                4 => &mut m.map_specular_exponent,
                5 => &mut m.map_bump,
                6 => &mut m.map_displacement,
                _ => &mut m.map_dissolve,
            };
            *f = other_name(src, f);
        }
    }
    format!("field {}", k)
}

fn c21() -> Prop {
    let mut p = Prop {
        id: "C21",
        families: vec![],
        rule: "the compared values are not empty",
    };
    fn object_case(src: &mut Src, case: &mut Case, large: bool) -> R {
        let o = full_object(src, large);
        let same = rebuilt(&o);
        let mut other = rebuilt(&o);
        let what = change_object(src, &mut other);
        case.set("object", true, &if large { format!("{} in {}", what, shorten(&format!("{:?}", o))) } else { format!("{} in {:?}", what, o) });
        compared("an object and its rebuilt copy", &o, &same, true)?;
        compared(&what, &o, &other, false)?;
        let clone = guarded("clone", || other.clone())?;
        same_object(&clone, &other).map_err(|e| format!("a clone differs: {}", e))?;
        // In sets: the same object elsewhere, more or fewer of them.
        let pre = src.usize(3);
        let mut objects: Vec<obj::Object> = (0..pre).map(|_| any_object(src, false, false)).collect();
        objects.push(o);
        let libs = list(src, false, word);
        let a = obj::ObjectSet { material_libraries: libs.clone(), objects };
        let mut b = obj::ObjectSet { material_libraries: libs, objects: a.objects.iter().map(rebuilt).collect() };
        compared("an object set and its rebuilt copy", &a, &b, true)?;
        match src.usize(4) {
            0 => {
                b.objects.pop();
            }
            1 => {
                other_list(src, &mut b.material_libraries, word, |s, w| other_word(s, w));
            }
            _ => {
                b.objects.pop();
                b.objects.push(other);
            }
        }
        compared("an object set and a changed one", &a, &b, false)?;
        let clone = guarded("clone", || b.clone())?;
        same_set(&clone, &b).map_err(|e| format!("a clone differs: {}", e))
    }
    p.random("objects differing in one place", 90_000, |src, case| object_case(src, case, false));
    p.random("large objects differing in one place", 600, |src, case| object_case(src, case, true));
    p.random("single values", 120_000, |src, case| {
        macro_rules! pair {
            ($what:expr, $a:expr, $same:expr, $b:expr, $key:expr) => {{
                let (a, same, b) = ($a, $same, $b);
                case.set($what, true, &format!("{:?} / {:?}", a, b));
                compared($what, &a, &same, true)?;
                compared($what, &a, &b, false)?;
                #[allow(clippy::clone_on_copy)]
                let c = guarded("clone", || b.clone())?;
                ensure!($key(&c) == $key(&b), "a clone of {:?} is {:?}", b, c);
            }};
        }
        let bits = |c: &[f64]| c.iter().map(|v| v.to_bits()).collect::<Vec<_>>();
        match src.usize(13) {
            11 => {
                let a = obj::Shape {
                    element: any_element(src),
                    groups: list(src, false, |s| obj::Group(word(s))),
                    smoothing_groups: list(src, false, |s| obj::SmoothingGroup(any_index(s))),
                };
                let same = obj::Shape {
                    element: rebuilt_element(&a.element),
                    groups: a.groups.iter().map(|g| obj::Group(g.0.clone())).collect(),
                    smoothing_groups: a.smoothing_groups.iter().map(|g| obj::SmoothingGroup(g.0)).collect(),
                };
                let mut b = obj::Shape { element: a.element, groups: same.groups.clone(), smoothing_groups: same.smoothing_groups.clone() };
                match src.usize(3) {
                    0 => b.element = other_element(src, a.element),
                    1 => {
                        other_list(src, &mut b.groups, |s| obj::Group(word(s)), |s, g| obj::Group(other_word(s, &g.0)));
                    }
                    _ => {
                        other_list(src, &mut b.smoothing_groups, |s| obj::SmoothingGroup(any_index(s)), |s, g| obj::SmoothingGroup(other_index(s, g.0)));
                    }
                }
                pair!("shape", a, same, b, |s: &obj::Shape| (
                    elem_key(&s.element),
                    s.groups.iter().map(|g| g.0.clone()).collect::<Vec<_>>(),
                    s.smoothing_groups.iter().map(|g| g.0).collect::<Vec<_>>()
                ));
            }
            12 => {
                // Triples of references: equal values are equal wherever they lie.
                let v = obj::Vertex { x: num(src, true).val, y: num(src, true).val, z: num(src, true).val, w: num(src, true).val };
                let t = obj::TextureVertex { u: num(src, true).val, v: num(src, true).val, w: num(src, true).val };
                let n = obj::NormalVertex { x: num(src, true).val, y: num(src, true).val, z: num(src, true).val };
                let (v2, t2, n2) = (obj::Vertex { ..v }, obj::TextureVertex { ..t }, obj::NormalVertex { ..n });
                let (v3, t3, n3) = (other_vertex(src, &v), other_texture(src, &t), other_normal(src, &n));
                fn triple<'a>(f: usize, v: &'a obj::Vertex, t: &'a obj::TextureVertex, n: &'a obj::NormalVertex) -> obj::VTNTriple<'a> {
                    match f {
                        0 => obj::VTNTriple::V(v),
                        1 => obj::VTNTriple::VT(v, t),
                        2 => obj::VTNTriple::VN(v, n),
                        _ => obj::VTNTriple::VTN(v, t, n),
                    }
                }
                let f = src.usize(4);
                let a = triple(f, &v, &t, &n);
                let b = match src.usize(4) {
                    0 => triple((f + 1 + src.usize(3)) % 4, &v2, &t2, &n2),
                    1 if f % 2 == 1 => triple(f, &v2, &t3, &n2),
                    2 if f >= 2 => triple(f, &v2, &t2, &n3),
                    _ => triple(f, &v3, &t2, &n2),
                };
                pair!("triple", a, triple(f, &v2, &t2, &n2), b, |t: &obj::VTNTriple| format!("{:?}", t));
            }
            0 => {
                let a = obj::Vertex { x: num(src, true).val, y: num(src, true).val, z: num(src, true).val, w: num(src, true).val };
                pair!("position", a, obj::Vertex { x: a.x, y: a.y, z: a.z, w: a.w }, other_vertex(src, &a), |v: &obj::Vertex| bits(&[v.x, v.y, v.z, v.w]));
            }
            1 => {
                let a = obj::TextureVertex { u: num(src, true).val, v: num(src, true).val, w: num(src, true).val };
                pair!("texture coordinate", a, obj::TextureVertex { u: a.u, v: a.v, w: a.w }, other_texture(src, &a), |v: &obj::TextureVertex| bits(&[v.u, v.v, v.w]));
            }
            2 => {
                let a = obj::NormalVertex { x: num(src, true).val, y: num(src, true).val, z: num(src, true).val };
                pair!("normal", a, obj::NormalVertex { x: a.x, y: a.y, z: a.z }, other_normal(src, &a), |v: &obj::NormalVertex| bits(&[v.x, v.y, v.z]));
            }
            3 => {
                let f = FORMS[src.usize(4)];
                let a = any_vtn(src, f);
                let same = match rebuilt_element(&obj::Element::Point(a)) {
                    obj::Element::Point(v) => v,
                    _ => a,
                };
                pair!("index", a, same, other_vtn(src, a), vtn_key);
            }
            4 => {
                let a = any_element(src);
                pair!("element", a, rebuilt_element(&a), other_element(src, a), elem_key);
            }
            5 => {
                let w = word(src);
                pair!("group", obj::Group(w.clone()), obj::Group(w.clone()), obj::Group(other_word(src, &w)), |g: &obj::Group| g.0.clone());
            }
            6 => {
                let v = any_index(src);
                pair!("smoothing group", obj::SmoothingGroup(v), obj::SmoothingGroup(v), obj::SmoothingGroup(other_index(src, v)), |g: &obj::SmoothingGroup| g.0);
            }
            7 => {
                let a = any_shape(src);
                let same = obj::ShapeEntry { element: a.element, groups: a.groups.clone(), smoothing_group: a.smoothing_group };
                let b = other_shape(src, &a);
                pair!("shape entry", a, same, b, |s: &obj::ShapeEntry| (s.element, s.groups.clone(), s.smoothing_group));
            }
            8 => {
                let a = any_geometry(src);
                let same = obj::Geometry { material_name: a.material_name.clone(), shapes: a.shapes.clone() };
                let b = other_geometry(src, &a);
                pair!("geometry", a, same, b, |g: &obj::Geometry| (g.material_name.clone(), g.shapes.clone()));
            }
            9 => {
                let c = [num(src, true).val, num(src, true).val, num(src, true).val];
                let mut d = c;
                let k = src.usize(3);
                d[k] = other_num(src, c[k]);
                let (a, b) = (mtl::Color { r: c[0], g: c[1], b: c[2] }, mtl::Color { r: d[0], g: d[1], b: d[2] });
                pair!("colour", a, mtl::Color { r: c[0], g: c[1], b: c[2] }, b, |v: &mtl::Color| bits(&[v.r, v.g, v.b]));
                let e = if src.chance(1, 2) { d } else { [num(src, false).val, c[1], d[2]] };
                let b = mtl::Color { r: e[0], g: e[1], b: e[2] };
                let got = guarded("comparing", || (a.partial_cmp(&b), a < b, a > b, a <= b, a >= b))?;
                let want = (c.partial_cmp(&e), c < e, c > e, c <= e, c >= e);
                ensure!(got == want, "ordering {:?} and {:?} gives {:?}", a, b, got);
            }
            _ => {
                let (i, j) = (src.usize(3), src.usize(3));
                let (a, b) = (ILLUMS[i], ILLUMS[j]);
                case.set("illumination model", true, &format!("{:?} / {:?}", a, b));
                compared("illumination model", &a, &b, i == j)?;
                let got = guarded("comparing", || (a.cmp(&b), a.partial_cmp(&b), a < b, a > b))?;
                ensure!(got == (i.cmp(&j), Some(i.cmp(&j)), i < j, i > j), "ordering {:?} and {:?} gives {:?}", a, b, got);
            }
        }
        Ok(())
    });
    p.random("materials differing in one place", 120_000, |src, case| {
        let a = any_material(src);
        let mut b = rebuilt_material(&a);
        case.set("material", true, &format!("{:?}", a));
        compared("a material and its rebuilt copy", &a, &b, true)?;
        let what = change_material(src, &mut b);
        compared(&what, &a, &b, false)?;
        let clone = guarded("clone", || b.clone())?;
        same_material(&clone, &b).map_err(|e| format!("a clone differs: {}", e))?;
        let pre: Vec<mtl::Material> = (0..src.usize(3)).map(|_| any_material(src)).collect();
        let set = |last: Option<&mtl::Material>| mtl::MaterialSet {
            materials: pre.iter().chain(last).map(rebuilt_material).collect(),
        };
        let (x, y) = (set(Some(&a)), set(Some(&b)));
        compared("material sets", &x, &set(Some(&a)), true)?;
        compared("material sets", &x, &y, false)?;
        compared("material sets of different lengths", &x, &set(None), false)?;
        let clone = guarded("clone", || y.clone())?;
        same_mtl(&clone, &y).map_err(|e| format!("a clone differs: {}", e))
    });
    p.random("parsed results and errors", 60_000, |src, case| {
        if src.chance(1, 2) {
            let (t, u) = (obj_text(src).0, obj_text(src).0);
            case.set("obj results", !t.is_empty(), &format!("{}\n=== and ===\n{}", t, u));
            let (a, b, c) = (obj_parse(&t)?, obj_parse(&t)?, obj_parse(&u)?);
            match (&a, &b) {
                // Not a number is not equal to itself.
                (Ok(x), Ok(_)) if format!("{:?}", x).contains("NaN") => return Ok(()),
                (Ok(x), Ok(y)) => compared("one text twice", x, y, true)?,
                (Err(x), Err(y)) => compared("one text twice", x, y, true)?,
                _ => return Err("one text parses once and not again".to_owned()),
            }
            match (&a, &c) {
                (Ok(x), Ok(y)) => {
                    // -0 and 0 are equal numbers but different bits.
                    if same_set(x, y).is_ok() {
                        compared("same results", x, y, true)?;
                    } else if format!("{:?}", x).replace("-0.0", "0.0") != format!("{:?}", y).replace("-0.0", "0.0") {
                        compared("different results", x, y, false)?;
                    }
                }
                (Err(x), Err(y)) => {
                    let kinds = (format!("{:?}", x.kind), format!("{:?}", y.kind));
                    compared("error kinds", &x.kind, &y.kind, kinds.0 == kinds.1)?;
                    let same = x.line_number == y.line_number && x.message == y.message && kinds.0 == kinds.1;
                    compared("errors", x, y, same)?;
                    let z = guarded("clone", || x.clone())?;
                    ensure!(format!("{:?}", z) == format!("{:?}", x), "a clone of the error differs");
                    let moved = obj::ParseError { line_number: x.line_number ^ 1, kind: x.kind.clone(), message: x.message.clone() };
                    compared("errors on different lines", x, &moved, false)?;
                }
                _ => {}
            }
        } else {
            let (t, u) = (mtl_text(src).0, mtl_text(src).0);
            case.set("mtl results", !t.is_empty(), &format!("{}\n=== and ===\n{}", t, u));
            let (a, b, c) = (mtl_parse(&t)?, mtl_parse(&t)?, mtl_parse(&u)?);
            match (&a, &b) {
                // Not a number is not equal to itself.
                (Ok(x), Ok(_)) if format!("{:?}", x).contains("NaN") => return Ok(()),
                (Ok(x), Ok(y)) => compared("one text twice", x, y, true)?,
                (Err(x), Err(y)) => compared("one text twice", x, y, true)?,
                _ => return Err("one text parses once and not again".to_owned()),
            }
            match (&a, &c) {
                (Ok(x), Ok(y)) if same_mtl(x, y).is_ok() => compared("same results", x, y, true)?,
                (Err(x), Err(y)) => {
                    compared("errors", x, y, format!("{:?} {}", x, x) == format!("{:?} {}", y, y))?;
                    let z = guarded("clone", || x.clone())?;
                    ensure!(format!("{:?}{}", z, z) == format!("{:?}{}", x, x), "a clone of the error differs");
                }
                _ => {}
            }
        }
        Ok(())
    });
    p.random("defaults", 50, |_, case| {
        case.set("defaults", true, "defaults");
        let (g, s, o) = guarded("defaults", || (obj::Group::default(), obj::SmoothingGroup::default(), obj::Object::default()))?;
        ensure!(g.0 == "default" && s.0 == 0, "the defaults are {:?} and {:?}", g, s);
        let empty = obj::Object {
            name: String::new(),
            vertex_set: vec![],
            texture_vertex_set: vec![],
            normal_vertex_set: vec![],
            group_set: vec![],
            smoothing_group_set: vec![],
            element_set: vec![],
            shape_set: vec![],
            geometry_set: vec![],
        };
        same_object(&o, &empty)
    });
    p
}

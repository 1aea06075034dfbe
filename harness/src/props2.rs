//! More metamorphic properties: statements that do not affect each other
//! commute (C23), names mean nothing (C24), errors are local (C25).

use crate::gen::*;
use crate::imp::*;
use crate::layout::*;
use crate::model::*;
use crate::props::*;
use crate::soup::*;
use crate::src::{Rng, Src};
use std::collections::{HashMap, HashSet};
use wavefront_obj::{mtl, obj};

macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

// ------------------------------------------------------------ commuting (C23)

#[derive(Clone, Copy, PartialEq, Eq)]
enum Class {
    Data(usize),
    Elem,
    G,
    S,
    U,
    O,
}

fn class(st: &Stmt) -> Class {
    match st {
        Stmt::V(_) => Class::Data(0),
        Stmt::Vt(_) => Class::Data(1),
        Stmt::Vn(_) => Class::Data(2),
        Stmt::P(_) | Stmt::L(..) | Stmt::F(..) => Class::Elem,
        Stmt::G(_) => Class::G,
        Stmt::S(..) => Class::S,
        Stmt::U(_) => Class::U,
        Stmt::O(_) => Class::O,
    }
}

/// Whether the element refers to entry `i` of kind `k` of its object.
fn refers(st: &Stmt, k: usize, i: usize) -> bool {
    let (form, refs) = match st {
        Stmt::P(r) => (Form::V, r),
        Stmt::L(f, r) | Stmt::F(f, r) => (*f, r),
        _ => return false,
    };
    let used = k == 0 || (k == 1 && form.has_t()) || (k == 2 && form.has_n());
    used && refs.iter().any(|r| r.idx[k] == i)
}

/// Whether `a` followed by `b` means the same as `b` followed by `a`; `cnt`:
/// entries of the object before `a`.
fn commute(a: &Stmt, b: &Stmt, cnt: [usize; 3]) -> bool {
    match (class(a), class(b)) {
        (Class::O, _) | (_, Class::O) => false,
        (Class::Data(k), Class::Elem) => !refers(b, k, cnt[k]),
        (Class::Elem, Class::Data(_)) => true,
        (Class::Data(j), Class::Data(k)) => j != k,
        (Class::Data(_), _) | (_, Class::Data(_)) => true,
        (Class::Elem, _) | (_, Class::Elem) => false,
        (x, y) => x != y,
    }
}

/// Random swaps of neighbours; returns how many were made.
fn shuffle(rng: &mut Rng, file: &mut ObjFile, tries: usize) -> usize {
    let n = file.stmts.len();
    if n < 2 {
        return 0;
    }
    let mut done = 0;
    for _ in 0..tries {
        // A sweep in one direction carries statements far.
        let up = rng.below(2) == 0;
        let (mut cnts, mut base, mut cnt) = (Vec::with_capacity(n), [0; 3], [0; 3]);
        for st in &file.stmts {
            cnts.push(cnt);
            step(st, &mut base, &mut cnt);
        }
        let often = 1 + rng.below(4);
        let mut order: Vec<usize> = (0..n - 1).collect();
        if !up {
            order.reverse();
        }
        for i in order {
            if rng.below(4) >= often {
                continue;
            }
            if commute(&file.stmts[i], &file.stmts[i + 1], cnts[i]) {
                file.stmts.swap(i, i + 1);
                let (mut b, mut c) = ([0; 3], cnts[i]);
                step(&file.stmts[i], &mut b, &mut c);
                cnts[i + 1] = c;
                done += 1;
            }
        }
    }
    done
}

/// All data of an object first, in the order of kinds given by `rng`.
fn hoist(rng: &mut Rng, file: &mut ObjFile) -> usize {
    let mut out = vec![];
    let mut moved = 0;
    let mut i = 0;
    while i < file.stmts.len() {
        let mut j = i + 1;
        while j < file.stmts.len() && class(&file.stmts[j]) != Class::O {
            j += 1;
        }
        let part = &file.stmts[i..j];
        let (head, rest) = if class(&part[0]) == Class::O { part.split_at(1) } else { part.split_at(0) };
        out.extend(head.iter().cloned());
        let mut kinds = [0, 1, 2];
        kinds.swap(0, rng.below(3) as usize);
        kinds.swap(1, 1 + rng.below(2) as usize);
        let before = out.len();
        for k in kinds {
            out.extend(rest.iter().filter(|s| class(s) == Class::Data(k)).cloned());
        }
        out.extend(rest.iter().filter(|s| !matches!(class(s), Class::Data(_))).cloned());
        moved += out[before..].iter().zip(rest).filter(|(a, b)| class(a) != class(b)).count();
        i = j;
    }
    file.stmts = out;
    moved
}

fn reordered_obj(src: &mut Src, case: &mut Case, file: &ObjFile, label: &str) -> R {
    let mut other = file.clone();
    let how = src.usize(3);
    let mut rng = src.bulk();
    let moved = match how {
        0 => shuffle(&mut rng, &mut other, 1),
        1 => shuffle(&mut rng, &mut other, if file.stmts.len() > 2000 { 3 } else { 12 }),
        _ => hoist(&mut rng, &mut other),
    };
    let a = render(src, &file.lines([0; 3]), 1, true).text;
    let b = render(src, &other.lines([0; 3]), 1, true).text;
    case.set(label, moved > 0, &format!("{}=== reordered\n{}", a, b));
    let (x, y) = (parse_valid(&a)?, parse_valid(&b)?);
    same_set(&x, &y).map_err(|e| format!("the order of independent statements matters: {}", e))
}

fn attribute(st: &MStmt) -> usize {
    match st {
        MStmt::Color(k, _) => *k,
        MStmt::Scalar(k, _) => 4 + k,
        MStmt::Illum(..) => 7,
        MStmt::Map(k, _) => 8 + if *k == 9 { 5 } else { *k },
        MStmt::Tf(_) => 18,
    }
}

fn reordered_mtl(src: &mut Src, case: &mut Case, file: &MtlFile, label: &str) -> R {
    let mut other = file.clone();
    let mut rng = src.bulk();
    let mut moved = 0;
    for m in &mut other.mats {
        let sweeps = if m.stmts.len() > 2000 { 3 } else { 8 };
        for _ in 0..sweeps {
            for i in 1..m.stmts.len() {
                if rng.below(2) == 0 && attribute(&m.stmts[i - 1]) != attribute(&m.stmts[i]) {
                    m.stmts.swap(i - 1, i);
                    moved += 1;
                }
            }
        }
    }
    let a = render(src, &file.lines(), 1, false).text;
    let b = render(src, &other.lines(), 1, false).text;
    case.set(label, moved > 0, &format!("{}=== reordered\n{}", a, b));
    let (x, y) = (parse_valid_mtl(&a)?, parse_valid_mtl(&b)?);
    same_mtl(&x, &y).map_err(|e| format!("the order of different attributes matters: {}", e))
}

/// Small statements for the exhaustive part; every element refers to the
/// object's first entries.
fn small_stmt(k: usize) -> Stmt {
    let num = |t: &str| Num { txt: t.to_owned(), val: t.parse().unwrap() };
    let r = |rel| Ref { idx: [0; 3], rel: [rel; 3], zeros: 0 };
    match k {
        0 => Stmt::V(vec![num("1"), num("2"), num("3")]),
        1 => Stmt::Vt(vec![num("0.5")]),
        2 => Stmt::Vn(vec![num("0"), num("0"), num("1")]),
        3 => Stmt::P(vec![r(false), r(true)]),
        4 => Stmt::F(Form::VTN, vec![r(true), r(false), r(true)]),
        5 => Stmt::G(vec!["a".to_owned(), "b".to_owned()]),
        6 => Stmt::G(vec![]),
        7 => Stmt::S(3, "3".to_owned()),
        8 => Stmt::S(0, "off".to_owned()),
        9 => Stmt::U("m".to_owned()),
        10 => Stmt::O("x".to_owned()),
        _ => Stmt::G(vec!["c".to_owned()]),
    }
}

pub fn c23() -> Prop {
    let mut p = Prop {
        id: "C23",
        families: vec![],
        rule: "at least two neighbouring statements changed places",
    };
    p.random("statement histories", 60_000, |src, case| {
        let f = obj_file(src, &STATEFUL, 12);
        reordered_obj(src, case, &f, "stateful")
    });
    p.random("interleaved data and elements", 60_000, |src, case| {
        let f = obj_file(src, &INDEXED, 14);
        reordered_obj(src, case, &f, "indexed")
    });
    p.random("long files", 10_000, |src, case| {
        let f = obj_file(src, &NEUTRAL, 40);
        reordered_obj(src, case, &f, "long")
    });
    p.random("one large dimension", 200, |src, case| {
        let (f, label) = obj_scale(src, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 17]);
        reordered_obj(src, case, &f, &label)
    });
    p.random("materials", 60_000, |src, case| {
        let f = mtl_file(src, 6);
        reordered_mtl(src, case, &f, "material")
    });
    p.random("large materials", 100, |src, case| {
        let (f, label) = mtl_scale(src);
        reordered_mtl(src, case, &f, &label)
    });
    p.sequences("all swaps in all short histories", 12, 4, 5, |seq, case| {
        // Data first, so that every history is valid.
        let mut file = ObjFile::default();
        file.stmts.extend([0, 1, 2].map(small_stmt));
        for &k in seq {
            file.stmts.push(small_stmt(k));
            if k == 10 {
                file.stmts.extend([0, 1, 2].map(small_stmt));
            }
        }
        let a = plain(&file.lines([0; 3])).text;
        case.set("sequence", false, &a);
        let x = parse_valid(&a)?;
        let states = file.states();
        for i in 1..file.stmts.len() {
            if commute(&file.stmts[i - 1], &file.stmts[i], states[i - 1].1) {
                let mut other = file.clone();
                other.stmts.swap(i - 1, i);
                case.nontrivial = true;
                let b = plain(&other.lines([0; 3])).text;
                let y = parse_valid(&b)?;
                same_set(&x, &y).map_err(|e| format!("swapping statements {} and {} matters: {}", i, i + 1, e))?;
            }
        }
        Ok(())
    });
    p
}

// ---------------------------------------------------------------- names (C24)

/// An injective renaming made up as names are met. `default` stays.
struct Renaming {
    map: HashMap<String, String>,
    taken: HashSet<String>,
    pool: Vec<String>,
    serial: usize,
}

impl Renaming {
    fn new(pool: &[String]) -> Renaming {
        let taken = ["default".to_owned()].into_iter().collect();
        Renaming { map: HashMap::new(), taken, pool: pool.to_vec(), serial: 0 }
    }
    fn of(&mut self, src: &mut Src, name: &str) -> String {
        if name == "default" {
            return name.to_owned();
        }
        if let Some(n) = self.map.get(name) {
            return n.clone();
        }
        let mut n = match src.weighted(&[3, 3, 1]) {
            0 => src.pick(&self.pool).clone(),
            1 => word(src),
            _ => name.to_owned(),
        };
        while !self.taken.insert(n.clone()) {
            self.serial += 1;
            n = format!("{}{}", n, self.serial);
        }
        self.map.insert(name.to_owned(), n.clone());
        n
    }
    fn get(&self, name: &str) -> String {
        if name == "default" {
            return name.to_owned();
        }
        self.map.get(name).cloned().unwrap_or_else(|| name.to_owned())
    }
}

fn renamed_obj(src: &mut Src, case: &mut Case, file: &ObjFile, label: &str) -> R {
    // One pool for all kinds, so that names of different kinds coincide.
    let pool: Vec<String> = (0..3).map(|_| word(src)).collect();
    let [mut g, mut u, mut o, mut l] = [0; 4].map(|_| Renaming::new(&pool));
    let mut other = file.clone();
    for lib in &mut other.libs {
        for n in lib {
            *n = l.of(src, n);
        }
    }
    for st in &mut other.stmts {
        match st {
            Stmt::G(names) => {
                for n in names {
                    *n = g.of(src, n);
                }
            }
            Stmt::U(n) => *n = u.of(src, n),
            Stmt::O(n) => *n = o.of(src, n),
            _ => {}
        }
    }
    let changed = [&g, &u, &o, &l].iter().any(|r| r.map.iter().any(|(a, b)| a != b));
    let a = render(src, &file.lines([0; 3]), 1, true).text;
    let b = render(src, &other.lines([0; 3]), 1, true).text;
    case.set(label, changed, &format!("{}=== renamed\n{}", a, b));
    let (mut x, y) = (parse_valid(&a)?, parse_valid(&b)?);
    for n in &mut x.material_libraries {
        *n = l.get(n);
    }
    for (i, ob) in x.objects.iter_mut().enumerate() {
        // The leading unnamed object stays unnamed.
        if !(i == 0 && ob.name.is_empty()) {
            ob.name = o.get(&ob.name);
        }
        for n in &mut ob.group_set {
            n.0 = g.get(&n.0);
        }
        for geo in &mut ob.geometry_set {
            if let Some(n) = &mut geo.material_name {
                *n = u.get(n);
            }
        }
    }
    same_set(&x, &y).map_err(|e| format!("another choice of names changes more than the names: {}", e))
}

fn renamed_mtl(src: &mut Src, case: &mut Case, file: &MtlFile, label: &str) -> R {
    let pool: Vec<String> = (0..3).map(|_| word(src)).collect();
    let mut names = Renaming::new(&pool);
    // Every map its own renaming; two spellings of one attribute share theirs.
    let mut maps: Vec<Renaming> = (0..9).map(|_| Renaming::new(&pool)).collect();
    let slot = |k: usize| if k == 9 { 5 } else { k };
    let mut other = file.clone();
    for m in &mut other.mats {
        m.name = names.of(src, &m.name);
        for st in &mut m.stmts {
            if let MStmt::Map(k, n) = st {
                *n = maps[slot(*k)].of(src, n);
            }
        }
    }
    let changed = names.map.iter().any(|(a, b)| a != b) || maps.iter().any(|r| r.map.iter().any(|(a, b)| a != b));
    let a = render(src, &file.lines(), 1, false).text;
    let b = render(src, &other.lines(), 1, false).text;
    case.set(label, changed, &format!("{}=== renamed\n{}", a, b));
    let (mut x, y) = (parse_valid_mtl(&a)?, parse_valid_mtl(&b)?);
    for m in &mut x.materials {
        m.name = names.get(&m.name);
        let mtl::Material {
            map_ambient,
            map_diffuse,
            map_specular,
            map_emissive,
            map_specular_exponent,
            map_bump,
            map_displacement,
            map_dissolve,
            map_decal,
            ..
        } = m;
        let all = [
            map_ambient,
            map_diffuse,
            map_specular,
            map_emissive,
            map_specular_exponent,
            map_bump,
            map_displacement,
            map_dissolve,
            map_decal,
        ];
        for (r, n) in maps.iter().zip(all) {
            if let Some(n) = n {
                *n = r.get(n);
            }
        }
    }
    same_mtl(&x, &y).map_err(|e| format!("another choice of names changes more than the names: {}", e))
}

pub fn c24() -> Prop {
    let mut p = Prop { id: "C24", families: vec![], rule: "the renaming changes at least one name of the file" };
    p.random("statement histories", 80_000, |src, case| {
        let f = obj_file(src, &STATEFUL, 12);
        renamed_obj(src, case, &f, "stateful")
    });
    p.random("objects and libraries", 60_000, |src, case| {
        let f = obj_file(src, &OBJECTS, 12);
        renamed_obj(src, case, &f, "objects")
    });
    p.random("one large dimension", 150, |src, case| {
        let (f, label) = obj_scale(src, &[6, 7, 9, 10, 11, 12, 13, 14]);
        renamed_obj(src, case, &f, &label)
    });
    p.random("materials", 80_000, |src, case| {
        let f = mtl_file(src, 5);
        renamed_mtl(src, case, &f, "material")
    });
    p.random("large materials", 80, |src, case| {
        let (f, label) = mtl_scale(src);
        renamed_mtl(src, case, &f, &label)
    });
    p
}

// --------------------------------------------------------------- errors (C25)

/// Byte ranges (start, end of content, end with line end) of the lines.
fn physical_lines(text: &str) -> Vec<(usize, usize, usize)> {
    let b = text.as_bytes();
    let (mut out, mut start, mut i) = (vec![], 0, 0);
    while i < b.len() {
        if b[i] == b'\n' || b[i] == b'\r' {
            let end = if b[i] == b'\r' && b.get(i + 1) == Some(&b'\n') { i + 2 } else { i + 1 };
            out.push((start, i, end));
            start = end;
            i = end;
        } else {
            i += 1;
        }
    }
    out.push((start, b.len(), b.len()));
    out
}

#[derive(PartialEq)]
struct Shown {
    line: usize,
    rest: String,
}

impl std::fmt::Debug for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "line {}: {}", self.line, shorten(&self.rest))
    }
}

/// The error of a text, if it has one.
fn error_of(text: &str, is_obj: bool) -> Result<Option<Shown>, String> {
    if is_obj {
        Ok(match obj_parse(text)? {
            Ok(_) => None,
            Err(obj::ParseError { line_number, kind, message }) => {
                Some(Shown { line: line_number, rest: format!("{:?} {}", kind, message) })
            }
        })
    } else {
        Ok(match mtl_parse(text)? {
            Ok(_) => None,
            Err(e) => {
                let s = e.to_string();
                let line = s
                    .split(|c: char| !c.is_ascii_digit())
                    .find(|w| !w.is_empty())
                    .and_then(|w| w.parse().ok())
                    .ok_or_else(|| format!("no line number in {:?}", s))?;
                Some(Shown { line, rest: s })
            }
        })
    }
}

fn local_error(src: &mut Src, case: &mut Case, text: &str, is_obj: bool, label: &str) -> R {
    case.set(label, false, text);
    let e = match error_of(text, is_obj)? {
        None => return Ok(()),
        Some(e) => e,
    };
    case.nontrivial = true;
    let lines = physical_lines(text);
    ensure!(e.line >= 1 && e.line <= lines.len(), "{:?}, but the text has {} lines", e, lines.len());
    let (start, content_end, end) = lines[e.line - 1];
    if let Some(b) = error_of(&text[..start], is_obj)? {
        return Err(format!("{:?}, but the lines before it alone give {:?}", e, b));
    }
    if content_end == end {
        // Not terminated: what it would be with a line end is left open.
        return Ok(());
    }
    let head = &text[..end];
    let mut tails = vec![String::new()];
    let fresh = match src.usize(6) {
        5 => token_soup(src, if is_obj { &OBJ_VOCAB } else { &MTL_VOCAB }, 3),
        0 if is_obj => obj_text(src).0,
        0 => mtl_text(src).0,
        1 if is_obj => plain(&obj_file(src, &NEUTRAL, 6).lines([0; 3])).text,
        1 => plain(&mtl_file(src, 4).lines()).text,
        2 => char_soup(src, 12),
        3 => "\n".repeat(1 + src.usize(30)),
        _ => junk(src),
    };
    tails.push(fresh);
    // The original rest with a line taken out.
    if e.line < lines.len() {
        let k = e.line + src.usize(lines.len() - e.line);
        tails.push(format!("{}{}", &text[end..lines[k].0], &text[lines[k].2..]));
    }
    for t in tails {
        // A line feed after a carriage return would be the same line end.
        if head.ends_with('\r') && t.starts_with('\n') {
            continue;
        }
        let joined = format!("{}{}", head, t);
        let other = error_of(&joined, is_obj)?;
        ensure!(
            other.as_ref() == Some(&e),
            "{:?} became {:?} when what follows line {} was replaced by {:?}",
            e,
            other,
            e.line,
            shorten(&t)
        );
    }
    Ok(())
}

pub fn c25() -> Prop {
    let mut p = Prop { id: "C25", families: vec![], rule: "the text is rejected" };
    p.random("OBJ files with faults", 80_000, |src, case| {
        let n = 1 + src.usize(3);
        let (t, _) = faulty_obj(src, 2, false, n);
        local_error(src, case, &t, true, "obj fault")
    });
    p.random("OBJ files with bad elements", 60_000, |src, case| {
        let n = 1 + src.usize(3);
        let (t, _) = faulty_obj(src, 2, true, n);
        local_error(src, case, &t, true, "obj bad element")
    });
    p.random("any OBJ text", 60_000, |src, case| {
        let (t, label) = obj_text(src);
        local_error(src, case, &t, true, label)
    });
    p.random("MTL files with faults", 80_000, |src, case| {
        let n = 1 + src.usize(3);
        let t = faulty_mtl(src, 2, n);
        local_error(src, case, &t, false, "mtl fault")
    });
    p.random("any MTL text", 60_000, |src, case| {
        let (t, label) = mtl_text(src);
        local_error(src, case, &t, false, label)
    });
    p.random("large files with a fault", 150, |src, case| {
        if src.chance(2, 3) {
            let (f, label) = obj_scale(src, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 17]);
            let mut lines = f.lines([0; 3]);
            let states = f.states();
            let k = src.usize(states.len());
            let bad = bad_statement(src, states[k].0, states[k].1);
            lines.insert(f.libs.len() + k, bad);
            local_error(src, case, &plain(&lines).text, true, &label)
        } else {
            let (f, label) = mtl_scale(src);
            let mut lines = f.lines();
            let k = src.usize(lines.len() + 1);
            let bad = bad_mtl_statement(src);
            lines.insert(k, bad);
            local_error(src, case, &plain(&lines).text, false, &label)
        }
    });
    const OBJ: [&str; 14] =
        ["v 1 2 3\n", "v 1 2\r\n", "p 1\n", "p 2\r", "f 1 1 1\n", "f 1 1\n", "g a\n", "s x\n", "o y\n", "o\r\n", "mtllib m\n", "vp 1\n", "# c\r", "\n"];
    p.sequences("all short OBJ line sequences", OBJ.len(), 4, 5, |seq, case| {
        let t: String = seq.iter().map(|&k| OBJ[k]).collect();
        local_error(&mut Src::replay(vec![1]), case, &t, true, "sequence")
    });
    const MTL: [&str; 12] = [
        "newmtl a\n", "newmtl\r\n", "Ka 1 2 3\n", "Ka 1 2\r", "d 0.5\r\n", "d\n", "illum 1\n", "illum 9\n", "map_Kd x\n", "map_Kd\n", "Tr 1\r", "\n",
    ];
    p.sequences("all short MTL line sequences", MTL.len(), 4, 5, |seq, case| {
        let t: String = seq.iter().map(|&k| MTL[k]).collect();
        local_error(&mut Src::replay(vec![1]), case, &t, false, "sequence")
    });
    p
}

//! Line-based reference readers for OBJ and MTL text, written from the format
//! description and the property statements, sharing nothing with the library.
//!
//! They answer Accept (with the meaning), Reject (line and admissible error
//! kinds) or Grey: texts on whose treatment the properties take no position.

use crate::model::*;
use wavefront_obj::obj::ErrorKind as K;

pub enum Verdict<T> {
    Accept(T),
    Reject { line: usize, kinds: Vec<K>, what: &'static str },
    Grey(&'static str),
}

pub struct PLine<'a> {
    pub words: Vec<&'a str>,
    /// Ends with a line ending (false only for the last line).
    pub ended: bool,
}

/// Physical lines, ended by LF, CRLF or CR, as words.
pub fn split(text: &str) -> Vec<PLine<'_>> {
    let mut out = vec![];
    let b = text.as_bytes();
    let mut start = 0;
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\n' || b[i] == b'\r' {
            out.push(PLine { words: words(&text[start..i]), ended: true });
            if b[i] == b'\r' && b.get(i + 1) == Some(&b'\n') {
                i += 1;
            }
            start = i + 1;
        }
        i += 1;
    }
    out.push(PLine { words: words(&text[start..]), ended: false });
    out
}

fn words(line: &str) -> Vec<&str> {
    let code = match line.find('#') {
        Some(i) => &line[..i],
        None => line,
    };
    code.split([' ', '\t', '\\']).filter(|w| !w.is_empty()).collect()
}

/// Every word of the text, for membership tests.
pub fn all_words(text: &str) -> std::collections::HashSet<&str> {
    split(text).into_iter().flat_map(|l| l.words).collect()
}

enum Tok<T> {
    Good(T),
    Bad,
    Unsure,
}

fn float(w: &str) -> Tok<f64> {
    match w.parse::<f64>() {
        Ok(v) if v.is_finite() => Tok::Good(v),
        Ok(_) => Tok::Unsure,
        Err(_) => Tok::Bad,
    }
}

fn int(w: &str) -> Tok<i128> {
    let digits = w.strip_prefix(['-', '+']).unwrap_or(w);
    if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_digit()) {
        return Tok::Bad;
    }
    let trimmed = digits.trim_start_matches('0');
    let mag: i128 = if trimmed.len() > 30 { i128::MAX / 2 } else { trimmed.parse().unwrap_or(0) };
    Tok::Good(if w.starts_with('-') { -mag } else { mag })
}

const OBJ_TAGS: [&str; 10] = ["v", "vt", "vn", "p", "l", "f", "g", "s", "usemtl", "o"];

pub fn is_obj_tag(w: &str) -> bool {
    OBJ_TAGS.contains(&w)
}

pub fn is_mtl_tag(w: &str) -> bool {
    w == "newmtl" || w == "illum" || w == "Tf" || COLORS.contains(&w) || SCALARS.contains(&w) || MAPS.contains(&w)
}

enum Line {
    Ok,
    Bad(Vec<K>, &'static str),
    Unsure(&'static str),
}

/// The numbers of a statement: `min..=max` of them, then nothing.
fn floats(args: &[&str], min: usize, max: usize, tag: fn(&str) -> bool) -> Result<Vec<f64>, Line> {
    let mut out = vec![];
    for k in 0..max {
        match args.get(k) {
            None if k < min => return Err(Line::Bad(vec![K::ExpectedFloat, K::EndOfFile], "missing argument")),
            None => break,
            Some(w) => match float(w) {
                Tok::Good(v) => out.push(v),
                Tok::Unsure => return Err(Line::Unsure("unusual number")),
                Tok::Bad if k < min => return Err(Line::Bad(vec![K::ExpectedFloat], "not a number")),
                Tok::Bad => break,
            },
        }
    }
    if let Some(w) = args.get(out.len()) {
        if tag(w) {
            return Err(Line::Unsure("several statements on a line"));
        }
        return Err(Line::Bad(vec![K::InvalidObjectStatement], "surplus argument"));
    }
    Ok(out)
}

enum RefTok {
    Good(Form, [usize; 3]),
    Bad(Vec<K>, &'static str),
    Unsure,
}

struct State {
    base: [usize; 3],
    cnt: [usize; 3],
}

impl State {
    /// Position in the current object, if the reference is legal.
    fn resolve(&self, k: usize, v: i128) -> Option<usize> {
        let (base, cnt) = (self.base[k] as i128, self.cnt[k] as i128);
        let pos = if v > 0 { v - 1 - base } else if v < 0 { cnt + v } else { -1 };
        if pos >= 0 && pos < cnt {
            Some(pos as usize)
        } else {
            None
        }
    }

    fn reference(&self, w: &str) -> RefTok {
        let parts: Vec<&str> = w.split('/').collect();
        let mut faults: Vec<K> = vec![];
        let mut what = "";
        let mut idx = [0; 3];
        let mut has = [false; 3];
        for (k, p) in parts.iter().enumerate() {
            if p.is_empty() {
                continue;
            }
            match int(p) {
                Tok::Unsure => return RefTok::Unsure,
                Tok::Bad => {
                    faults.push(K::ExpectedInteger);
                    what = "reference is not an integer";
                }
                Tok::Good(v) if k < 3 => {
                    has[k] = true;
                    match self.resolve(k, v) {
                        Some(i) => idx[k] = i,
                        None => {
                            faults.push(K::VTNIndexOutOfRange);
                            if v > i64::MAX as i128 || v < i64::MIN as i128 {
                                faults.push(K::ExpectedInteger);
                            }
                            what = "reference out of range";
                        }
                    }
                }
                Tok::Good(_) => {}
            }
        }
        if parts[0].is_empty() || parts.len() > 3 {
            faults.push(K::ExpectedVTNIndex);
            what = "malformed reference";
        } else if parts.len() > 1 && parts[parts.len() - 1].is_empty() {
            return RefTok::Unsure;
        }
        if !faults.is_empty() {
            return RefTok::Bad(faults, what);
        }
        let form = match (has[1], has[2]) {
            (false, false) => Form::V,
            (true, false) => Form::VT,
            (false, true) => Form::VN,
            (true, true) => Form::VTN,
        };
        RefTok::Good(form, idx)
    }

    fn refs(&self, args: &[&str], min: usize, few: Vec<K>, few_name: &'static str) -> Result<(Form, Vec<[usize; 3]>), Line> {
        let mut out = vec![];
        let mut forms = vec![];
        let mut kinds = vec![];
        let mut name = "";
        let mut first_bad = None;
        for w in args {
            match self.reference(w) {
                RefTok::Unsure => return Err(Line::Unsure("unusual reference")),
                RefTok::Good(f, i) => {
                    out.push(i);
                    forms.push(f);
                }
                RefTok::Bad(k, n) => {
                    if first_bad.is_none() {
                        first_bad = Some(());
                        name = n;
                    }
                    kinds.extend(k);
                }
            }
        }
        if first_bad.is_some() {
            if args.len() < min {
                kinds.extend(few);
            }
            if forms.windows(2).any(|w| w[0] != w[1]) {
                kinds.push(K::EveryVTNIndexMustHaveTheSameFormForAGivenElement);
            }
            return Err(Line::Bad(kinds, name));
        }
        let mixed = forms.windows(2).any(|w| w[0] != w[1]);
        if args.len() < min {
            let mut k = few;
            if mixed {
                k.push(K::EveryVTNIndexMustHaveTheSameFormForAGivenElement);
            }
            return Err(Line::Bad(k, few_name));
        }
        if mixed {
            return Err(Line::Bad(vec![K::EveryVTNIndexMustHaveTheSameFormForAGivenElement], "mixed index forms"));
        }
        Ok((forms[0], out))
    }
}

fn one_name<'a>(args: &[&'a str], tag: fn(&str) -> bool, none: Vec<K>) -> Result<&'a str, Line> {
    match args {
        [] => Err(Line::Bad(none, "missing name")),
        [n] => Ok(n),
        [_, w, ..] if tag(w) => Err(Line::Unsure("several statements on a line")),
        _ => Err(Line::Bad(vec![K::InvalidObjectStatement], "surplus argument")),
    }
}

pub fn read_obj(text: &str) -> Verdict<MSet> {
    let mut set = MSet::default();
    let mut st = State { base: [0; 3], cnt: [0; 3] };
    let mut head = true;
    for (i, line) in split(text).iter().enumerate() {
        let Some((&tag, args)) = line.words.split_first() else { continue };
        if tag == "mtllib" {
            if !head {
                return Verdict::Reject {
                    line: i + 1,
                    kinds: vec![K::InvalidObjectStatement],
                    what: "mtllib after other statements",
                };
            }
            set.libs.extend(args.iter().map(|a| (*a).to_owned()));
            continue;
        }
        head = false;
        match obj_line(&mut set, &mut st, tag, args, line.ended) {
            Line::Ok => {}
            Line::Bad(kinds, what) => return Verdict::Reject { line: i + 1, kinds, what },
            Line::Unsure(why) => return Verdict::Grey(why),
        }
    }
    Verdict::Accept(set)
}

fn obj_line(set: &mut MSet, st: &mut State, tag: &str, args: &[&str], ended: bool) -> Line {
    macro_rules! t {
        ($e:expr) => {
            match $e {
                Ok(v) => v,
                Err(l) => return l,
            }
        };
    }
    match tag {
        "v" => {
            let c = t!(floats(args, 3, 4, is_obj_tag));
            set.v(&c);
            st.cnt[0] += 1;
        }
        "vt" => {
            let c = t!(floats(args, 1, 3, is_obj_tag));
            set.vt(&c);
            st.cnt[1] += 1;
        }
        "vn" => {
            let c = t!(floats(args, 3, 3, is_obj_tag));
            set.vn(&c);
            st.cnt[2] += 1;
        }
        "p" => {
            let mut out = vec![];
            let mut bad = None;
            let mut kinds = vec![];
            for w in args {
                match int(w) {
                    Tok::Unsure => return Line::Unsure("unusual reference"),
                    Tok::Bad => {
                        kinds.push(K::ExpectedInteger);
                        bad = bad.or(Some("reference is not an integer"));
                    }
                    Tok::Good(v) => match st.resolve(0, v) {
                        Some(i) => out.push([i, 0, 0]),
                        None => {
                            kinds.push(K::VTNIndexOutOfRange);
                            if v > i64::MAX as i128 || v < i64::MIN as i128 {
                                kinds.push(K::ExpectedInteger);
                            }
                            bad = bad.or(Some("reference out of range"));
                        }
                    },
                }
            }
            if let Some(what) = bad {
                return Line::Bad(kinds, what);
            }
            if args.is_empty() {
                return Line::Bad(missing_ref(ended), "too few vertices");
            }
            set.points(&out);
        }
        "l" => {
            if args.len() < 2 {
                return match (t_unsure(st, args), args.first().map(|w| st.reference(w))) {
                    (true, _) => Line::Unsure("unusual reference"),
                    // Two faults: either may be the reported one.
                    (_, Some(RefTok::Bad(mut k, what))) => {
                        k.extend(missing_ref(ended));
                        Line::Bad(k, what)
                    }
                    _ => Line::Bad(missing_ref(ended), "too few vertices"),
                };
            }
            let (f, r) = t!(st.refs(args, 2, vec![], "too few vertices"));
            set.line(f, &r);
        }
        "f" => {
            let (f, r) = t!(st.refs(
                args,
                3,
                vec![K::EveryFaceElementMustHaveAtLeastThreeVertices],
                "too few vertices"
            ));
            set.face(f, &r);
        }
        "g" => set.g(&args.iter().map(|a| (*a).to_owned()).collect::<Vec<_>>()),
        "s" => {
            let n = match one_name(args, is_obj_tag, vec![K::SmoothingGroupDeclarationHasNoName]) {
                Ok(n) => n,
                // Two faults on one line: either may be the reported one.
                Err(Line::Bad(mut k, w)) => {
                    let fine = |w: &str| w == "off" || matches!(int(w), Tok::Good(v) if (0..=usize::MAX as i128).contains(&v) && !w.starts_with('-'));
                    if args.len() > 1 && !fine(args[0]) {
                        k.push(K::SmoothingGroupNameMustBeOffOrInteger);
                    }
                    return Line::Bad(k, w);
                }
                Err(l) => return l,
            };
            if n == "off" {
                set.s(0);
            } else {
                let bad = || Line::Bad(vec![K::SmoothingGroupNameMustBeOffOrInteger], "bad smoothing value");
                match int(n) {
                    Tok::Unsure => return Line::Unsure("unusual number"),
                    Tok::Bad => return bad(),
                    Tok::Good(_) if n.starts_with('-') => return bad(),
                    Tok::Good(v) if v <= usize::MAX as i128 => set.s(v as usize),
                    Tok::Good(_) => return bad(),
                }
            }
        }
        "usemtl" => {
            let n = t!(one_name(args, is_obj_tag, vec![K::MaterialStatementHasNoName]));
            set.usemtl(n);
        }
        "o" => {
            match args {
                [] if ended => return Line::Bad(vec![K::ExpectedTagStatement], "missing name"),
                [] => return Line::Bad(vec![K::ExpectedTagStatement, K::EndOfFile], "missing name"),
                [_] if !ended => return Line::Unsure("object name at the end of input"),
                [n] => {
                    set.o(n);
                    for k in 0..3 {
                        st.base[k] += st.cnt[k];
                        st.cnt[k] = 0;
                    }
                }
                _ => return Line::Bad(vec![K::ExpectedTagStatement, K::InvalidObjectStatement], "surplus argument"),
            };
        }
        _ => return Line::Bad(vec![K::InvalidObjectStatement], "unknown statement"),
    }
    Line::Ok
}

/// A vertex reference is missing at the end of the line.
fn missing_ref(ended: bool) -> Vec<K> {
    let mut k = vec![K::ExpectedInteger, K::ExpectedVTNIndex];
    if !ended {
        k.push(K::EndOfFile);
    }
    k
}

fn t_unsure(st: &State, args: &[&str]) -> bool {
    args.iter().any(|w| matches!(st.reference(w), RefTok::Unsure))
}

pub fn read_mtl(text: &str) -> Verdict<Vec<MMat>> {
    let mut out: Vec<MMat> = vec![];
    for (i, line) in split(text).iter().enumerate() {
        let Some((&tag, args)) = line.words.split_first() else { continue };
        match mtl_line(&mut out, tag, args) {
            Line::Ok => {}
            Line::Bad(kinds, what) => return Verdict::Reject { line: i + 1, kinds, what },
            Line::Unsure(why) => return Verdict::Grey(why),
        }
    }
    Verdict::Accept(out)
}

fn mtl_line(out: &mut Vec<MMat>, tag: &str, args: &[&str]) -> Line {
    macro_rules! t {
        ($e:expr) => {
            match $e {
                Ok(v) => v,
                Err(l) => return l,
            }
        };
    }
    if tag == "newmtl" {
        let n = t!(one_name(args, is_mtl_tag, vec![]));
        out.push(MMat::new(n));
        return Line::Ok;
    }
    let Some(cur) = out.last_mut() else { return Line::Bad(vec![], "statement before the first newmtl") };
    if let Some(k) = COLORS.iter().position(|c| *c == tag) {
        let c = t!(floats(args, 3, 3, is_mtl_tag));
        cur.color(k, [c[0], c[1], c[2]]);
    } else if let Some(k) = SCALARS.iter().position(|c| *c == tag) {
        let c = t!(floats(args, 1, 1, is_mtl_tag));
        cur.scalar(k, c[0]);
    } else if let Some(k) = MAPS.iter().position(|c| *c == tag) {
        let n = t!(one_name(args, is_mtl_tag, vec![]));
        cur.map(k, n);
    } else if tag == "illum" {
        match args.first().map(|w| int(w)) {
            None => return Line::Bad(vec![], "missing argument"),
            Some(Tok::Unsure) => return Line::Unsure("unusual number"),
            Some(Tok::Bad) => return Line::Bad(vec![], "not a number"),
            Some(Tok::Good(v)) => {
                if args[0].starts_with('-') || !(0..=2).contains(&v) {
                    return Line::Bad(vec![], "unsupported illumination model");
                }
                cur.illum = v as usize;
            }
        }
        match args.get(1) {
            None => {}
            Some(w) if is_mtl_tag(w) => return Line::Unsure("several statements on a line"),
            Some(_) => return Line::Bad(vec![], "surplus argument"),
        }
    } else if tag == "Tf" {
        return Line::Unsure("Tf");
    } else {
        return Line::Bad(vec![], "unknown statement");
    }
    Line::Ok
}

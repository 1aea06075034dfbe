//! Texts that need not be valid: token soups, mutants of valid files,
//! truncations, arbitrary characters, and targeted single faults.

use crate::dict::{dict, is_word};
use crate::gen::*;
use crate::layout::*;
use crate::model::*;
use crate::refp::{is_mtl_tag, is_obj_tag};
use crate::src::Src;

pub const OBJ_VOCAB: [&str; 64] = [
    "v", "vt", "vn", "p", "l", "f", "g", "s", "usemtl", "o", "mtllib", "v", "f", "f", "p", "l", "1", "2", "3", "0",
    "-1", "-2", "-3", "4", "1/1", "2/1", "1//1", "-1//-1", "1/1/1", "-1/-1/-1", "1/", "1//", "/1", "//", "1/2/3/4",
    "off", "a", "b", "default", "0.5", "-0.25", "1e3", "nan", "inf", "1e400", "+1", "9223372036854775807",
    "-9223372036854775808", "9223372036854775808", "18446744073709551616", "-", "/", ".", "vp", "é", "😀", "\u{a0}",
    "1.0", "0x1", "-0", "00", "f1", "vv", "newmtl",
];

pub const MTL_VOCAB: [&str; 48] = [
    "newmtl", "newmtl", "Ka", "Kd", "Ks", "Ke", "Ns", "Ni", "d", "illum", "map_Ka", "map_Kd", "map_Ks", "map_Ke",
    "map_Ns", "map_Bump", "bump", "disp", "map_d", "decal", "Tf", "a", "b", "x.png", "0", "1", "2", "3", "-1", "0.5",
    "1e3", "-0.0", "nan", "inf", "1e400", "+1", "18446744073709551616", "é", "😀", "-", ".", "Tr", "ka", "map_ka",
    "Map_Kd", "v", "refl", "halo",
];

fn eol(src: &mut Src) -> &'static str {
    ["\n", "\n", "\n", "\r\n", "\r"][src.usize(5)]
}

/// Lines of random vocabulary words.
pub fn token_soup(src: &mut Src, vocab: &[&str], mean_lines: u64) -> String {
    let mut s = String::new();
    let n = src.len(mean_lines, 60);
    for _ in 0..n {
        let k = src.len(3, 12);
        for i in 0..k {
            if i > 0 {
                s.push_str(*src.pick(&[" ", " ", " ", "\t", "\\", "  "]));
            }
            if src.chance(1, 12) {
                s.push_str(&word(src));
            } else {
                s.push_str(*src.pick(vocab));
            }
        }
        if src.chance(1, 12) {
            s.push_str(&comment(src));
        }
        s.push_str(eol(src));
    }
    if src.chance(1, 4) {
        s.push_str(*src.pick(vocab));
    }
    s
}

const CHARS: [&str; 40] = [
    "v", "f", "p", "l", "o", "g", "s", "t", "n", "u", "1", "2", "0", "9", "-", "+", "/", ".", "e", "#", "\n", "\r", " ",
    "\t", "\\", "\u{0}", "é", "中", "😀", "\u{a0}", "\u{feff}", "\u{2028}", "K", "a", "d", "m", "_", "\u{b}", "\u{c}",
    "\u{7f}",
];

pub fn char_soup(src: &mut Src, mean: u64) -> String {
    let n = src.len(mean, 300);
    let mut s = String::new();
    for _ in 0..n {
        if src.chance(1, 16) {
            s.push(char::from_u32(src.below(0x11_0000) as u32).unwrap_or('\u{fffd}'));
        } else {
            s.push_str(*src.pick(&CHARS));
        }
    }
    s
}

/// Small random edits of statement lines, at the level of words and lines.
pub fn mutate_lines(src: &mut Src, lines: &mut Vec<Vec<String>>, vocab: &[&str]) {
    let n = 1 + src.len(1, 6);
    for _ in 0..n {
        if lines.is_empty() {
            lines.push(vec![(*src.pick(vocab)).to_owned()]);
            continue;
        }
        let i = src.usize(lines.len());
        let fresh = if src.chance(1, 4) { word(src) } else { (*src.pick(vocab)).to_owned() };
        match src.usize(9) {
            0 => {
                let k = src.usize(lines[i].len().max(1));
                if k < lines[i].len() {
                    lines[i].remove(k);
                }
            }
            1 => {
                let k = src.usize(lines[i].len() + 1);
                lines[i].insert(k, fresh);
            }
            2 => {
                let k = src.usize(lines[i].len().max(1));
                if k < lines[i].len() {
                    lines[i][k] = fresh;
                }
            }
            3 => {
                lines.remove(i);
            }
            4 => {
                let l = lines[i].clone();
                let k = src.usize(lines.len() + 1);
                lines.insert(k, l);
            }
            5 => {
                let k = src.usize(lines.len());
                lines.swap(i, k);
            }
            6 => {
                // Join two lines.
                if i + 1 < lines.len() {
                    let l = lines.remove(i + 1);
                    lines[i].extend(l);
                }
            }
            7 => {
                // Break a line.
                let k = src.usize(lines[i].len().max(1));
                let k = k.min(lines[i].len());
                let tail = lines[i].split_off(k);
                lines.insert(i + 1, tail);
            }
            _ => {
                // Edit a word.
                let k = src.usize(lines[i].len().max(1));
                if k < lines[i].len() {
                    let w: Vec<char> = lines[i][k].chars().collect();
                    let at = src.usize(w.len().max(1));
                    let c = src.pick(&["0", "1", "-", "/", ".", "e", "x", "", "9", "é"]).to_string();
                    let cut = src.usize(2);
                    let s: String =
                        w.iter().take(at).collect::<String>() + &c + &w.iter().skip(at + cut).collect::<String>();
                    if is_word(&s) {
                        lines[i][k] = s;
                    }
                }
            }
        }
        lines.retain(|l| !l.is_empty());
    }
}

/// Edits at the level of characters.
pub fn mutate_text(src: &mut Src, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    let n = 1 + src.len(2, 10);
    for _ in 0..n {
        let at = src.usize(c.len() + 1);
        match src.usize(4) {
            0 => {
                for x in src.pick(&CHARS).chars() {
                    c.insert(at, x);
                }
            }
            1 => {
                if at < c.len() {
                    c.remove(at);
                }
            }
            2 => {
                if at < c.len() {
                    c[at] = src.pick(&CHARS).chars().next().unwrap();
                }
            }
            _ => c.truncate(at),
        }
    }
    c.into_iter().collect()
}

/// A text with a character or two put in at an edge: of the text, a line or a word.
fn at_edge(src: &mut Src, text: &str) -> String {
    let mut at = vec![0, text.len()];
    if src.chance(1, 2) {
        for (i, c) in text.char_indices() {
            if matches!(c, ' ' | '\n' | '\r' | '\t' | '\\') {
                at.push(i);
                at.push(i + 1);
            }
        }
    }
    let at = *src.pick(&at);
    let mut odd = match src.usize(4) {
        0 => ((src.below(32)) as u8 as char).to_string(),
        1 => (*src.pick(&["\u{feff}", "\u{1a}", "\u{0}", "\u{4}", "\u{85}", "\u{a0}", "\u{2028}", "\u{2029}", "\u{c}", "\u{b}", "\u{1b}", "\u{200b}", "\u{fffe}"])).to_owned(),
        2 => ((b'!' + src.below(94) as u8) as char).to_string(),
        _ => src.pick(&CHARS).to_string(),
    };
    if src.chance(1, 4) {
        odd = odd.repeat(2);
    }
    format!("{}{}{}", &text[..at], odd, &text[at..])
}

fn layout_of(src: &mut Src, lines: &[Vec<String>]) -> String {
    if src.chance(1, 2) {
        let st = style(src);
        fancy(src, lines, &st, false).text
    } else {
        plain(lines).text
    }
}

/// Any OBJ text.
pub fn obj_text(src: &mut Src) -> (String, &'static str) {
    match src.weighted(&[3, 3, 3, 2, 3, 1, 2]) {
        6 => {
            let l = obj_file(src, &NEUTRAL, 8).lines([0; 3]);
            let t = layout_of(src, &l);
            (at_edge(src, &t), "edge")
        }
        0 => (token_soup(src, &OBJ_VOCAB, 4), "token-soup"),
        1 => {
            let mut l = obj_file(src, &NEUTRAL, 8).lines([0; 3]);
            mutate_lines(src, &mut l, &OBJ_VOCAB);
            (layout_of(src, &l), "line-mutant")
        }
        2 => {
            let t = plain(&obj_file(src, &NEUTRAL, 8).lines([0; 3])).text;
            (mutate_text(src, &t), "char-mutant")
        }
        3 => (char_soup(src, 12), "char-soup"),
        4 => {
            let l = obj_file(src, &NEUTRAL, 8).lines([0; 3]);
            let t = layout_of(src, &l);
            let c: Vec<char> = t.chars().collect();
            let k = src.usize(c.len() + 1);
            (c[..k].iter().collect(), "truncation")
        }
        _ => {
            let mut l = obj_file(src, &NEUTRAL, 8).lines([0; 3]);
            if !l.is_empty() {
                let k = src.usize(l.len());
                l = l.split_off(k);
            }
            (layout_of(src, &l), "suffix")
        }
    }
}

/// Any MTL text.
pub fn mtl_text(src: &mut Src) -> (String, &'static str) {
    match src.weighted(&[3, 3, 3, 2, 3, 1, 2]) {
        6 => {
            let l = mtl_file(src, 4).lines();
            let t = layout_of(src, &l);
            (at_edge(src, &t), "edge")
        }
        0 => {
            let mut t = String::new();
            if src.chance(2, 3) {
                t.push_str("newmtl a\n");
            }
            t.push_str(&token_soup(src, &MTL_VOCAB, 4));
            (t, "token-soup")
        }
        1 => {
            let mut l = mtl_file(src, 4).lines();
            mutate_lines(src, &mut l, &MTL_VOCAB);
            (layout_of(src, &l), "line-mutant")
        }
        2 => {
            let t = plain(&mtl_file(src, 4).lines()).text;
            (mutate_text(src, &t), "char-mutant")
        }
        3 => (char_soup(src, 12), "char-soup"),
        4 => {
            let l = mtl_file(src, 4).lines();
            let t = layout_of(src, &l);
            let c: Vec<char> = t.chars().collect();
            let k = src.usize(c.len() + 1);
            (c[..k].iter().collect(), "truncation")
        }
        _ => {
            let mut l = mtl_file(src, 4).lines();
            if !l.is_empty() {
                let k = src.usize(l.len());
                l = l.split_off(k);
            }
            (layout_of(src, &l), "suffix")
        }
    }
}

// --------------------------------------------------------------- single faults

const NOT_INT: [&str; 22] = [
    "a", "x1", "1x", "1.0", "1.5", "1e0", "0x1", "--1", "1-", "-", "1_0", "１", "1,", "off", "1\u{a0}", "½", "1:1", "١",
    "1é", "-1-", "1\u{0}", "*",
];

const NOT_FLOAT: [&str; 26] = [
    "a", "1x", "1.0.0", "--1", "1e", "1e+", "e5", ".", "-", "-.", "1_0", "0x10", "１", "1,5", "1/2", "1\u{a0}", "1.0f",
    "f", "1e5.5", "1-2", "..5", "½", "1d3", "1\u{0}", "1.0e--5", "NULL",
];

/// A number's text with a character or two too many, too few or changed.
fn near_number(src: &mut Src, good: &str) -> String {
    let mut c: Vec<char> = good.chars().collect();
    let odd = |src: &mut Src| match src.usize(4) {
        0 => (b'a' + src.below(26) as u8) as char,
        1 => (b'A' + src.below(26) as u8) as char,
        2 => *src.pick(&['_', ',', ';', ':', '\'', '"', '%', '$', '(', ')', '/', '.', '-', '+', '*', '~', '\u{2212}', '\u{a0}', '\u{200b}']),
        _ => src.pick(&dict().words).chars().next().unwrap_or('x'),
    };
    let n = c.len();
    match src.usize(6) {
        0 => c.push(odd(src)),
        1 => c.insert(0, odd(src)),
        2 => {
            let at = src.usize(n + 1);
            c.insert(at, odd(src));
        }
        3 => {
            let at = src.usize(n);
            c[at] = odd(src);
        }
        4 => {
            // An exponent of another kind.
            if let Some(at) = c.iter().position(|x| matches!(x, 'e' | 'E')) {
                c[at] = odd(src);
            } else {
                c.push(odd(src));
                c.push((b'0' + src.below(10) as u8) as char);
            }
        }
        _ => {
            let w = src.pick(&dict().words).clone();
            return if src.chance(1, 2) { w + good } else { good.to_owned() + &w };
        }
    }
    c.into_iter().collect()
}

fn not_float(src: &mut Src) -> String {
    if src.chance(1, 2) {
        (*src.pick(&NOT_FLOAT)).to_owned()
    } else {
        let good = num(src, true).txt;
        near_number(src, &good)
    }
}

fn not_int(src: &mut Src, good: &str) -> String {
    if src.chance(1, 2) {
        (*src.pick(&NOT_INT)).to_owned()
    } else {
        near_number(src, good)
    }
}

/// A good statement with words put in that look like an option.
fn with_option(src: &mut Src, mut words: Vec<String>) -> Vec<String> {
    let n = 1 + src.len(0, 2);
    let at = 1 + if src.chance(2, 3) { 0 } else { src.usize(words.len()) };
    for k in 0..n {
        let w = match src.usize(4) {
            0 => (*src.pick(&["-halo", "-s", "-o", "-t", "-mm", "-bm", "-clamp", "-blendu", "-imfchan", "-type", "xyz", "spectral", "on", "off", "rgb"])).to_owned(),
            1 | 2 => src.pick(&dict().words).clone(),
            _ => word(src),
        };
        words.insert(at + k, w);
    }
    words
}

fn bad_component(src: &mut Src, base: usize, cnt: usize) -> String {
    let (b, c) = (base as i128, cnt as i128);
    let v: i128 = match src.usize(18) {
        0 => 0,
        1 => b + c + 1,
        2 => b + c + 2 + src.below(5) as i128,
        3 => -(c + 1),
        4 => -(c + 2 + src.below(5) as i128),
        5 => {
            // An entry of an earlier object.
            if b > 0 {
                1 + src.below(base as u64) as i128
            } else {
                b + c + 1
            }
        }
        6 => b,
        7 => -(b + c),
        8 => i64::MAX as i128,
        9 => i64::MIN as i128,
        10 => i64::MAX as i128 + 1,
        11 => b + 1 + (1i128 << 32),
        12 => b + 1 + (1i128 << 16),
        13 => b + 1 + (1i128 << 8),
        14 => b + 1 + (1i128 << 64),
        15 => -1 - (1i128 << 32),
        16 => b + 1 + (1i128 << 31),
        _ => {
            let good = (b + 1).to_string();
            return not_int(src, &good);
        }
    };
    // Whatever is in range after all is rejected by the reference reader's
    // verdict, not by assumption here.
    v.to_string()
}

fn bad_word(src: &mut Src, form: Form, good: &str, base: [usize; 3], cnt: [usize; 3]) -> String {
    let mut parts: Vec<String> = good.split('/').map(|s| s.to_owned()).collect();
    match src.weighted(&[6, 1, 1, 1]) {
        0 => {
            let used: Vec<usize> = match form {
                Form::V => vec![0],
                Form::VT => vec![0, 1],
                Form::VN => vec![0, 2],
                Form::VTN => vec![0, 1, 2],
            };
            let k = (*src.pick(&used)).min(parts.len() - 1);
            parts[k] = bad_component(src, base[k], cnt[k]);
            parts.join("/")
        }
        1 => format!("/{}", good),
        2 => {
            while parts.len() < 3 {
                parts.push(parts[0].clone());
            }
            format!("{}/{}", parts.join("/"), parts[0])
        }
        _ => not_int(src, good),
    }
}

/// An element statement with a fault somewhere, for the given position of the
/// file. `long`: how many vertices.
pub fn bad_element(src: &mut Src, base: [usize; 3], cnt: [usize; 3], long: usize) -> Vec<String> {
    let tag = *src.pick(&["f", "l", "p"]);
    let min = match tag {
        "p" => 1,
        "l" => 2,
        _ => 3,
    };
    let mut forms = vec![Form::V];
    if tag != "p" {
        for f in FORMS {
            if (!f.has_t() || cnt[1] > 0) && (!f.has_n() || cnt[2] > 0) {
                forms.push(f);
            }
        }
    }
    let form = *src.pick(&forms);
    let good = |src: &mut Src, form: Form| -> String {
        if cnt[0] == 0 {
            return "1".to_owned();
        }
        let r = Ref {
            idx: [src.usize(cnt[0]), src.usize(cnt[1].max(1)), src.usize(cnt[2].max(1))],
            rel: [src.chance(1, 3), src.chance(1, 3), src.chance(1, 3)],
            zeros: 0,
        };
        ref_word(form, &r, base, cnt)
    };
    let mut words = vec![tag.to_owned()];
    match src.weighted(&[6, 2, 2]) {
        1 => {
            // Too few.
            let n = src.usize(min);
            for _ in 0..n {
                words.push(good(src, form));
            }
        }
        2 if forms.len() > 2 => {
            let n = min.max(2) + long;
            let other = *src.pick(&forms);
            // Which places have the other form: one, a run, a period, any.
            let (kind, at) = (src.usize(4), src.usize(n));
            let (len, period) = (1 + src.usize(n), 2 + src.usize(7));
            for i in 0..n {
                let odd = match kind {
                    0 => i == at,
                    1 => i >= at && i < at + len,
                    2 => i % period == at % period,
                    _ => src.chance(1, 2),
                };
                words.push(good(src, if odd { other } else { form }));
            }
        }
        _ => {
            let n = min + long;
            for _ in 0..n {
                words.push(good(src, form));
            }
            let at = 1 + src.usize(n);
            let g = words[at].clone();
            words[at] = bad_word(src, form, &g, base, cnt);
            if src.chance(1, 8) {
                let at = 1 + src.usize(n);
                words[at] = (*src.pick(&NOT_INT)).to_owned();
            }
        }
    }
    words
}

const UNKNOWN: [&str; 56] = [
    "vp", "curv", "curv2", "surf", "cstype", "deg", "bmat", "step", "parm", "trim", "hole", "scrv", "sp", "end", "con",
    "mg", "bevel", "c_interp", "d_interp", "lod", "maplib", "usemap", "shadow_obj", "trace_obj", "ctech", "stech",
    "call", "csh", "fo", "bsp", "bzp", "cdc", "res", "cdp", "V", "F", "VT", "VN", "G", "S", "O", "P", "L", "Usemtl",
    "USEMTL", "usemtl:", "vv", "vtn", "f1", "v1", "1", "off", "-", "o:", "\u{feff}v", "é",
];

/// A word that starts no OBJ statement.
fn non_tag(src: &mut Src) -> String {
    let w = match src.weighted(&[4, 2, 2]) {
        0 => (*src.pick(&UNKNOWN)).to_owned(),
        1 => word(src),
        _ => src.pick(&dict().words).clone(),
    };
    if is_obj_tag(&w) || w == "mtllib" {
        "x".to_owned()
    } else {
        w
    }
}

fn floats(src: &mut Src, n: usize) -> Vec<String> {
    (0..n).map(|_| num(src, false).txt).collect()
}

/// A faulty OBJ statement of any kind.
pub fn bad_statement(src: &mut Src, base: [usize; 3], cnt: [usize; 3]) -> Vec<String> {
    let one = |t: &str| vec![t.to_owned()];
    match src.usize(11) {
        10 => {
            let w: Vec<String> = match src.usize(6) {
                0 => [one("v"), floats(src, 3)].concat(),
                1 => [one("vn"), floats(src, 3)].concat(),
                2 => [one("vt"), floats(src, 2)].concat(),
                3 => vec!["s".to_owned(), "1".to_owned()],
                4 => vec!["usemtl".to_owned(), word(src)],
                _ => vec!["p".to_owned(), (base[0] + 1).to_string(), (base[0] + 1).to_string()],
            };
            with_option(src, w)
        }
        0 | 1 => {
            let mut w = vec![non_tag(src)];
            let n = src.len(2, 6);
            for _ in 0..n {
                w.push(if src.chance(1, 2) { num(src, false).txt } else { word(src) });
            }
            w
        }
        2 => {
            // Too few numbers.
            let (tag, min) = *src.pick(&[("v", 3), ("vn", 3), ("vt", 1)]);
            let n = src.usize(min);
            let mut w = one(tag);
            w.extend(floats(src, n));
            w
        }
        3 => {
            // Not a number.
            let (tag, min, max) = *src.pick(&[("v", 3, 4), ("vn", 3, 3), ("vt", 1, 3)]);
            let n = src.range(min, max);
            let mut w = one(tag);
            w.extend(floats(src, n));
            let at = 1 + src.usize(n);
            w[at] = not_float(src);
            w
        }
        4 => {
            // Surplus.
            let (tag, max) = *src.pick(&[("v", 4), ("vn", 3), ("vt", 3)]);
            let mut w = one(tag);
            let extra = 1 + src.len(1, 4);
            w.extend(floats(src, max));
            for _ in 0..extra {
                w.push(if src.chance(3, 4) { num(src, false).txt } else { non_tag(src) });
            }
            w
        }
        5 => {
            let mut w = one("s");
            let v = match src.usize(4) {
                0 => (*src.pick(&["on", "-1", "1.5", "OFF", "Off", "x", "1e1", "off1", "-", "1/1", "0x1", "none"])).to_owned(),
                1 => (*src.pick(&["18446744073709551616", "99999999999999999999999", "-0", "-5", "340282366920938463463374607431768211456"]))
                    .to_owned(),
                2 => not_int(src, "1"),
                _ => {
                    w.push(src.below(5).to_string());
                    non_tag(src)
                }
            };
            w.push(v);
            w
        }
        6 => one(*src.pick(&["s", "usemtl", "o"])),
        7 => {
            let tag = *src.pick(&["usemtl", "o"]);
            let mut w = one(tag);
            let n = 2 + src.len(1, 4);
            for _ in 0..n {
                w.push(non_tag(src));
            }
            w
        }
        _ => {
            let long = src.usize(5);
            bad_element(src, base, cnt, long)
        }
    }
}

const MTL_UNKNOWN: [&str; 34] = [
    "Tr", "sharpness", "refl", "map_refl", "map_Ni", "map_aat", "halo", "Pr", "Pm", "norm", "ka", "kd", "KA", "NS", "ns",
    "D", "Illum", "map_ka", "Map_Ka", "map_bump", "Bump", "Disp", "map_D", "Decal", "Newmtl", "map", "K", "Kx", "map_K",
    "illum2", "v", "usemtl", "-", "é",
];

fn mtl_non_tag(src: &mut Src) -> String {
    let w = match src.weighted(&[4, 2, 2]) {
        0 => (*src.pick(&MTL_UNKNOWN)).to_owned(),
        1 => word(src),
        _ => src.pick(&dict().words).clone(),
    };
    if is_mtl_tag(&w) {
        "x".to_owned()
    } else {
        w
    }
}

/// A faulty MTL statement.
pub fn bad_mtl_statement(src: &mut Src) -> Vec<String> {
    let one = |t: &str| vec![t.to_owned()];
    match src.usize(10) {
        9 => {
            let w: Vec<String> = match src.usize(4) {
                0 => [one(*src.pick(&["Ka", "Kd", "Ks", "Ke"])), floats(src, 3)].concat(),
                1 => [one(*src.pick(&["Ns", "d", "Ni"])), floats(src, 1)].concat(),
                2 => vec!["illum".to_owned(), "1".to_owned()],
                _ => vec![(*src.pick(&MAPS)).to_owned(), word(src)],
            };
            with_option(src, w)
        }
        0 | 1 => {
            let mut w = vec![mtl_non_tag(src)];
            let n = src.len(2, 6);
            for _ in 0..n {
                w.push(if src.chance(1, 2) { num(src, false).txt } else { word(src) });
            }
            w
        }
        2 => {
            let (tag, min) = *src.pick(&[("Ka", 3), ("Kd", 3), ("Ks", 3), ("Ke", 3), ("Ns", 1), ("d", 1), ("Ni", 1)]);
            let n = src.usize(min);
            let mut w = one(tag);
            w.extend(floats(src, n));
            w
        }
        3 => {
            let (tag, min) = *src.pick(&[("Ka", 3), ("Kd", 3), ("Ks", 3), ("Ke", 3), ("Ns", 1), ("d", 1), ("Ni", 1)]);
            let mut w = one(tag);
            w.extend(floats(src, min));
            let at = 1 + src.usize(min);
            w[at] = not_float(src);
            w
        }
        4 => {
            let (tag, min) = *src.pick(&[("Ka", 3), ("Kd", 3), ("Ks", 3), ("Ke", 3), ("Ns", 1), ("d", 1), ("Ni", 1)]);
            let mut w = one(tag);
            w.extend(floats(src, min));
            let extra = 1 + src.len(1, 4);
            for _ in 0..extra {
                w.push(if src.chance(3, 4) { num(src, false).txt } else { mtl_non_tag(src) });
            }
            w
        }
        5 => {
            let mut w = one("illum");
            let v = match src.usize(4) {
                0 => (3 + src.below(9)).to_string(),
                1 => (*src.pick(&["-1", "-0", "256", "258", "65536", "65538", "4294967296", "4294967298", "18446744073709551616", "18446744073709551618", "2.0", "1.5", "1e0", "x", "on", "off", "2x", "0x2"]))
                    .to_owned(),
                2 if src.chance(1, 2) => return w,
                2 => not_int(src, "1"),
                _ => {
                    w.push(src.below(3).to_string());
                    if src.chance(1, 2) {
                        src.below(3).to_string()
                    } else {
                        mtl_non_tag(src)
                    }
                }
            };
            w.push(v);
            w
        }
        6 => one(if src.chance(1, 4) { "newmtl" } else { *src.pick(&MAPS) }),
        _ => {
            let tag = if src.chance(1, 4) { "newmtl" } else { *src.pick(&MAPS) };
            let mut w = one(tag);
            let n = 2 + src.len(1, 4);
            for _ in 0..n {
                w.push(mtl_non_tag(src));
            }
            w
        }
    }
}

//! Turning statement lines into text: a plain layout, and random equivalent
//! ones (separators, indentation, blank and comment lines, line endings).

use crate::gen::word;
use crate::src::Src;

pub struct Text {
    pub text: String,
    /// Physical line number (from 1) of each statement line.
    pub at: Vec<usize>,
}

pub fn plain(lines: &[Vec<String>]) -> Text {
    let mut text = String::new();
    for l in lines {
        for (i, w) in l.iter().enumerate() {
            if i > 0 {
                text.push(' ');
            }
            text.push_str(w);
        }
        text.push('\n');
    }
    Text { text, at: (1..=lines.len()).collect() }
}

/// Comment text: anything without line ends.
pub fn comment(src: &mut Src) -> String {
    let n = src.len(2, 8);
    let mut s = String::from("#");
    for _ in 0..n {
        match src.weighted(&[4, 2, 2, 2, 1, 1, 2]) {
            0 => s.push_str(&word(src)),
            1 => s.push(' '),
            2 => s.push_str(*src.pick(&["v 1 2 3", "o x", "f 1 2 3", "newmtl z", "usemtl q", "g k", "s 2", "Ka 1 1 1"])),
            3 => s.push_str(*src.pick(&["#", "\\", "\t", "\\n", "\"", "é", "\u{2028}", "\u{85}", "\u{b}", "\u{c}", "\u{0}"])),
            4 => s.push_str("\\"),
            5 => s.push_str(&"-".repeat(src.usize(80))),
            _ => s.push_str(src.pick(&crate::dict::dict().phrases).trim_start_matches('#')),
        }
    }
    s
}

#[derive(Clone, Copy, PartialEq)]
enum Eol {
    Lf,
    Crlf,
    Cr,
    Mixed,
}

#[derive(Clone)]
pub struct Style {
    eol: Eol,
    seps: usize,
    indent: u64,
    trail: u64,
    comments: u64,
    glued: u64,
    own: u64,
    blanks: u64,
    pub drop_final: bool,
    /// A block of this many extra blank or comment lines at one place.
    pub burst: usize,
}

pub fn style(src: &mut Src) -> Style {
    Style {
        eol: *src.pick(&[Eol::Lf, Eol::Crlf, Eol::Cr, Eol::Mixed]),
        seps: src.usize(5),
        indent: src.below(4),
        trail: src.below(4),
        comments: src.below(4),
        glued: src.below(3),
        own: src.below(4),
        blanks: src.below(4),
        drop_final: src.chance(1, 3),
        burst: 0,
    }
}

fn sep(src: &mut Src, st: &Style, out: &mut String, min: usize) {
    let n = min + src.len(1, 5);
    for _ in 0..n {
        out.push(match st.seps {
            0 => ' ',
            1 => '\t',
            2 => *src.pick(&[' ', '\t']),
            3 => *src.pick(&[' ', '\\']),
            _ => *src.pick(&[' ', '\t', '\\']),
        });
    }
}

struct Out {
    text: String,
    line: usize,
    after_cr: bool,
}

impl Out {
    fn end(&mut self, src: &mut Src, st: &Style, empty: bool) {
        let mut e = match st.eol {
            Eol::Lf => "\n",
            Eol::Crlf => "\r\n",
            Eol::Cr => "\r",
            Eol::Mixed => *src.pick(&["\n", "\r\n", "\r"]),
        };
        // CR, nothing, LF would read as one CRLF.
        if e == "\n" && empty && self.after_cr {
            e = "\r\n";
        }
        self.text.push_str(e);
        self.after_cr = e == "\r";
        self.line += 1;
    }
}

fn filler(src: &mut Src, st: &Style, out: &mut Out) {
    while src.chance(st.blanks, 12) {
        let len = out.text.len();
        if src.chance(1, 2) {
            sep(src, st, &mut out.text, 0);
        }
        let empty = out.text.len() == len;
        out.end(src, st, empty);
    }
    while src.chance(st.own, 12) {
        if src.chance(1, 2) {
            sep(src, st, &mut out.text, 0);
        }
        out.text.push_str(&comment(src));
        out.end(src, st, false);
    }
}

/// `keep_final`: a final line end must stay (after an object name).
pub fn fancy(src: &mut Src, lines: &[Vec<String>], st: &Style, keep_final: bool) -> Text {
    let mut out = Out { text: String::new(), line: 1, after_cr: false };
    let mut at = vec![];
    let burst_at = if st.burst > 0 { src.usize(lines.len() + 1) } else { usize::MAX };
    let burst_kind = if st.burst > 0 { src.usize(4) } else { 0 };
    let mut last_needs_eol = false;
    for (i, l) in lines.iter().enumerate() {
        filler(src, st, &mut out);
        if i == burst_at {
            burst(src, st, burst_kind, &mut out);
        }
        if src.chance(st.indent, 6) {
            sep(src, st, &mut out.text, 1);
        }
        at.push(out.line);
        for (k, w) in l.iter().enumerate() {
            if k > 0 {
                sep(src, st, &mut out.text, 1);
            }
            out.text.push_str(w);
        }
        if src.chance(st.trail, 6) {
            sep(src, st, &mut out.text, 1);
        }
        if src.chance(st.comments, 8) {
            if !src.chance(st.glued, 4) {
                sep(src, st, &mut out.text, 1);
            }
            out.text.push_str(&comment(src));
        }
        last_needs_eol = true;
        if i + 1 < lines.len() || !st.drop_final || keep_final || burst_at == lines.len() {
            out.end(src, st, false);
            last_needs_eol = false;
        }
    }
    if burst_at == lines.len() {
        burst(src, st, burst_kind, &mut out);
    }
    if !last_needs_eol {
        filler(src, st, &mut out);
        if src.chance(1, 8) {
            // Trailing blanks or a comment without a line end.
            sep(src, st, &mut out.text, 0);
            if src.chance(1, 2) {
                out.text.push_str(&comment(src));
            }
        }
    }
    Text { text: out.text, at }
}

fn burst(src: &mut Src, st: &Style, kind: usize, out: &mut Out) {
    for _ in 0..st.burst {
        match kind {
            0 => out.end(src, st, true),
            1 => {
                out.text.push_str("# filler");
                out.end(src, st, false);
            }
            2 => {
                // One long run of blanks on the line of the next statement.
                out.text.push(if st.seps == 1 { '\t' } else { ' ' });
            }
            _ => {
                out.text.push_str(" \\ \t");
                out.end(src, st, false);
            }
        }
    }
    if kind == 2 && st.burst > 0 {
        out.text.push('#');
        for _ in 0..st.burst {
            out.text.push_str("é ");
        }
        out.end(src, st, false);
    }
}

/// Whether a text made of these lines must keep its last line end.
pub fn must_keep_final(lines: &[Vec<String>]) -> bool {
    lines.last().map(|l| l.iter().any(|w| w == "o")).unwrap_or(false)
}

//! Sizes and words worth trying: fixed boundary sizes, plus the integer and
//! string literals that occur in the sources under test (an automatic fuzzing
//! dictionary; it only widens the generators, no verdict depends on it).

use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub sizes: Vec<usize>,
    pub words: Vec<String>,
    /// Whole string and character literals.
    pub phrases: Vec<String>,
    pub ints: Vec<i64>,
    pub floats: Vec<f64>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(build)
}

pub fn repo() -> String {
    std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".to_owned())
}

pub const MAX_SIZE: usize = 140_000;

fn build() -> Dict {
    let mut sizes: Vec<usize> = vec![];
    for k in 3..=17u32 {
        let p = 1usize << k;
        sizes.extend([p - 1, p, p + 1, p + 2]);
    }
    sizes.extend([10, 12, 20, 50, 99, 100, 101, 200, 500, 999, 1000, 1001, 5000, 9999, 10000, 10001, 20000, 50000]);
    let mut dict = Dict::default();
    let mut files: Vec<_> = match std::fs::read_dir(format!("{}/src", repo())) {
        Ok(dir) => dir.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => vec![],
    };
    files.sort();
    for path in files {
        if path.extension().map(|e| e != "rs").unwrap_or(true) {
            continue;
        }
        let Ok(text) = std::fs::read_to_string(&path) else { continue };
        let code: Vec<&str> = text
            .split("#[cfg(test)]")
            .next()
            .unwrap_or("")
            .lines()
            .filter(|l| !l.trim_start().starts_with("//"))
            .collect();
        harvest(&code.join("\n"), &mut dict);
    }
    let Dict { mut words, mut phrases, mut ints, mut floats, .. } = dict;
    for &i in &ints {
        for v in [i - 1, i, i + 1] {
            if (3..=MAX_SIZE as i64).contains(&v) {
                sizes.push(v as usize);
            }
        }
    }
    sizes.sort();
    sizes.dedup();
    sizes.retain(|&s| s <= MAX_SIZE);
    words.sort();
    words.dedup();
    ints.sort();
    ints.dedup();
    phrases.sort();
    phrases.dedup();
    floats.sort_by(f64::total_cmp);
    floats.dedup();
    if phrases.is_empty() {
        phrases.push("a".to_owned());
    }
    if floats.is_empty() {
        floats.push(1.0);
    }
    if words.is_empty() {
        words.push("a".to_owned());
    }
    if ints.is_empty() {
        ints.push(1);
    }
    Dict { sizes, words, phrases, ints, floats }
}

pub fn is_word(w: &str) -> bool {
    !w.is_empty() && !w.chars().any(|c| matches!(c, ' ' | '\t' | '\\' | '\n' | '\r' | '#'))
}

/// Reads the rest of a literal up to the quote, with its escapes.
fn literal(c: &[char], i: &mut usize, quote: char) -> String {
    let mut s = String::new();
    while *i < c.len() && c[*i] != quote {
        if c[*i] == '\\' && *i + 1 < c.len() {
            *i += 1;
            match c[*i] {
                'n' => s.push('\n'),
                'r' => s.push('\r'),
                't' => s.push('\t'),
                '0' => s.push('\0'),
                'x' => {
                    let h: String = c[*i + 1..].iter().take(2).collect();
                    s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                    *i += 2;
                }
                'u' => {
                    let h: String = c[*i + 1..].iter().skip(1).take_while(|x| **x != '}').collect();
                    s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                    *i += h.len() + 2;
                }
                '\n' => {}
                o => s.push(o),
            }
        } else {
            s.push(c[*i]);
        }
        *i += 1;
    }
    s
}

fn harvest(code: &str, dict: &mut Dict) {
    let c: Vec<char> = code.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\'' {
            // A character, or a lifetime.
            let mut j = i + 1;
            if j < c.len() && (c[j] == '\\' || (j + 1 < c.len() && c[j + 1] == '\'')) {
                let first = c[j];
                let s = if first == '\'' { String::new() } else if first == '\\' && j + 1 < c.len() && c[j + 1] == '\'' {
                    j += 2;
                    "'".to_owned()
                } else {
                    literal(&c, &mut j, '\'')
                };
                if s.chars().count() == 1 {
                    if !matches!(s.as_str(), "\n" | "\r") {
                        dict.phrases.push(s.clone());
                    }
                    if is_word(&s) {
                        dict.words.push(s);
                    }
                }
                i = j;
            }
        } else if c[i] == '"' {
            i += 1;
            let s = literal(&c, &mut i, '"');
            if s.len() <= 40 {
                for w in s.split(|ch: char| ch.is_whitespace() || ch == '`' || ch == '#') {
                    if is_word(w) && w.len() <= 16 {
                        dict.words.push(w.to_owned());
                    }
                }
                let line: String = s.chars().filter(|ch| !matches!(ch, '\n' | '\r')).collect();
                if !line.is_empty() && !line.contains('{') {
                    dict.phrases.push(line);
                }
            }
        } else if c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let start = i;
            let mut s = String::new();
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                if c[i] != '_' {
                    s.push(c[i]);
                }
                i += 1;
            }
            // Floating point literals: `0.5`, `1e-6`, `2.0_f64`.
            let mut j = start;
            let mut f = String::new();
            while j < c.len()
                && (c[j].is_ascii_digit()
                    || c[j] == '_'
                    || (c[j] == '.' && j + 1 < c.len() && c[j + 1].is_ascii_digit())
                    || (c[j] == 'e' && j + 1 < c.len() && (c[j + 1].is_ascii_digit() || c[j + 1] == '-'))
                    || (c[j] == '-' && f.ends_with('e')))
            {
                if c[j] != '_' {
                    f.push(c[j]);
                }
                j += 1;
            }
            if let (true, Ok(v)) = (f.contains(['.', 'e']), f.parse::<f64>()) {
                if v.is_finite() {
                    dict.floats.push(v);
                }
            }
            let v = if let Some(h) = s.strip_prefix("0x") {
                i64::from_str_radix(h.trim_end_matches(|ch: char| !ch.is_ascii_hexdigit()), 16).ok()
            } else {
                let digits: String = s.chars().take_while(|ch| ch.is_ascii_digit()).collect();
                digits.parse::<i64>().ok()
            };
            if let Some(v) = v {
                if v < 1 << 40 {
                    dict.ints.push(v);
                    // shifts such as `1 << 16`
                    if v <= 20 {
                        dict.ints.push(1 << v);
                    }
                }
            }
            continue;
        }
        i += 1;
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn literals() {
        let mut d = Dict::default();
        harvest(r##"let a: &'a str = "#MRGB x"; b'"'; '\''; '\u{3b}' "ab\n" 1e-6 0.25_f64 0x10 1..2"##, &mut d);
        assert_eq!(d.phrases, ["#MRGB x", "\"", "'", ";", "ab"]);
        assert_eq!(d.words, ["MRGB", "x", "\"", "'", ";", "ab"]);
        assert_eq!(d.floats, [1e-6, 0.25]);
        assert!(d.ints.contains(&16) && d.ints.contains(&1) && d.ints.contains(&2));
    }
}

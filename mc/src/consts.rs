//! Dictionary for the alphabets: literals that occur in the current sources, so that inputs on which
//! the code branches are part of the enumerated space.
use std::collections::BTreeSet;

pub struct Consts {
    pub ints: Vec<usize>,
    pub strings: Vec<String>,
}

fn visit(dir: &std::path::Path, f: &mut dyn FnMut(&str)) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            visit(&p, f);
        } else if p.extension().is_some_and(|e| e == "rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                f(&s);
            }
        }
    }
}

pub fn scan() -> Consts {
    let mut ints = BTreeSet::new();
    let mut strings = BTreeSet::new();
    visit(std::path::Path::new("/repo/json_typegen_shared/src"), &mut |s| {
        // leave out unit tests
        let s = match s.find("#[cfg(test)]") {
            Some(i) => &s[..i],
            None => s,
        };
        for line in s.lines() {
            let t = line.trim_start();
            if t.starts_with("//") {
                continue;
            }
            let b = line.as_bytes();
            let mut i = 0;
            while i < b.len() {
                if b[i] == b'"' {
                    let mut j = i + 1;
                    while j < b.len() && b[j] != b'"' {
                        j += if b[j] == b'\\' { 2 } else { 1 };
                    }
                    if j < b.len() {
                        let lit = &line[i + 1..j];
                        if !lit.is_empty() && lit.len() <= 24 && !lit.contains(['\\', '{', '}', ' ', '(', '#', '\n']) {
                            strings.insert(lit.to_string());
                        }
                    }
                    i = j + 1;
                } else if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                    let mut j = i;
                    while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                        j += 1;
                    }
                    if let Ok(n) = line[i..j].replace('_', "").parse::<usize>() {
                        for d in [n.wrapping_sub(1), n, n + 1] {
                            if d <= 300 {
                                ints.insert(d);
                            }
                        }
                    }
                    i = j;
                } else {
                    i += 1;
                }
            }
        }
    });
    Consts { ints: ints.into_iter().collect(), strings: strings.into_iter().collect() }
}

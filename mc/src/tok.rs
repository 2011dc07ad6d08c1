//! A small tokenizer shared by the independent output parsers, with per-language string syntax.

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(String),
    Str(String),
    Num(String),
    P(char),
    /// Newline followed by this many columns of indentation (Python only).
    Nl(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lx {
    Rust,
    Js,
    Python,
    Kotlin,
    Json,
}

pub type PResult<X> = Result<X, String>;

fn is_id_start(c: char, lx: Lx) -> bool {
    c == '_' || c.is_alphabetic() || (c == '$' && lx == Lx::Js)
}
fn is_id(c: char, lx: Lx) -> bool {
    is_id_start(c, lx) || c.is_numeric()
}

pub fn tokenize(src: &str, lx: Lx) -> PResult<Vec<T>> {
    let cs: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    if lx == Lx::Python && src.contains('\0') {
        return Err("NUL in Python source".into());
    }
    while i < cs.len() {
        let c = cs[i];
        match c {
            '\n' if lx == Lx::Python => {
                i += 1;
                let mut col = 0;
                while i < cs.len() && cs[i] == ' ' {
                    col += 1;
                    i += 1;
                }
                if i < cs.len() && cs[i] != '\n' {
                    out.push(T::Nl(col));
                }
            }
            ' ' | '\t' | '\n' | '\r' => i += 1,
            '/' if lx != Lx::Python && lx != Lx::Json && cs.get(i + 1) == Some(&'/') => {
                while i < cs.len() && cs[i] != '\n' {
                    i += 1;
                }
            }
            '"' => {
                let (s, j) = string(&cs, i + 1, lx)?;
                out.push(T::Str(s));
                i = j;
            }
            '\'' if matches!(lx, Lx::Js | Lx::Python) => return Err("unexpected quote".into()),
            c if c.is_ascii_digit() || (c == '-' && lx == Lx::Json) => {
                let s = i;
                i += 1;
                while i < cs.len() && (cs[i].is_alphanumeric() || matches!(cs[i], '.' | '+' | '-')) {
                    i += 1;
                }
                out.push(T::Num(cs[s..i].iter().collect()));
            }
            c if is_id_start(c, lx) => {
                let s = i;
                while i < cs.len() && is_id(cs[i], lx) {
                    i += 1;
                }
                let id: String = cs[s..i].iter().collect();
                if !id.is_ascii() {
                    return Err(format!("non-ASCII identifier {:?}", id));
                }
                out.push(T::Id(id));
            }
            c if c.is_ascii_punctuation() => {
                out.push(T::P(c));
                i += 1;
            }
            c => return Err(format!("stray character {:?}", c)),
        }
    }
    Ok(out)
}

fn hexn(cs: &[char], i: usize, n: usize) -> PResult<u32> {
    if i + n > cs.len() {
        return Err("short hex escape".into());
    }
    let s: String = cs[i..i + n].iter().collect();
    u32::from_str_radix(&s, 16).map_err(|_| format!("bad hex escape {:?}", s))
}

fn string(cs: &[char], mut i: usize, lx: Lx) -> PResult<(String, usize)> {
    // UTF-16 code units for the languages whose escapes are UTF-16.
    let mut out = String::new();
    let mut pend: Option<u32> = None;
    macro_rules! push {
        ($cp:expr) => {{
            let cp: u32 = $cp;
            if let Some(h) = pend.take() {
                if (0xDC00..0xE000).contains(&cp) {
                    let f = 0x10000 + ((h - 0xD800) << 10) + (cp - 0xDC00);
                    out.push(char::from_u32(f).unwrap());
                } else {
                    return Err("unpaired surrogate in literal".into());
                }
            } else if (0xD800..0xDC00).contains(&cp) {
                pend = Some(cp);
            } else {
                out.push(char::from_u32(cp).ok_or_else(|| format!("bad code point {:x}", cp))?);
            }
        }};
    }
    loop {
        let Some(&c) = cs.get(i) else { return Err("unterminated string literal".into()) };
        i += 1;
        match c {
            '"' => {
                if pend.is_some() {
                    return Err("unpaired surrogate in literal".into());
                }
                return Ok((out, i));
            }
            '\n' if lx != Lx::Rust => return Err("raw line break in string literal".into()),
            '\r' => return Err("raw CR in string literal".into()),
            c if lx == Lx::Json && (c as u32) < 0x20 => return Err("raw control character in JSON string".into()),
            '\u{202A}'..='\u{202E}' | '\u{2066}'..='\u{2069}' if lx == Lx::Rust => {
                return Err("bidirectional control character in Rust literal (deny-by-default lint)".into());
            }
            '$' if lx == Lx::Kotlin => {
                if cs.get(i).is_some_and(|n| *n == '{' || *n == '_' || *n == '`' || n.is_alphabetic()) {
                    return Err("string template in Kotlin literal".into());
                }
                push!('$' as u32);
            }
            '\\' => {
                let Some(&e) = cs.get(i) else { return Err("unterminated escape".into()) };
                i += 1;
                match (e, lx) {
                    ('n', _) => push!(10),
                    ('r', _) => push!(13),
                    ('t', _) => push!(9),
                    ('\\', _) => push!('\\' as u32),
                    ('"', _) => push!('"' as u32),
                    ('\'', Lx::Rust | Lx::Js | Lx::Python | Lx::Kotlin) => push!('\'' as u32),
                    ('b', Lx::Js | Lx::Python | Lx::Kotlin | Lx::Json) => push!(8),
                    ('f', Lx::Js | Lx::Python | Lx::Json) => push!(12),
                    ('v', Lx::Js | Lx::Python) => push!(11),
                    ('a', Lx::Python) => push!(7),
                    ('/', Lx::Json | Lx::Js) => push!('/' as u32),
                    ('$', Lx::Kotlin | Lx::Js) => push!('$' as u32),
                    ('0', Lx::Rust) => push!(0),
                    ('0', Lx::Js) => {
                        if cs.get(i).is_some_and(|c| c.is_ascii_digit()) {
                            return Err("octal escape".into());
                        }
                        push!(0)
                    }
                    ('0'..='7', Lx::Python) => {
                        let mut v = e.to_digit(8).unwrap();
                        let mut n = 1;
                        while n < 3 && cs.get(i).is_some_and(|c| c.is_digit(8)) {
                            v = v * 8 + cs[i].to_digit(8).unwrap();
                            i += 1;
                            n += 1;
                        }
                        push!(v)
                    }
                    ('x', Lx::Rust | Lx::Js | Lx::Python) => {
                        let v = hexn(cs, i, 2)?;
                        if lx == Lx::Rust && v > 0x7f {
                            return Err("\\x escape out of range".into());
                        }
                        i += 2;
                        push!(v)
                    }
                    ('u', Lx::Rust) => {
                        if cs.get(i) != Some(&'{') {
                            return Err("bad \\u escape in Rust literal".into());
                        }
                        let close = cs[i..].iter().position(|c| *c == '}').ok_or("bad \\u escape")? + i;
                        let v = hexn(cs, i + 1, close - i - 1)?;
                        i = close + 1;
                        push!(v)
                    }
                    ('u', _) => {
                        if lx == Lx::Js && cs.get(i) == Some(&'{') {
                            let close = cs[i..].iter().position(|c| *c == '}').ok_or("bad \\u escape")? + i;
                            let v = hexn(cs, i + 1, close - i - 1)?;
                            i = close + 1;
                            push!(v)
                        } else {
                            let v = hexn(cs, i, 4)?;
                            i += 4;
                            if lx == Lx::Python && (0xD800..0xE000).contains(&v) {
                                return Err("surrogate escape in Python literal".into());
                            }
                            push!(v)
                        }
                    }
                    ('U', Lx::Python) => {
                        let v = hexn(cs, i, 8)?;
                        i += 8;
                        push!(v)
                    }
                    (e, Lx::Js) if !e.is_ascii_digit() && e != '\n' => push!(e as u32),
                    (e, Lx::Python) if e != '\n' && e != 'N' => {
                        push!('\\' as u32);
                        push!(e as u32)
                    }
                    (e, _) => return Err(format!("invalid escape \\{}", e)),
                }
            }
            c => push!(c as u32),
        }
    }
}

/// Token cursor.
pub struct Cur {
    pub t: Vec<T>,
    pub i: usize,
}

impl Cur {
    pub fn new(src: &str, lx: Lx) -> PResult<Cur> {
        Ok(Cur { t: tokenize(src, lx)?, i: 0 })
    }
    pub fn done(&self) -> bool {
        self.i >= self.t.len()
    }
    pub fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    pub fn at(&self, k: usize) -> Option<&T> {
        self.t.get(self.i + k)
    }
    pub fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    pub fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(T::Id(x)) if x == s)
    }
    pub fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn p(&mut self, c: char) -> PResult<()> {
        if self.eat(c) { Ok(()) } else { Err(self.err(&format!("expected '{}'", c))) }
    }
    pub fn ps(&mut self, s: &str) -> PResult<()> {
        for c in s.chars() {
            self.p(c)?;
        }
        Ok(())
    }
    pub fn kw(&mut self, s: &str) -> PResult<()> {
        if self.eat_id(s) { Ok(()) } else { Err(self.err(&format!("expected '{}'", s))) }
    }
    pub fn id(&mut self) -> PResult<String> {
        match self.peek() {
            Some(T::Id(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            _ => Err(self.err("expected identifier")),
        }
    }
    pub fn str(&mut self) -> PResult<String> {
        match self.peek() {
            Some(T::Str(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            _ => Err(self.err("expected string literal")),
        }
    }
    pub fn err(&self, m: &str) -> String {
        format!("{} at token {} ({:?})", m, self.i, self.peek())
    }
}

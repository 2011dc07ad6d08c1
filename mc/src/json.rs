//! Boring reference JSON: value AST, printer, and an RFC 8259 recogniser.

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<Val>),
    Obj(Vec<(String, Val)>),
    /// Model-only markers: a value replaced by an opaque type hint, and an object to be read as a map.
    Opq(String),
    MapObj(Vec<(String, Val)>),
}

pub fn int() -> Val {
    Val::Num("1".into())
}
pub fn flt() -> Val {
    Val::Num("1.5".into())
}
pub fn st() -> Val {
    Val::Str("s".into())
}
pub fn obj(f: &[(&str, Val)]) -> Val {
    Val::Obj(f.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}
pub fn arr(v: &[Val]) -> Val {
    Val::Arr(v.to_vec())
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Val {
    pub fn nodes(&self) -> usize {
        match self {
            Val::Arr(v) => 1 + v.iter().map(|x| x.nodes()).sum::<usize>(),
            Val::Obj(f) | Val::MapObj(f) => 1 + f.iter().map(|x| x.1.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn write(&self, o: &mut String) {
        match self {
            Val::Null => o.push_str("null"),
            Val::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            Val::Num(n) => o.push_str(n),
            Val::Str(s) => o.push_str(&esc(s)),
            Val::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            Val::Obj(f) | Val::MapObj(f) => {
                o.push('{');
                for (i, (k, x)) in f.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&esc(k));
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
            Val::Opq(t) => o.push_str(&format!("<opaque {}>", t)),
        }
    }
}

/// Outcome of the reference parser.
#[derive(Debug, Clone, PartialEq)]
pub enum Ref {
    /// A complete JSON text.
    Ok(Val),
    /// Not a JSON text.
    Bad(&'static str),
    /// Outside what the property fixes (raw control characters in strings, lone surrogate escapes).
    DontCare(&'static str),
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    dont_care: Option<&'static str>,
}

pub fn parse(b: &[u8]) -> Ref {
    let mut p = P { b, i: 0, dont_care: None };
    let r = (|| {
        let v = p.value(0)?;
        p.ws();
        if p.i != b.len() {
            return Err("trailing characters");
        }
        Ok(v)
    })();
    match (r, p.dont_care) {
        (_, Some(d)) => Ref::DontCare(d),
        (Ok(v), None) => Ref::Ok(v),
        (Err(e), None) => Ref::Bad(e),
    }
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn lit(&mut self, s: &str, v: Val) -> Result<Val, &'static str> {
        if self.b[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            Ok(v)
        } else {
            Err("bad literal")
        }
    }
    fn value(&mut self, depth: usize) -> Result<Val, &'static str> {
        self.ws();
        match self.peek() {
            None => Err("end of input"),
            Some(b't') => self.lit("true", Val::Bool(true)),
            Some(b'f') => self.lit("false", Val::Bool(false)),
            Some(b'n') => self.lit("null", Val::Null),
            Some(b'"') => Ok(Val::Str(self.string()?)),
            Some(b'-' | b'0'..=b'9') => self.number(),
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == Some(b']') {
                    self.i += 1;
                    return Ok(Val::Arr(v));
                }
                loop {
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(Val::Arr(v));
                        }
                        _ => return Err("expected , or ]"),
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut f: Vec<(String, Val)> = vec![];
                self.ws();
                if self.peek() == Some(b'}') {
                    self.i += 1;
                    return Ok(Val::Obj(f));
                }
                loop {
                    self.ws();
                    if self.peek() != Some(b'"') {
                        return Err("expected key");
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != Some(b':') {
                        return Err("expected :");
                    }
                    self.i += 1;
                    let v = self.value(depth + 1)?;
                    match f.iter_mut().find(|(n, _)| *n == k) {
                        Some(e) => e.1 = v,
                        None => f.push((k, v)),
                    }
                    self.ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(Val::Obj(f));
                        }
                        _ => return Err("expected , or }"),
                    }
                }
            }
            Some(_) => Err("unexpected character"),
        }
    }
    fn digits(&mut self) -> Result<(), &'static str> {
        let s = self.i;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.i += 1;
        }
        if s == self.i { Err("expected digit") } else { Ok(()) }
    }
    fn number(&mut self) -> Result<Val, &'static str> {
        let s = self.i;
        if self.peek() == Some(b'-') {
            self.i += 1;
        }
        match self.peek() {
            Some(b'0') => {
                self.i += 1;
                if matches!(self.peek(), Some(b'0'..=b'9')) {
                    return Err("leading zero");
                }
            }
            _ => self.digits()?,
        }
        if self.peek() == Some(b'.') {
            self.i += 1;
            self.digits()?;
        }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.peek(), Some(b'+' | b'-')) {
                self.i += 1;
            }
            self.digits()?;
        }
        if matches!(self.peek(), Some(b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9')) {
            return Err("malformed number");
        }
        Ok(Val::Num(String::from_utf8(self.b[s..self.i].to_vec()).unwrap()))
    }
    fn hex4(&mut self) -> Result<u32, &'static str> {
        let mut c = 0;
        for _ in 0..4 {
            let d = match self.peek() {
                Some(b) => (b as char).to_digit(16).ok_or("bad \\u escape")?,
                None => return Err("end of input"),
            };
            c = c * 16 + d;
            self.i += 1;
        }
        Ok(c)
    }
    fn string(&mut self) -> Result<String, &'static str> {
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            let b = self.peek().ok_or("unterminated string")?;
            self.i += 1;
            match b {
                b'"' => {
                    return String::from_utf8(out).map_err(|_| "invalid UTF-8");
                }
                b'\\' => {
                    let e = self.peek().ok_or("unterminated escape")?;
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => out.push(e),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'n' => out.push(10),
                        b'r' => out.push(13),
                        b't' => out.push(9),
                        b'u' => {
                            let c = self.hex4()?;
                            let cp = if (0xD800..0xDC00).contains(&c)
                                && self.b[self.i..].starts_with(b"\\u")
                            {
                                let save = self.i;
                                self.i += 2;
                                let d = self.hex4()?;
                                if (0xDC00..0xE000).contains(&d) {
                                    0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00)
                                } else {
                                    self.i = save;
                                    c
                                }
                            } else {
                                c
                            };
                            match char::from_u32(cp) {
                                Some(ch) => {
                                    let mut buf = [0; 4];
                                    out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                                }
                                None => {
                                    self.dont_care = Some("lone surrogate escape");
                                    out.push(b'?');
                                }
                            }
                        }
                        _ => return Err("bad escape"),
                    }
                }
                b if b < 0x20 => {
                    self.dont_care = Some("raw control character in string");
                    out.push(b);
                }
                b => out.push(b),
            }
        }
    }
}

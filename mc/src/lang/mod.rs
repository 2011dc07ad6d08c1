//! Independent readers for the generated code, and the check of what it denotes.
pub mod kotlin;
pub mod python;
pub mod rust;
pub mod schema;
pub mod shape;
pub mod ts;
pub mod zod;

use crate::model::R;
use std::collections::{HashMap, HashSet};

/// Type denoted by a piece of generated code.
#[derive(Clone, Debug, PartialEq)]
pub enum L {
    Any,
    /// `null` in shape mode
    NullLit,
    Bottom,
    Bool,
    Int,
    Float,
    Num,
    Str,
    Seq(Box<L>),
    Tup(Vec<L>),
    Map(Box<L>),
    Obj(Vec<Mem>),
    /// unresolved path with arguments, e.g. `std::collections::HashMap<String, X>`
    Path(String, Vec<L>),
    Ref(String),
    Opaque(String),
    /// T | null, .nullable()
    Nullable(Box<L>),
    /// Option<T>, T?, Optional[T]
    Opt(Box<L>),
    /// T | undefined / .optional() outside of a member position
    Undef(Box<L>),
    Boxed(Box<L>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Mem {
    pub ident: String,
    /// effective serialized name
    pub wire: String,
    pub explicit: bool,
    pub quoted: bool,
    pub opt: bool,
    pub default: bool,
    pub vis: String,
    pub ty: L,
}

#[derive(Clone, Debug, Default)]
pub struct Decl {
    pub name: String,
    pub vis: String,
    pub derives: Vec<String>,
    pub attrs: Vec<String>,
    pub members: Vec<Mem>,
    /// flattened catch-all member, if any
    pub extra: Option<(String, L)>,
}

#[derive(Clone, Debug, Default)]
pub struct Module {
    pub imports: Vec<String>,
    pub decls: Vec<Decl>,
    pub aliases: Vec<(String, String, L)>, // vis, name, type
    pub root: Option<L>,
    /// names of all items in textual order
    pub order: Vec<String>,
    pub externals: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Lang {
    Rust,
    Ts,
    Alias,
    Jackson,
    Kotlinx,
    Python,
    Schema,
    Zod,
    Shape,
}

pub const ALL: [Lang; 9] = [
    Lang::Rust,
    Lang::Ts,
    Lang::Alias,
    Lang::Jackson,
    Lang::Kotlinx,
    Lang::Python,
    Lang::Schema,
    Lang::Zod,
    Lang::Shape,
];

impl Lang {
    pub fn mode(self) -> json_typegen_shared::OutputMode {
        use json_typegen_shared::OutputMode as O;
        match self {
            Lang::Rust => O::Rust,
            Lang::Ts => O::Typescript,
            Lang::Alias => O::TypescriptTypeAlias,
            Lang::Jackson => O::KotlinJackson,
            Lang::Kotlinx => O::KotlinKotlinx,
            Lang::Python => O::PythonPydantic,
            Lang::Schema => O::JsonSchema,
            Lang::Zod => O::ZodSchema,
            Lang::Shape => O::Shape,
        }
    }
    pub fn opt_name(self) -> &'static str {
        match self {
            Lang::Rust => "rust",
            Lang::Ts => "typescript",
            Lang::Alias => "typescript/typealias",
            Lang::Jackson => "kotlin/jackson",
            Lang::Kotlinx => "kotlin/kotlinx",
            Lang::Python => "python",
            Lang::Schema => "json_schema",
            Lang::Zod => "zod",
            Lang::Shape => "shape",
        }
    }
    pub fn from_name(s: &str) -> Option<Lang> {
        ALL.into_iter().find(|l| l.opt_name() == s)
    }
    pub fn named(self) -> bool {
        matches!(self, Lang::Rust | Lang::Ts | Lang::Jackson | Lang::Kotlinx | Lang::Python)
    }
    /// Absence and nullness are one notion (`Option`, `?`, `Optional`).
    fn one_option(self) -> bool {
        matches!(self, Lang::Rust | Lang::Jackson | Lang::Kotlinx | Lang::Python)
    }
    fn nums(self) -> bool {
        !matches!(self, Lang::Ts | Lang::Alias | Lang::Schema | Lang::Zod)
    }
    fn kotlin(self) -> bool {
        matches!(self, Lang::Jackson | Lang::Kotlinx)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sem {
    /// Rust: absent members have no Option, serde(default) on the struct
    pub use_default: bool,
    /// Rust: keep Option<Vec<..>>
    pub option_vec: bool,
}

pub const SEM: Sem = Sem { use_default: false, option_vec: false };

/// Reads generated code. `name` is the requested root name.
pub fn parse(lang: Lang, code: &str, name: &str, style: Style) -> Result<Module, String> {
    let m = match lang {
        Lang::Rust => rust::parse(code, name, style)?,
        Lang::Ts => ts::parse(code, name, false)?,
        Lang::Alias => ts::parse(code, name, true)?,
        Lang::Jackson => kotlin::parse(code, name, style, true)?,
        Lang::Kotlinx => kotlin::parse(code, name, style, false)?,
        Lang::Python => python::parse(code, name, style)?,
        Lang::Schema => schema::parse(code, name)?,
        Lang::Zod => zod::parse(code, name)?,
        Lang::Shape => shape::parse(code)?,
    };
    well_formed(lang, &m)?;
    Ok(m)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    Add,
    Assume,
    Qualified,
}

/// Distinct declared names and member identifiers.
fn well_formed(lang: Lang, m: &Module) -> Result<(), String> {
    let mut seen = HashSet::new();
    for n in m.decls.iter().map(|d| &d.name).chain(m.aliases.iter().map(|a| &a.1)) {
        if !seen.insert(n.as_str()) {
            return Err(format!("type name {} declared twice", n));
        }
    }
    if lang.named() {
        let mut imp = HashSet::new();
        for i in &m.imports {
            if !imp.insert(i) {
                return Err(format!("{} imported twice", i));
            }
        }
    }
    fn members(ms: &[Mem], extra: Option<&str>) -> Result<(), String> {
        let mut ids = HashSet::new();
        let mut wires = HashSet::new();
        for x in ms {
            if !ids.insert(x.ident.as_str()) {
                return Err(format!("member identifier {:?} declared twice", x.ident));
            }
            if !wires.insert(x.wire.as_str()) {
                return Err(format!("JSON key {:?} bound twice", x.wire));
            }
            in_type(&x.ty)?;
        }
        if let Some(e) = extra {
            if !ids.insert(e) {
                return Err(format!("member identifier {:?} declared twice", e));
            }
        }
        Ok(())
    }
    fn in_type(t: &L) -> Result<(), String> {
        match t {
            L::Obj(ms) => members(ms, None),
            L::Seq(x) | L::Map(x) | L::Nullable(x) | L::Opt(x) | L::Undef(x) | L::Boxed(x) => in_type(x),
            L::Tup(xs) => xs.iter().try_for_each(in_type),
            _ => Ok(()),
        }
    }
    for d in &m.decls {
        members(&d.members, d.extra.as_ref().map(|e| e.0.as_str()))?;
    }
    for a in &m.aliases {
        in_type(&a.2)?;
    }
    if let Some(r) = &m.root {
        in_type(r)?;
    }
    Ok(())
}

/// A deviation with a stable key for the known-findings file.
#[derive(Clone, Debug)]
pub struct Mis {
    pub key: String,
    pub msg: String,
}

fn mis<X>(path: &str, msg: impl Into<String>) -> Result<X, Mis> {
    Err(Mis { key: "mismatch".into(), msg: format!("at {}: {}", if path.is_empty() { "root" } else { path }, msg.into()) })
}

pub struct Matcher<'a> {
    lang: Lang,
    sem: Sem,
    m: &'a Module,
    by: HashMap<&'a str, &'a Decl>,
    strict: HashSet<String>,
    /// symptoms of listed findings that were met
    pub known: Vec<Mis>,
}

/// Does the module denote exactly `r`?
pub fn denotes(lang: Lang, m: &Module, name: &str, r: &R, sem: Sem) -> Result<Vec<Mis>, Mis> {
    let mut c = Matcher {
        lang,
        sem,
        m,
        by: m.decls.iter().map(|d| (d.name.as_str(), d)).collect(),
        strict: HashSet::new(),
        known: vec![],
    };
    let root = match &m.root {
        Some(l) => l.clone(),
        None => {
            if c.by.contains_key(name) || m.aliases.iter().any(|a| a.1 == name) {
                L::Ref(name.to_string())
            } else {
                return mis("", format!("no type named {} is declared", name));
            }
        }
    };
    c.ty(&root, r, "", false)?;
    for d in &m.decls {
        if !c.strict.contains(&d.name) {
            return mis("", format!("declared type {} is not exactly right for any position", d.name));
        }
    }
    Ok(c.known)
}

impl<'a> Matcher<'a> {
    /// `len`: the position is judged leniently (a type made for another position is reused here).
    fn ty(&mut self, l: &L, r: &R, path: &str, len: bool) -> Result<(), Mis> {
        match l {
            L::Boxed(x) => return self.ty(x, r, path, len),
            L::Ref(n) => {
                if let Some(a) = self.m.aliases.iter().find(|a| a.1 == *n) {
                    let t = a.2.clone();
                    return self.ty(&t, r, path, len);
                }
            }
            _ => {}
        }
        if len {
            match r {
                R::Bottom => return Ok(()),
                R::Null => {
                    return match l {
                        L::Any | L::NullLit | L::Opt(_) | L::Nullable(_) => Ok(()),
                        _ => mis(path, format!("{:?} cannot hold null", l)),
                    };
                }
                _ => {}
            }
        }
        if self.lang.one_option() {
            if let L::Opt(x) = l {
                return match r {
                    R::Nullable(i) => {
                        let mut x: &L = x;
                        while let L::Opt(y) = x {
                            x = y;
                        }
                        self.ty(x, i, path, len)
                    }
                    _ => mis(path, format!("optional type where {:?} is never absent or null", r)),
                };
            }
        }
        match (l, r) {
            (L::Any, R::Any) => Ok(()),
            (L::Any, R::Null | R::Bottom) if self.lang != Lang::Shape => Ok(()),
            (L::Bottom, R::Bottom) => Ok(()),
            (L::NullLit, R::Null) => Ok(()),
            (L::Bool, R::Bool) | (L::Str, R::Str) => Ok(()),
            (L::Int, R::Int) | (L::Float, R::Float) if self.lang.nums() => Ok(()),
            (L::Num, R::Int | R::Float) if !self.lang.nums() => Ok(()),
            (L::Opaque(a), R::Opaque(b)) if a == b => Ok(()),
            (L::Nullable(x), R::Nullable(y)) => self.ty(x, y, path, len),
            (L::Seq(x), R::Vec(y)) => self.ty(x, y, &format!("{}/-", path), len),
            (L::Seq(x), R::Tuple(ys)) if self.lang.kotlin() && ys.len() > 3 => {
                if **x == L::Any { Ok(()) } else { mis(path, format!("long tuple rendered as {:?}", l)) }
            }
            (L::Tup(xs), R::Tuple(ys)) => {
                if xs.len() != ys.len() {
                    return mis(path, format!("tuple of {} for {} elements", xs.len(), ys.len()));
                }
                for (i, (x, y)) in xs.iter().zip(ys).enumerate() {
                    self.ty(x, y, &format!("{}/{}", path, i), len)?;
                }
                Ok(())
            }
            (L::Map(x), R::Struct(f)) if self.lang.kotlin() && f.is_empty() => {
                if **x == L::Any { Ok(()) } else { mis(path, "empty object rendered as typed map") }
            }
            (L::Map(x), R::Map(y)) => self.ty(x, y, &format!("{}/-", path), len),
            (L::Obj(ms), R::Struct(fs)) => self.members(ms, fs, path, len),
            (L::Ref(n), R::Struct(fs)) => {
                let Some(d) = self.by.get(n.as_str()).copied() else {
                    return mis(path, format!("type {} is not declared", n));
                };
                let known = self.known.len();
                if self.members(&d.members, fs, path, false).is_ok() {
                    self.strict.insert(n.clone());
                    return Ok(());
                }
                self.known.truncate(known);
                self.members(&d.members, fs, path, true)
            }
            _ => mis(path, format!("generated {}, values have type {}", short(l), short(r))),
        }
    }

    fn members(&mut self, ms: &[Mem], fs: &[crate::model::Fld], path: &str, len: bool) -> Result<(), Mis> {
        if self.lang == Lang::Shape {
            return self.shape_members(ms, fs, path, len);
        }
        for m in ms {
            if !fs.iter().any(|f| f.key == m.wire) {
                return mis(path, format!("member bound to {:?}, which is no key of the object", m.wire));
            }
        }
        for f in fs {
            let p = format!("{}/{}", path, f.key);
            let Some(m) = ms.iter().find(|m| m.wire == f.key) else {
                return mis(&p, "no member for this key");
            };
            self.member(m, f, &p, len)?;
        }
        Ok(())
    }

    /// In shape notation the key of an optional member is followed by a question mark.
    fn shape_members(&mut self, ms: &[Mem], fs: &[crate::model::Fld], path: &str, len: bool) -> Result<(), Mis> {
        let mut used = HashSet::new();
        for f in fs {
            let p = format!("{}/{}", path, f.key);
            let marked = format!("{}?", f.key);
            let plain_any = |m: &&Mem| f.opt && f.ty == R::Any && m.ty == L::Any && m.wire == f.key;
            let found = ms
                .iter()
                .find(|m| if f.opt { m.wire == marked } else { m.wire == f.key })
                .map(|m| Mem { opt: f.opt, ..m.clone() })
                .or_else(|| ms.iter().find(plain_any).map(|m| Mem { opt: false, ..m.clone() }));
            let Some(m) = found else {
                return mis(&p, format!("no {} member for this key", if f.opt { "optional" } else { "required" }));
            };
            used.insert(m.wire.clone());
            self.member(&m, f, &p, len)?;
        }
        if used.len() != ms.len() {
            return mis(path, "members that are no key of the object");
        }
        Ok(())
    }

    fn member(&mut self, m: &Mem, f: &crate::model::Fld, p: &str, len: bool) -> Result<(), Mis> {
        if len && f.ty == R::Bottom {
            return Ok(());
        }
        // Listed finding: a member with conflicting types is never marked optional.
        if f.opt && f.ty == R::Any && m.ty == L::Any && !m.opt && !(self.sem.use_default) {
            self.known.push(Mis {
                key: "any-absorbs-optional".into(),
                msg: format!("at {}: values conflict and some object lacks the member, but it is not marked optional", p),
            });
            return Ok(());
        }
        if !self.lang.one_option() {
            let opt = if self.sem.use_default && !matches!(self.lang, Lang::Schema | Lang::Shape) { m.opt } else { f.opt };
            if m.opt != opt {
                return mis(p, format!("member is {}marked optional, but objects {} it", if m.opt { "" } else { "not " }, if f.opt { "may lack" } else { "always have" }));
            }
            return self.ty(&m.ty, &f.ty, p, len);
        }
        // Rust, Kotlin, Python: one notion of optionality.
        let mut base = &m.ty;
        let mut is_opt = false;
        while let L::Opt(x) = base {
            base = x;
            is_opt = true;
        }
        let (nullable, inner) = match &f.ty {
            R::Nullable(i) => (true, &**i),
            t => (false, t),
        };
        let as_list = match inner {
            R::Vec(_) => true,
            R::Tuple(t) => self.lang.kotlin() && t.len() > 3,
            _ => false,
        };
        if self.lang == Lang::Rust {
            let collapsed = f.opt && as_list && !nullable && !self.sem.option_vec && !self.sem.use_default;
            let want_opt = (f.opt && !collapsed && !self.sem.use_default) || nullable;
            if m.default != collapsed {
                return mis(p, format!("default-if-missing is {}, expected {}", m.default, collapsed));
            }
            if is_opt != want_opt {
                if len && f.ty == R::Null && is_opt {
                    return Ok(());
                }
                return mis(p, format!("Option is {}, expected {}", is_opt, want_opt));
            }
        } else {
            let want_opt = f.opt || nullable;
            if is_opt != want_opt && !self.sem.use_default {
                if len && f.ty == R::Null && is_opt {
                    return Ok(());
                }
                return mis(p, format!("{} is {}optional, expected {}", m.ident, if is_opt { "" } else { "not " }, want_opt));
            }
        }
        if len && inner == &R::Null && is_opt {
            return Ok(());
        }
        self.ty(base, inner, p, len)
    }
}

fn short<D: std::fmt::Debug>(d: &D) -> String {
    let s = format!("{:?}", d);
    if s.len() > 160 { format!("{}…", s.chars().take(160).collect::<String>()) } else { s }
}

//! C22: SQL input.
use crate::drive::{Case, Run};
use crate::gen_::{digits, seq_count, seq_nth};
use crate::imp;
use crate::lang::{self, ALL, L, Lang, Module, SEM, Style};
use crate::model::{Fld, R};

const CHARS: [&str; 17] = [
    "CHAR", "CHAR(3)", "CHARACTER", "CHARACTER(10)", "CHARACTER VARYING", "CHARACTER VARYING(5)", "CHAR VARYING", "CHAR VARYING(7)", "VARCHAR", "VARCHAR(255)", "VARCHAR(10 CHARACTERS)",
    "NVARCHAR", "NVARCHAR(30)", "TEXT", "STRING", "text", "VARCHAR(5) COLLATE x",
];
const INTS: [&str; 20] = [
    "TINYINT", "TINYINT(1)", "TINYINT UNSIGNED", "TINYINT(3) UNSIGNED", "SMALLINT", "SMALLINT(5)", "SMALLINT UNSIGNED", "MEDIUMINT", "MEDIUMINT(8) UNSIGNED", "MEDIUMINT UNSIGNED", "INT", "INT(11)",
    "INT UNSIGNED", "INT(10) UNSIGNED", "INTEGER", "INTEGER UNSIGNED", "BIGINT", "BIGINT(20)", "BIGINT UNSIGNED", "integer",
];
const BOOLS: [&str; 2] = ["BOOLEAN", "boolean"];
const DATES: [&str; 11] = [
    "DATE", "DATETIME", "DATETIME(6)", "TIMESTAMP", "TIMESTAMP(3)", "TIMESTAMP WITH TIME ZONE", "TIMESTAMP WITHOUT TIME ZONE", "TIMESTAMP(6) WITH TIME ZONE", "TIMESTAMPTZ", "TIMESTAMPTZ(3)", "date",
];
const OTHERS: [&str; 41] = [
    "REAL", "FLOAT", "FLOAT(8)", "DOUBLE", "DOUBLE PRECISION", "NUMERIC", "NUMERIC(10)", "NUMERIC(10,2)", "DECIMAL", "DECIMAL(5,1)", "DEC(4)", "BIGNUMERIC", "BIGDECIMAL(3,1)", "UUID", "BLOB",
    "BLOB(10)", "BINARY", "BINARY(16)", "VARBINARY", "VARBINARY(20)", "JSON", "BYTEA", "INTERVAL", "TIME", "TIME(3)", "TIME WITH TIME ZONE", "TIMETZ", "REGCLASS", "SERIAL", "BIGSERIAL", "geometry",
    "money", "ENUM('a','b')", "SET('x')", "INT[]", "TEXT[]", "BOOLEAN[]", "ARRAY<INT>", "DATE[]", "my.type", "\"int\"",
];

fn types() -> Vec<(&'static str, R)> {
    let mut v = vec![];
    v.extend(CHARS.map(|t| (t, R::Str)));
    v.extend(INTS.map(|t| (t, R::Int)));
    v.extend(BOOLS.map(|t| (t, R::Bool)));
    v.extend(DATES.map(|t| (t, R::Opaque("Date".into()))));
    v.extend(OTHERS.map(|t| (t, R::Any)));
    v
}

/// text as written, name as meant
const NAMES: [(&str, &str); 19] = [
    ("id", "id"),
    ("\"id\"", "id"),
    ("Id", "Id"),
    ("ID", "ID"),
    ("userName", "userName"),
    ("user_name", "user_name"),
    ("\"two words\"", "two words"),
    ("\"x-y\"", "x-y"),
    ("\"select\"", "select"),
    ("\"order\"", "order"),
    ("\"Not Null\"", "Not Null"),
    ("\"it's\"", "it's"),
    ("\"a`b\"", "a`b"),
    ("\"a\"\"b\"", "a\"b"),
    ("_x9", "_x9"),
    ("\u{e9}t\u{e9}", "\u{e9}t\u{e9}"),
    ("\"9\"", "9"),
    ("name", "name"),
    ("\"a.b\"", "a.b"),
];

const OPTS: [&str; 29] = [
    "NOT NULL",
    "NULL",
    "PRIMARY KEY",
    "UNIQUE",
    "DEFAULT 1",
    "DEFAULT 'NOT NULL'",
    "DEFAULT NULL",
    "CHECK (a > 0)",
    "CHECK (b IS NOT NULL)",
    "REFERENCES b (id)",
    "COMMENT 'NOT NULL'",
    "CONSTRAINT c UNIQUE",
    "CONSTRAINT c NOT NULL",
    "DEFAULT CURRENT_TIMESTAMP",
    "AUTO_INCREMENT",
    "AUTOINCREMENT",
    "CHARACTER SET utf8",
    "ON UPDATE CURRENT_TIMESTAMP",
    "GENERATED ALWAYS AS IDENTITY",
    "REFERENCES b (id) ON DELETE SET NULL",
    "REFERENCES b ON UPDATE SET DEFAULT ON DELETE CASCADE",
    "DEFAULT (1 IS NOT NULL)",
    "DEFAULT (NULL)",
    "CHECK (a IS NULL)",
    "CONSTRAINT c NULL",
    "CONSTRAINT c PRIMARY KEY",
    "CONSTRAINT c DEFAULT NULL",
    "DEFAULT -1.5",
    "DEFAULT now()",
];

fn required(o: &str) -> bool {
    matches!(o, "NOT NULL" | "CONSTRAINT c NOT NULL")
}

#[derive(Clone)]
struct Col {
    written: String,
    name: String,
    ty: &'static str,
    base: R,
    opts: Vec<&'static str>,
}

impl Col {
    fn text(&self) -> String {
        let mut s = format!("{} {}", self.written, self.ty);
        for o in &self.opts {
            s += " ";
            s += o;
        }
        s
    }
    fn fld(&self) -> Fld {
        let nn = self.opts.iter().any(|o| required(o));
        let ty = if nn || self.base == R::Any { self.base.clone() } else { R::Nullable(Box::new(self.base.clone())) };
        Fld { key: self.name.clone(), opt: false, ty }
    }
}

fn col(n: (&str, &str), t: &(&'static str, R), opts: Vec<&'static str>) -> Col {
    Col { written: n.0.into(), name: n.1.into(), ty: t.0, base: t.1.clone(), opts }
}

fn table(cols: &[Col]) -> (String, R) {
    let body: Vec<String> = cols.iter().map(|c| c.text()).collect();
    (format!("CREATE TABLE t ({})", body.join(", ")), R::Struct(cols.iter().map(|c| c.fld()).collect()))
}

/// Wire names of the root's members, in order of declaration.
fn root_keys(m: &Module, name: &str) -> Option<Vec<String>> {
    let of = |t: &L| match t {
        L::Obj(ms) => Some(ms.iter().map(|x| x.wire.clone()).collect::<Vec<_>>()),
        _ => None,
    };
    match &m.root {
        Some(L::Ref(_)) | None => {
            let n = match &m.root {
                Some(L::Ref(n)) => n,
                _ => name,
            };
            if let Some(d) = m.decls.iter().find(|d| d.name == n) {
                return Some(d.members.iter().map(|x| x.wire.clone()).collect());
            }
            of(&m.aliases.iter().find(|a| a.1 == n)?.2)
        }
        Some(t) => of(t),
    }
}

const SQL_OPT: &str = "{ input_mode: \"sql\" }";

fn judge(run: &Run, text: &str, want: Option<&R>, modes: &[Lang]) {
    for l in modes {
        let c = Case {
            kind: "sql".into(),
            name: "Root".into(),
            input: text.into(),
            opts: SQL_OPT.into(),
            mode: l.opt_name().into(),
            extra: want.map(|_| "table".to_string()).unwrap_or_default(),
        };
        let got = match imp::generate(run, &c) {
            Err(p) => {
                run.violation("panic", p, c);
                continue;
            }
            Ok(g) => g,
        };
        match (want, got) {
            (None, Err(_)) => run.valid(),
            (None, Ok(s)) => run.violation("accepted", format!("no SQL table is defined, yet the result is\n{}", s), c),
            (Some(_), Err(e)) => run.violation("rejected", format!("a table definition is rejected: {}", e), c),
            (Some(r), Ok(code)) => {
                let m = match lang::parse(*l, &code, "Root", Style::Add) {
                    Err(e) => {
                        run.violation("unreadable", format!("{}\n{}", e, code), c);
                        continue;
                    }
                    Ok(m) => m,
                };
                run.valid();
                if let Err(e) = lang::denotes(*l, &m, "Root", r, SEM) {
                    run.violation("type", format!("{}\nexpected {:?}\n{}", e.msg, r, code), c);
                    continue;
                }
                let R::Struct(fs) = r else { continue };
                let keys: Vec<&str> = fs.iter().map(|f| f.key.as_str()).collect();
                match root_keys(&m, "Root") {
                    Some(k) if k != keys => run.violation("order", format!("members in order {:?}, columns in order {:?}\n{}", k, keys, code), c),
                    None if !keys.is_empty() => run.violation("order", format!("no members\n{}", code), c),
                    _ => {}
                }
            }
        }
    }
}

fn constraints() -> Vec<&'static str> {
    vec![
        "PRIMARY KEY (a)",
        "UNIQUE (a)",
        "CONSTRAINT k PRIMARY KEY (a)",
        "FOREIGN KEY (a) REFERENCES o (id)",
        "CHECK (a IS NOT NULL)",
        "CONSTRAINT u UNIQUE (a)",
    ]
}

fn statements() -> Vec<(&'static str, Option<R>)> {
    let f = |k: &str, ty: R| Fld { key: k.into(), opt: false, ty };
    let n = |r: R| R::Nullable(Box::new(r));
    vec![
        ("CREATE TABLE a (x INT NOT NULL, y TEXT)", Some(R::Struct(vec![f("x", R::Int), f("y", n(R::Str))]))),
        ("CREATE TABLE b (z DATE NOT NULL)", Some(R::Struct(vec![f("z", R::Opaque("Date".into()))]))),
        ("create table if not exists s.c (w boolean)", Some(R::Struct(vec![f("w", n(R::Bool))]))),
        ("CREATE TABLE Root (u BIGINT)", Some(R::Struct(vec![f("u", n(R::Int))]))),
        ("CREATE TABLE \"root\" (t CHAR NOT NULL)", Some(R::Struct(vec![f("t", R::Str)]))),
        ("CREATE VIEW v AS SELECT x FROM a", None),
        ("SELECT * FROM a WHERE x = 'CREATE TABLE q (x INT)'", None),
        ("INSERT INTO a VALUES (1, 'CREATE TABLE q (r INT);')", None),
        ("DROP TABLE a", None),
        ("ALTER TABLE a ADD COLUMN k INT", None),
        ("CREATE INDEX i ON a (x)", None),
        ("DELETE FROM a", None),
        ("", None),
    ]
}

pub fn c22(run: &Run) {
    let ts = types();
    let nt = ts.len() as u64;
    let th = run.thorough;
    // one column
    let ol = if th { 3 } else { 2 };
    let no = seq_count(OPTS.len() as u64, ol);
    let per = no * 4;
    run.each(nt * per, |i| {
        let t = &ts[(i / per) as usize];
        let o: Vec<&'static str> = seq_nth(OPTS.len() as u64, ol, i % per / 4).into_iter().map(|d| OPTS[d]).collect();
        if o.windows(2).any(|w| w[0].starts_with("REFERENCES") && w[1].starts_with("ON UPDATE")) {
            return; // would belong to the reference
        }
        let (s, r) = table(&[col(NAMES[(i % 4) as usize], t, o)]);
        run.doc();
        run.state(&s);
        run.step(9);
        judge(run, &s, Some(&r), if i % 4 == 0 || th { &ALL } else { &ALL[..1] });
    });
    run.count(&format!("family: one column, {} types x option sequences <={} x quoting", nt, ol), nt * per);
    // longer sequences of options
    let some = ["NOT NULL", "NULL", "UNIQUE", "DEFAULT 'x'", "COMMENT 'NOT NULL'"];
    let sl = if th { 7 } else { 5 };
    let k = seq_count(some.len() as u64, sl);
    run.each(k * 3, |i| {
        let o: Vec<&'static str> = seq_nth(some.len() as u64, sl, i / 3).into_iter().map(|d| some[d]).collect();
        let (s, r) = table(&[col(NAMES[0], &ts[[1, 26, 40][(i % 3) as usize]], o), col(NAMES[2], &ts[26], vec![])]);
        run.doc();
        run.state(&s);
        run.step(1);
        judge(run, &s, Some(&r), &[Lang::Shape]);
    });
    run.count(&format!("family: sequences of <={} options", sl), k * 3);
    // names
    let nn = NAMES.len() as u64;
    let few: Vec<&(&str, R)> = [1usize, 10, 37, 39, 53].iter().map(|k| &ts[*k]).collect();
    run.each(nn * nn * nn * 8, |i| {
        let d = digits(i, nn, 3);
        let b = i / nn / nn / nn;
        let mut cols: Vec<Col> = vec![];
        for (k, x) in d.iter().enumerate() {
            if cols.iter().any(|c| c.name == NAMES[*x].1) {
                if k == 2 && !th {
                    break;
                }
                return;
            }
            cols.push(col(NAMES[*x], few[(x + k) % few.len()], if b >> k & 1 == 1 { vec!["NOT NULL"] } else { vec![] }));
        }
        let (s, r) = table(&cols);
        run.doc();
        run.state(&s);
        run.step(27);
        judge(run, &s, Some(&r), if b == 5 || th { &ALL } else { &ALL[8..] });
    });
    run.count("family: three columns over all names", nn * nn * nn * 8);
    // quoted names of every spelling
    const ALPHA: [&str; 15] = ["a", "A", "1", " ", "\"", "'", "`", "-", "_", ".", "\\", ";", "\n", "\u{e9}", ","];
    let nl = if th { 4 } else { 3 };
    let ns = seq_count(15, nl);
    run.each(ns * 2, |i| {
        let name: String = seq_nth(15, nl, i / 2).into_iter().map(|d| ALPHA[d]).collect();
        let quoted = format!("\"{}\"", name.replace('"', "\"\""));
        let mut cols = vec![col((&quoted, &name), few[1], vec![])];
        if i % 2 == 1 {
            // beside columns named by what is left when one cares less
            for (w, n) in [("a", "a"), ("\"a \"", "a "), ("A", "A")] {
                if n != name {
                    cols.push(col((w, n), few[0], vec!["NOT NULL"]));
                }
            }
        }
        let (s, r) = table(&cols);
        run.doc();
        run.state(&s);
        run.step(cols.len());
        judge(run, &s, Some(&r), if name.chars().count() <= 2 || th { &ALL } else { &ALL[8..] });
    });
    run.count(&format!("family: quoted names of length <={} over 15 characters, alone and beside others", nl), ns * 2);
    // two columns over all types
    run.each(nt * nt * 4, |i| {
        let b = i % 4;
        let (x, y) = (&ts[(i / 4 / nt) as usize], &ts[(i / 4 % nt) as usize]);
        let o = |k: u64| if b >> k & 1 == 1 { vec!["NOT NULL"] } else { vec![] };
        let (s, r) = table(&[col(("x", "x"), x, o(0)), col(("y", "y"), y, o(1))]);
        run.doc();
        run.state(&s);
        run.step(18);
        judge(run, &s, Some(&r), &ALL);
    });
    run.count("family: two columns over all type pairs", nt * nt * 4);
    // many columns
    for n in 0..40usize {
        let cols: Vec<Col> = (0..n)
            .map(|k| {
                let nm = format!("c{}", (k * 7) % 41);
                Col { written: nm.clone(), name: nm, ty: ts[(k * 5) % ts.len()].0, base: ts[(k * 5) % ts.len()].1.clone(), opts: if k % 3 == 0 { vec!["NOT NULL"] } else { vec![] } }
            })
            .collect();
        if n > 0 {
            let (s, r) = table(&cols);
            judge(run, &s, Some(&r), &ALL);
        }
    }
    run.count("family: 1..39 columns", 39);
    // one column that differs, anywhere among many
    let top = if th { 130u64 } else { 40 };
    run.each(top * top * 4, |i| {
        let (n, p, w) = ((i / 4 / top + 1) as usize, (i / 4 % top) as usize, i % 4);
        if p >= n {
            return;
        }
        let cols: Vec<Col> = (0..n)
            .map(|k| {
                let nm = format!("c{}", k);
                let mut ty = &ts[26];
                let mut nn = w & 1 == 1;
                if k == p {
                    if w & 2 == 2 {
                        ty = &ts[3];
                    } else {
                        nn = !nn;
                    }
                }
                Col { written: nm.clone(), name: nm, ty: ty.0, base: ty.1.clone(), opts: if nn { vec!["NOT NULL"] } else { vec![] } }
            })
            .collect();
        let (s, r) = table(&cols);
        run.doc();
        run.state(&s);
        run.step(n);
        judge(run, &s, Some(&r), &[Lang::Shape]);
    });
    run.count(&format!("family: up to {} columns, one of which differs", top), top * (top + 1) * 2);
    // table constraints, table forms, layout
    let forms = [
        "CREATE TABLE t", "CREATE TEMPORARY TABLE t", "CREATE TABLE IF NOT EXISTS t", "CREATE OR REPLACE TABLE t", "CREATE TABLE a.b", "CREATE TABLE \"t t\"", "create table \"T\"", "Create\n\tTable x.y.z",
        "-- CREATE TABLE no (x INT)\nCREATE TABLE t", "/* CREATE TABLE no (x INT); */ CREATE TABLE t", "  \r\n CREATE TABLE t",
    ];
    let tails = ["", ";", " ; ", ";;", "\n-- done", "; /* ; */", "; SELECT 1", " ENGINE=InnoDB"];
    let cs = constraints();
    let ncs = cs.len() as u64;
    let (nf, nta) = (forms.len() as u64, tails.len() as u64);
    run.each(nf * nta * seq_count(ncs, 2) * 3, |i| {
        let f = forms[(i % nf) as usize];
        let ta = tails[(i / nf % nta) as usize];
        let j = i / nf / nta;
        let k = seq_nth(ncs, 2, j / 3);
        let sep = [", ", ",\n\t", " , /* x, */ "][(j % 3) as usize];
        let cols = [col(("a", "a"), &("INT", R::Int), vec![]), col(("\"b c\"", "b c"), &("VARCHAR(3)", R::Str), vec!["NOT NULL"])];
        let mut parts: Vec<String> = cols.iter().map(|c| c.text()).collect();
        parts.extend(k.iter().map(|x| cs[*x].to_string()));
        let s = format!("{} ({}){}", f, parts.join(sep), ta);
        run.doc();
        run.state(&s);
        run.step(9);
        judge(run, &s, Some(&R::Struct(cols.iter().map(|c| c.fld()).collect())), &[Lang::Shape, Lang::Rust]);
    });
    run.count("family: table forms x tails x constraints x layout", nf * nta * seq_count(ncs, 2) * 3);
    // statement sequences
    let st = statements();
    let k = st.len() as u64;
    let sl = if th { 5 } else { 4 };
    run.each(seq_count(k, sl) * 2, |i| {
        let q = seq_nth(k, sl, i / 2);
        let s: String = q.iter().map(|x| st[*x].0).collect::<Vec<_>>().join(if i % 2 == 0 { ";" } else { ";\n-- CREATE TABLE n (x INT);\n" });
        let want = q.iter().find_map(|x| st[*x].1.as_ref());
        run.doc();
        run.state(&s);
        run.step(q.len());
        judge(run, &s, want, &[Lang::Shape]);
    });
    run.count(&format!("family: statement sequences <={}", sl), seq_count(k, sl) * 2);
    // not SQL: cuts inside the parentheses, unbalanced or unknown text at every place
    let base = ["CREATE", "TABLE", "t", "(", "a", "INT", "(", "11", ")", "NOT", "NULL", ",", "\"b c\"", "VARCHAR", "(", "3", ")", "DEFAULT", "'x y'", ",", "PRIMARY", "KEY", "(", "a", ")", ")", ";", "SELECT", "1"];
    let mut bad: Vec<String> = vec![];
    for i in 3..25 {
        bad.push(base[..=i].join(" "));
        bad.push(format!("{} ; SELECT 1", base[..=i].join(" ")));
        bad.push(format!("SELECT 1; {}", base[..=i].join(" ")));
        bad.push(format!("CREATE TABLE x (q INT); {}", base[..=i].join(" ")));
    }
    for i in 0..=base.len() {
        for g in [")", "%%", "'open", "{", "]", "\"open", "/* open", "$$ ?"] {
            let mut v = base.to_vec();
            v.insert(i, g);
            bad.push(v.join(" "));
        }
    }
    for g in ["", " ", "\n", ";", "-- nothing", "/* */", "{}", "[1]", "{\"a\": 1}", "hello", "CREATE", "CREATE TABLE", "TABLE t (a INT)", "CREATE TABLE (a INT)", "CREATE TABLE t (,a INT)", "CREATE TABLE t (INT a,,)", "CREATE TABLE t (a INT b TEXT)", "CREATE TABLE t a INT", "CREATE TABLES t (a INT)", "struct A { a: i32 }"] {
        for t in ["", "; CREATE TABLE u (a INT)"] {
            if !t.is_empty() && ["", " ", "\n", ";", "/* */"].contains(&g) {
                continue;
            }
            if g == "-- nothing" && !t.is_empty() {
                bad.push(format!("{}{}", g, t));
                continue;
            }
            bad.push(format!("{}{}", g, t));
            bad.push(format!("CREATE TABLE u (a INT); {}", g).repeat(if g.trim().is_empty() || g == ";" || g.starts_with("--") || g.starts_with("/*") { 0 } else { 1 }));
        }
    }
    let n = bad.len() as u64;
    run.each(n, |i| {
        run.doc();
        run.step(1);
        run.state(&bad[i as usize]);
        judge(run, &bad[i as usize], None, &[Lang::Shape, Lang::Rust]);
    });
    run.count("family: texts that are not SQL or define no table", n);
    run.sample("CREATE TABLE t (\"a\"\"b\" CHAR VARYING(7) DEFAULT 'NOT NULL', `x-y` TIMESTAMPTZ NOT NULL)".into());
}

/// Re-runs a recorded case; the expectation is derived again only for errors and single judgements.
pub fn replay(run: &Run, c: &Case) {
    if c.extra.is_empty() {
        let l = Lang::from_name(&c.mode).unwrap();
        judge(run, &c.input, None, &[l]);
    }
}

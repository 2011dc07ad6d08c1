//! Runs one indexed family of requests through a set of output modes against the reference type.
use super::structure::check;
use crate::drive::{Case, Run};
use crate::json::Val;
use crate::lang::{Lang, SEM, Sem, Style};
use crate::model::{R, infer};

pub struct Req {
    pub doc: Val,
    pub name: String,
    pub opts: String,
    pub sem: Sem,
    pub style: Style,
    pub r: Option<R>,
}

impl Req {
    pub fn doc(doc: Val) -> Req {
        Req { doc, name: "Root".into(), opts: String::new(), sem: SEM, style: Style::Add, r: None }
    }
    pub fn named(doc: Val, name: &str) -> Req {
        Req { name: name.into(), ..Req::doc(doc) }
    }
}

pub fn sweep(run: &Run, label: &str, langs: &[Lang], n: u64, get: impl Fn(u64) -> Req + Sync) {
    run.each(n, |i| {
        let q = get(i);
        run.doc();
        let r = q.r.unwrap_or_else(|| infer(&q.doc));
        run.state(&(&r, &q.name, &q.opts));
        run.step(q.doc.nodes() * langs.len());
        let text = q.doc.text();
        for l in langs {
            let c = Case {
                kind: "doc".into(),
                name: q.name.clone(),
                input: text.clone(),
                opts: q.opts.clone(),
                mode: l.opt_name().into(),
                ..Default::default()
            };
            check(run, *l, &r, &c, q.sem, q.style);
        }
    });
    run.count(&format!("family: {}", label), n);
    for i in [0, n / 3, n / 2, n.saturating_sub(1)] {
        if n > 0 {
            let q = get(i);
            run.sample(format!("{} {} {}", q.name, q.doc.text(), q.opts).chars().take(200).collect());
        }
    }
}

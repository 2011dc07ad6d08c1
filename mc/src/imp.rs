//! Calls into the implementation under test.
use crate::drive::{Case, Run};
use crate::lang::Lang;
use json_typegen_shared::{Options, codegen, parse};
use std::cell::RefCell;

thread_local! {
    static FILE: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Options from an options-block text and an output mode name ("" leaves the mode alone).
pub fn options(opts: &str, mode: &str) -> Result<Options, String> {
    let mut o = if opts.is_empty() { Options::default() } else { parse::options(opts)? };
    if !mode.is_empty() {
        o.output_mode = Lang::from_name(mode).expect("mode name").mode();
    }
    Ok(o)
}

pub fn inline(text: &[u8]) -> bool {
    let t = match std::str::from_utf8(text) {
        Ok(t) => t.trim(),
        Err(_) => return false,
    };
    t.starts_with('{') || t.starts_with('[')
}

/// A per-thread file holding `bytes`.
pub fn as_file(run: &Run, bytes: &[u8]) -> String {
    FILE.with(|f| {
        let mut f = f.borrow_mut();
        let p = f.get_or_insert_with(|| run.scratch_file());
        std::fs::write(&*p, bytes).unwrap();
        p.clone()
    })
}

/// Library generation for a sample given as text (inline when the library would take it inline,
/// otherwise through a file). Outer error: panic. Inner error: the library's error text.
pub fn generate(run: &Run, c: &Case) -> Result<Result<String, String>, String> {
    run.call(c, || {
        let o = match options(&c.opts, &c.mode) {
            Ok(o) => o,
            Err(e) => return Err(format!("options: {}", e)),
        };
        let r = if c.kind == "sql" || inline(c.input.as_bytes()) {
            codegen(&c.name, &c.input, o)
        } else {
            codegen(&c.name, &as_file(run, c.input.as_bytes()), o)
        };
        r.map_err(|e| err_text(&e))
    })
}

pub fn err_text(e: &dyn std::error::Error) -> String {
    json_typegen_shared::internal_util::display_error_with_causes(e)
}

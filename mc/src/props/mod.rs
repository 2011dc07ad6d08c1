pub mod configs;
pub mod export;
pub mod history;
pub mod inert;
pub mod lexical;
pub mod names;
pub mod options;
pub mod panics;
pub mod reads;
pub mod relations;
pub mod rustopts;
pub mod sql;
pub mod structure;
pub mod sweep;

use crate::drive::{Case, Run};

pub fn run(id: &str, run: &std::sync::Arc<Run>) {
    match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" => structure::run(id, run),
        "C08" => names::c08(run),
        "C09" => names::c09(run),
        "C10" => lexical::c10(run),
        "C11" => lexical::c11(run),
        "C12" => panics::c12(run),
        "C13" => reads::c13(run),
        "C14" => configs::c14(run),
        "C15" => configs::c15(run),
        "C16" => configs::c16(run),
        "C17" => options::c17(run),
        "C18" => rustopts::c18(run),
        "C21" => history::c21(run),
        "C22" => sql::c22(run),
        "C23" => relations::c23(run),
        "C25" => rustopts::c25(run),
        "C26" => rustopts::c26(run),
        "C29" => inert::c29(run),
        _ => panic!("unknown property {}", id),
    }
}

pub fn replay(id: &str, run: &std::sync::Arc<Run>, c: &Case) {
    if id == "C21" {
        return history::replay(run, c);
    }
    if id == "C12" {
        return panics::replay(run, c);
    }
    match crate::imp::generate(run, c) {
        Ok(Ok(s)) => println!("{}", s),
        Ok(Err(e)) => println!("error: {}", e),
        Err(e) => println!("{}", e),
    }
    match id {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" => structure::replay(run, c),
        "C08" | "C09" => structure::replay(run, c),
        "C10" => lexical::replay_bytes(run, c),
        "C11" => lexical::replay11(run, c),
        "C14" | "C15" | "C16" => configs::replay(run, c),
        "C17" => options::replay(run, c),
        "C13" => reads::replay(run, c),
        "C22" => sql::replay(run, c),
        "C23" => relations::replay(run, c),
        "C18" | "C25" | "C26" => rustopts::replay(run, c),
        "C29" => inert::replay(run, c),
        _ => {}
    }
}

mod consts;
mod drive;
mod gen_;
mod hook;
mod imp;
mod json;
mod lang;
mod model;
mod props;
mod tok;

#[global_allocator]
static ALLOC: hook::Points = hook::Points;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        // mc run <property> <quick|thorough> <dir>
        Some("run") => {
            let run = drive::Run::new(&a[4], a[3] == "thorough");
            props::run(&a[2], &run);
            run.finish();
        }
        // mc replay <property> <case.json> <dir>
        Some("replay") => {
            let run = drive::Run::new(&a[4], false);
            let c = drive::Case::read(&std::fs::read_to_string(&a[3]).unwrap());
            props::replay(&a[2], &run, &c);
            run.finish();
        }
        // mc export <property> <quick|thorough> <mode> <dir> <file>: cases for the real tools
        Some("export") => {
            let run = drive::Run::new(&a[5], a[3] == "thorough");
            props::export::run(&run, &a[2], lang::Lang::from_name(&a[4]).unwrap(), &a[6]);
            run.finish();
        }
        // mc one <case>: one request, in a fresh process
        Some("one") => {
            let run = drive::Run::new(&format!("/tmp/mc-one-{}", std::process::id()), false);
            props::history::one(&run, &drive::Case::read(&a[2]));
            let _ = std::fs::remove_dir_all(&run.scratch);
            let _ = std::fs::remove_dir_all(&run.dir);
        }
        // mc batch: cases on standard input, one per line; results likewise
        Some("batch") => {
            use std::io::BufRead;
            for l in std::io::stdin().lock().lines() {
                let c = drive::Case::read(&l.unwrap());
                let r = std::panic::catch_unwind(|| match c.kind.as_str() {
                    "macro" => json_typegen_shared::codegen_from_macro(&c.input).map_err(|e| imp::err_text(&e)),
                    "macro-args" => json_typegen_shared::codegen_from_macro_input(&c.input).map_err(|e| imp::err_text(&e)),
                    _ => imp::options(&c.opts, &c.mode).and_then(|o| json_typegen_shared::codegen(&c.name, &c.input, o).map_err(|e| imp::err_text(&e))),
                });
                match r {
                    Ok(Ok(s)) => println!("{{\"ok\":true,\"text\":{}}}", json::esc(&s)),
                    Ok(Err(s)) => println!("{{\"ok\":false,\"text\":{}}}", json::esc(&s)),
                    Err(_) => println!("{{\"ok\":false,\"text\":\"panic\"}}"),
                }
            }
        }
        // one generation: mc gen <mode> <name> <sample> [options]
        Some("gen") => {
            let run = drive::Run::new(&format!("/tmp/mc-gen-{}", std::process::id()), false);
            let c = drive::Case {
                mode: a[2].clone(),
                name: a[3].clone(),
                input: a[4].clone(),
                opts: a.get(5).cloned().unwrap_or_default(),
                ..Default::default()
            };
            match imp::generate(&run, &c) {
                Ok(Ok(s)) => print!("{}", s),
                Ok(Err(e)) => println!("error: {}", e),
                Err(e) => println!("{}", e),
            }
            let _ = std::fs::remove_dir_all(&run.scratch);
            let _ = std::fs::remove_dir_all(&run.dir);
        }
        _ => eprintln!("usage: mc run|replay|gen ..."),
    }
}

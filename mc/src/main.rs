//! mc: bounded exhaustive exploration of the blitstr library.
//!   mc check <property>      explore and decide (tier from VERIF_TIER)
//!   mc replay <file>         run one recorded counterexample again
//!   mc solo <i>              digest of one operation of the history alphabet in a fresh process
//!   mc digest                digests of a battery of operations (used to compare builds)
mod bfs;
mod checks;
mod ctx;
mod engine;
mod frugal;
mod history;
mod json;
mod judges;
mod moved;
mod oracle;
mod png;
mod spaces;

use spaces::Tier;
use std::os::unix::process::ExitStatusExt;

pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/..").into())
}

/// The same exploration on a library built without overflow checks and debug assertions; its counts
/// are added to the evidence
fn shipped(root: &str, id: &str) -> Option<std::process::ExitStatus> {
    let exe = format!("{}/mc/target/shipped/mc", root);
    if !SHIPPED.contains(&id) || id == "C04" && std::env::var("VERIF_TIER").as_deref() != Ok("thorough") {
        return None;
    }
    let part = format!("{}/out/shipped-{}.json", root, id);
    let st = std::process::Command::new(exe).args(["run", id]).env("MC_EVIDENCE", &part).status().expect("start exploration");
    if st.success() {
        let main = format!("{}/evidence/{}.json", root, id);
        let (t, u) = (std::fs::read_to_string(&main).unwrap(), std::fs::read_to_string(&part).unwrap());
        let u = json::parse(&u);
        let cov = u.get("coverage");
        let n = ["transitions", "evaluations"].iter().find_map(|k| match cov.get(k) {
            json::J::Num(n) => Some(*n as u64),
            _ => None,
        });
        let note = format!(",{}],\"exhaustive\"", json::esc(&format!("all of it again in a build without overflow checks and debug assertions: {} operations", n.unwrap_or(0))));
        std::fs::write(&main, t.replacen("],\"exhaustive\"", &note, 1)).unwrap();
    }
    let _ = std::fs::remove_file(&part);
    Some(st)
}

const SHIPPED: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14", "C19", "C21", "C22"];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let root = std::fs::canonicalize(root()).unwrap().to_string_lossy().to_string();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "check" => {
            // The exploration runs in a child process, so that a crash of the code under test
            // (stack overflow, abort) is reported as what it is
            let st = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["run", arg(2)])
                .status()
                .expect("start exploration");
            let st = if st.success() { shipped(&root, arg(2)).unwrap_or(st) } else { st };
            match (st.code(), st.signal()) {
                (Some(c), _) => std::process::exit(c),
                (None, Some(s)) if [4, 6, 7, 8, 11].contains(&s) => {
                    std::fs::create_dir_all(format!("{}/out/replay", root)).ok();
                    let p = format!("{}/out/replay/{}-crash.json", root, arg(2));
                    std::fs::write(&p, format!("{{\"property\":\"{}\",\"what\":\"the process was ended by signal {} while exploring\",\"rerun\":\"mc run {}\"}}\n", arg(2), s, arg(2))).ok();
                    println!("VIOLATION property={} replay={}", arg(2), p);
                    std::process::exit(1);
                }
                (_, s) => {
                    eprintln!("exploration ended by signal {:?}", s);
                    std::process::exit(3);
                }
            }
        }
        "run" => {
            engine::init(arg(2), tname, &format!("{}/out", root));
            checks::check(arg(2), tier, &root);
        }
        "replay" => {
            engine::init("replay", tname, &format!("{}/out", root));
            checks::replay(arg(2), tier);
        }
        "solo" => history::solo(&a[2..]),
        "sweep" => {
            engine::init(arg(2), tname, &format!("{}/out", root));
            history::sweep(&a[3..], tier)
        }
        "digest" => {
            engine::init("digest", tname, &format!("{}/out", root));
            checks::digests(tier, arg(2))
        }
        "frugal" => {
            engine::init("C25", tname, &format!("{}/out", root));
            frugal::child(tier)
        }
        "deep" => checks::deep_run(arg(2).parse().unwrap(), arg(3).parse().unwrap(), tier),
        "clusters" => checks::clusters(),
        _ => {
            eprintln!("usage: mc check|replay|solo|digest");
            std::process::exit(2);
        }
    }
}

//! vharness: property-based checks for mqtt-protocol-core.
//!   vharness check <property> [--tier quick|thorough] [--seed N]
//!   vharness replay <file>
#[macro_use]
mod engine;
mod checks;
mod conn;
mod drive;
mod gen;
mod libx;
mod model;
mod sim;
mod spec;

use engine::*;
use std::collections::BTreeMap;
use std::time::Instant;

#[global_allocator]
static ALLOC: Counting = Counting;

pub struct StageDef {
    pub name: &'static str,
    /// quick and thorough case counts
    pub cases: (u64, u64),
    pub exhaustive: bool,
    pub f: fn(&mut Src, &mut Ctx) -> Res,
}
pub struct CheckDef {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub stages: Vec<StageDef>,
}
pub fn stage(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Src, &mut Ctx) -> Res) -> StageDef {
    StageDef { name, cases: (quick, thorough), exhaustive: false, f }
}
pub fn exhaustive2(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Src, &mut Ctx) -> Res) -> StageDef {
    StageDef { name, cases: (quick, thorough), exhaustive: true, f }
}
pub fn exhaustive(name: &'static str, n: u64, f: fn(&mut Src, &mut Ctx) -> Res) -> StageDef {
    StageDef { name, cases: (n, n), exhaustive: true, f }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{t}...")
    }
}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// (property, signature) -> description of the unfixed findings.
fn known_findings(prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let text = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root())).unwrap_or_default();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("").trim_start_matches("property=");
            let sig = it.next().unwrap_or("").trim_start_matches("sig=");
            if p == prop {
                m.insert(sig.to_string(), it.next().unwrap_or("").to_string());
            }
        }
    }
    m
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = args.get(2).expect("property id").clone();
            let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut append = false;
            let mut only: Option<String> = None;
            let mut scale = 1.0f64;
            let mut i = 3;
            while i < args.len() {
                match args[i].as_str() {
                    "--tier" => {
                        tier = args[i + 1].clone();
                        i += 1;
                    }
                    "--seed" => {
                        seed = args[i + 1].parse().unwrap();
                        i += 1;
                    }
                    "--stage" => {
                        only = Some(args[i + 1].clone());
                        i += 1;
                    }
                    "--scale" => {
                        scale = args[i + 1].parse().unwrap();
                        i += 1;
                    }
                    "--append" => append = true,
                    x => panic!("HARNESS: unknown argument {x}"),
                }
                i += 1;
            }
            let rc = run_check(&id, &tier, seed, append, only, scale);
            std::process::exit(rc);
        }
        Some("replay") => std::process::exit(run_replay(&args[2])),
        Some("list") => {
            for c in checks::all() {
                println!("{} {}", c.id, c.stages.iter().map(|s| s.name).collect::<Vec<_>>().join(","));
            }
        }
        _ => {
            eprintln!("usage: vharness check <id> | replay <file> | list");
            std::process::exit(2);
        }
    }
}

const VARIANT: &str = if cfg!(feature = "sso-lv10") {
    "sso-lv10"
} else if cfg!(feature = "sso-lv20") {
    "sso-lv20"
} else if cfg!(feature = "sso-min-32bit") {
    "sso-min-32bit"
} else if cfg!(feature = "sso-min-64bit") {
    "sso-min-64bit"
} else {
    "default"
};

fn run_check(id: &str, tier: &str, seed: u64, append: bool, only: Option<String>, scale: f64) -> i32 {
    let t0 = Instant::now();
    let all = checks::all();
    let Some(c) = all.iter().find(|c| c.id == id) else {
        eprintln!("no check for {id}");
        return 2;
    };
    let known = known_findings(id);
    let kf = |f: &Fail| -> Option<String> {
        if known.contains_key(&f.sig) {
            Some(f.sig.clone())
        } else {
            None
        }
    };
    // each variant explores cases of its own
    let given = seed;
    let seed = match VARIANT.bytes().fold(0u64, |h, b| (h * 31 + b as u64) & 0xffff) {
        _ if VARIANT == "default" => seed,
        h => seed.wrapping_add(h << 32),
    };
    let mut total = Totals::default();
    let mut violations: Vec<Failure> = vec![];
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_stage = vec![];
    for s in &c.stages {
        if let Some(o) = &only {
            if o != s.name {
                continue;
            }
        }
        let n = if tier == "thorough" { s.cases.1 } else { s.cases.0 };
        // --scale 0: exhaustive stages only; a negative scale: random stages only
        let n = if s.exhaustive { if scale < 0.0 { 0 } else { n } } else { ((n as f64) * scale.abs()) as u64 };
        let st = Stage { name: s.name, cases: n, exhaustive: s.exhaustive, f: &s.f };
        let ts = Instant::now();
        *WHERE.lock().unwrap() = (id.to_string(), s.name.to_string(), seed);
        let o = run_stage(seed, &st, &kf);
        eprintln!(
            "[{id}/{}] {} cases, {} non-trivial ({} distinct), {:.1}s",
            s.name,
            o.totals.evaluations,
            o.totals.nontrivial,
            o.totals.distinct,
            ts.elapsed().as_secs_f64()
        );
        if std::env::var("VERIF_LABELS").is_ok() {
            for (k, v) in &o.totals.labels {
                eprintln!("    {k}: {v}");
            }
        }
        let lab: Vec<String> =
            o.totals.labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        per_stage.push(format!(
            "{{\"stage\":{},\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"exhaustive\":{},\"excluded_as_known\":{},\"classes\":{{{}}}}}",
            jstr(s.name), o.totals.evaluations, o.totals.nontrivial, o.totals.distinct, s.exhaustive, o.totals.excluded_known, lab.join(",")
        ));
        total.evaluations += o.totals.evaluations;
        total.distinct += o.totals.distinct;
        total.excluded_known += o.totals.excluded_known;
        total.samples.extend(o.totals.samples.into_iter().map(|s| clip(&s, 1500)));
        for f in o.failures {
            match &f.known {
                Some(k) => *hits.entry(k.clone()).or_default() += 1,
                None => violations.push(f),
            }
        }
    }
    for sig in known.keys() {
        println!("KNOWN-FINDING: property={id} {} [{sig}]", known[sig]);
    }
    let mut rc = 0;
    for (n, v) in violations.iter().enumerate() {
        rc = 1;
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{id}-{VARIANT}-{n}.replay");
        let tape: Vec<String> = v.tape.iter().map(|x| x.to_string()).collect();
        let mut text = format!(
            "property {id}\nstage {}\nvariant {VARIANT}\nseed {seed}\ncase {}\ntape {}\nsignature {}\n\n{}\n\nhistory:\n",
            v.stage, v.case_no, tape.join(","), v.fail.sig, v.fail.msg
        );
        for l in &v.log {
            text.push_str("  ");
            text.push_str(l);
            text.push('\n');
        }
        std::fs::write(&path, text).expect("HARNESS: write replay");
        println!("VIOLATION property={id} replay={path}");
        println!("  stage={} signature={}", v.stage, v.fail.sig);
        println!("  {}", clip(&v.fail.msg, 2000));
        for l in v.log.iter().take(60) {
            println!("    {}", clip(l, 400));
        }
    }
    if only.is_none() {
        let samples: Vec<String> = total.samples.iter().map(|s| jstr(s)).collect();
        let assume: Vec<String> = c.assumptions.iter().map(|s| jstr(s)).collect();
        let run = format!(
            "{{\"variant\":{},\"stages\":[{}]}}",
            jstr(VARIANT),
            per_stage.join(",")
        );
        let ev = Evidence {
            evaluations: total.evaluations,
            distinct: total.distinct,
            samples,
            runs: vec![run],
            wall: t0.elapsed().as_secs_f64(),
            violations: violations.len(),
        };
        write_evidence(c, tier, given, ev, append, &assume);
    }
    rc
}

struct Evidence {
    evaluations: u64,
    distinct: u64,
    samples: Vec<String>,
    runs: Vec<String>,
    wall: f64,
    violations: usize,
}

/// With `append`, adds to the numbers the previous variant of the same run left in a side file.
fn write_evidence(c: &CheckDef, tier: &str, seed: u64, mut ev: Evidence, append: bool, assume: &[String]) {
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let side = format!("{dir}/.{}.part", c.id);
    if append {
        if let Ok(t) = std::fs::read_to_string(&side) {
            let l: Vec<&str> = t.lines().collect();
            if l.len() >= 5 {
                ev.evaluations += l[0].parse::<u64>().unwrap_or(0);
                ev.distinct += l[1].parse::<u64>().unwrap_or(0);
                ev.wall += l[2].parse::<f64>().unwrap_or(0.0);
                ev.violations += l[3].parse::<usize>().unwrap_or(0);
                ev.runs.insert(0, l[4].to_string());
                let mut s: Vec<String> = l[5..].iter().map(|x| x.to_string()).collect();
                s.extend(ev.samples);
                ev.samples = s;
            }
        }
    }
    let part = format!(
        "{}\n{}\n{}\n{}\n{}\n{}",
        ev.evaluations,
        ev.distinct,
        ev.wall,
        ev.violations,
        ev.runs.join(","),
        ev.samples.join("\n")
    );
    let _ = std::fs::write(&side, part);
    let j = format!(
        "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{},\n\"level\":\"exploration\",\n\"coverage\":{{\n\"evaluations\":{},\n\"distinct_nontrivial\":{},\n\"rule\":{},\n\"samples\":[{}],\n\"runs\":[{}]\n}},\n\"assumptions\":[{}],\n\"wall_s\":{:.2},\n\"violations\":{}\n}}\n",
        jstr(c.id), jstr(tier), seed, ev.evaluations, ev.distinct, jstr(c.rule),
        ev.samples.join(",\n"), ev.runs.join(",\n"), assume.join(","), ev.wall, ev.violations
    );
    std::fs::write(format!("{dir}/{}.json", c.id), j).expect("HARNESS: write evidence");
}

fn run_replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| -> String {
        t.lines()
            .find_map(|l| l.strip_prefix(&format!("{k} ")).map(|s| s.to_string()))
            .unwrap_or_default()
    };
    let (id, sname) = (get("property"), get("stage"));
    let tape: Vec<u32> = get("tape").split(',').filter_map(|s| s.parse().ok()).collect();
    let all = checks::all();
    let c = all.iter().find(|c| c.id == id).expect("property");
    let s = c.stages.iter().find(|s| s.name == sname).expect("stage");
    let st = Stage { name: s.name, cases: 1, exhaustive: s.exhaustive, f: &s.f };
    if get("tape").is_empty() {
        // a case that did not end: known by its seed and number only
        let (seed, case) = (get("seed").parse().unwrap_or(1), get("case").parse().unwrap_or(0));
        *WHERE.lock().unwrap() = (id.clone(), sname.clone(), seed);
        return one_case(seed, case, &st);
    }
    let (r, log) = replay(&st, &tape);
    for l in &log {
        println!("  {l}");
    }
    match r {
        Ok(()) => {
            println!("replay of {id}/{sname}: property holds");
            0
        }
        Err(f) => {
            println!("VIOLATION property={id} replay={path}");
            println!("  signature={} {}", f.sig, f.msg);
            1
        }
    }
}

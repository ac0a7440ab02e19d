//! Bounded model checker for rx509: see /verif/DESIGN.md.

mod engine;
mod gen;
mod history;
mod outside;
mod props;
mod refder;
mod refprint;
mod refx509;
mod sut;

use engine::*;
use props::{families, Tier, IDS};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// An execution that takes this much processor time hangs.
const HANG_S: u64 = 30;
/// ... or this much time altogether, where it waits for nothing; the histories
/// of S01 run in processes of their own, with limits of their own.
fn patience(id: &str) -> Duration {
    Duration::from_secs(if id == "S01" { 850 } else { 300 })
}
const WORKERS: usize = 8;

fn root() -> PathBuf {
    // set by check.sh; the directory that holds evidence/, replays/ and .run/
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{t}... ({} characters)", s.chars().count())
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn join(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn split(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn tier_of(s: &str) -> Tier {
    match s {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn on_worker_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

// ---------------------------------------------------------------- child

fn child(id: &str, tier: Tier, dir: &Path, only: Option<&str>) -> i32 {
    no_core_dumps();
    limit_memory(20 << 30);
    sut::install_hook();
    let slots = Slots::open(dir.join("slots").to_str().unwrap(), WORKERS).unwrap();
    let prog = Arc::new(Progress::new(WORKERS));
    {
        let dir = dir.to_path_buf();
        watchdog(prog.clone(), HANG_S as f64, patience(id), move |w| {
            let _ = std::fs::write(dir.join("hang"), w.to_string());
            std::process::exit(97);
        });
    }
    let fams = families(id, tier).expect("known property");
    let mut out = std::fs::OpenOptions::new().append(true).create(true).open(dir.join("stats")).unwrap();
    for (i, f) in fams.iter().enumerate() {
        if only.is_some_and(|o| o != f.name) {
            continue;
        }
        let (st, v) = match explore(f, i, f.dev_bound, WORKERS, &slots, &prog) {
            Ok(x) => x,
            Err(e) => {
                eprintln!("{e}");
                return 2;
            }
        };
        writeln!(
            out,
            "F\t{i}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{:.3}\t{}",
            st.states,
            st.transitions,
            st.execs,
            st.pruned,
            st.max_depth,
            st.outcomes,
            st.outcomes_capped,
            st.wall,
            st.dev_hist.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        )
        .unwrap();
        if let Some(mut v) = v {
            // a smaller counterexample, if fewer deviations are enough
            for b in 0..f.dev_bound {
                if v.choices.is_empty() {
                    break;
                }
                if let Ok((_, Some(x))) = explore(f, i, b, WORKERS, &slots, &prog) {
                    v = x;
                    break;
                }
            }
            std::fs::write(
                dir.join("violation"),
                format!("{i}\n{}\n{}\n{}\n{}", v.dev_bound, join(&v.choices), v.expected.replace('\n', "\\n"), v.actual.replace('\n', "\\n")),
            )
            .unwrap();
            return 1;
        }
        let mut traces = st.sample_traces;
        traces.sort();
        for t in traces.iter().take(2) {
            let s = on_worker_stack(|| {
                let (r, ch) = run_one(f, f.dev_bound, t);
                let input = ch.input.as_deref().map(|b| clip(&hex(b), 200)).unwrap_or_default();
                let notes = clip(&ch.notes.join("; "), 300);
                format!(
                    "{{\"family\":{},\"choices\":{},\"input\":{},\"note\":{},\"verdict\":{}}}",
                    js(&f.name),
                    js(&clip(&join(t), 120)),
                    js(&input),
                    js(&notes),
                    js(&match r {
                        Ok(o) => format!("agrees with the reference (outcome class {o})"),
                        Err(Stop::Prune) => "outside the space".into(),
                        Err(Stop::Bad(e, a)) => format!("BAD expected {e}, actual {a}"),
                    })
                )
            });
            writeln!(out, "S\t{i}\t{s}").unwrap();
        }
    }
    0
}

// ---------------------------------------------------------------- one path

/// Runs one choice sequence; exit 0 fine, 1 violation, 3 outside the space.
fn one(id: &str, tier: Tier, family: &str, dev: u32, choices: &[u32]) -> i32 {
    no_core_dumps();
    if id != "S01" {
        limit_processor_time(HANG_S + 10);
    }
    limit_memory(20 << 30);
    sut::install_hook();
    let Some(fams) = families(id, tier) else { return 2 };
    let Some(f) = fams.into_iter().find(|f| f.name == family) else {
        eprintln!("no family {family}");
        return 2;
    };
    on_worker_stack(|| {
        // input first, should the execution not survive
        let (r, ch) = run_one(&f, dev, choices);
        println!("input={}", ch.input.as_deref().map(hex).unwrap_or_default());
        println!("choices={}", join(&ch.executed()));
        println!("note={}", ch.notes.join("; ").replace('\n', "\\n"));
        match r {
            Ok(o) => {
                println!("outcome={o}");
                0
            }
            Err(Stop::Prune) => 3,
            Err(Stop::Bad(e, a)) => {
                println!("expected={}", e.replace('\n', "\\n"));
                println!("actual={}", a.replace('\n', "\\n"));
                1
            }
        }
    })
}

struct Alone {
    /// 0 fine, 1 violation, 3 outside, 98 hang, other: crash
    code: i32,
    out: String,
    how: String,
}

fn run_alone(id: &str, tier: &str, family: &str, dev: u32, choices: &[u32]) -> Alone {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["one", id, tier, family, &dev.to_string(), &join(choices)])
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    let mut so = c.stdout.take().unwrap();
    let mut se = c.stderr.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut so, &mut s);
        s
    });
    let te = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = std::io::Read::read_to_end(&mut se, &mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    let (code, mut how) = loop {
        match c.try_wait().unwrap() {
            Some(st) => {
                use std::os::unix::process::ExitStatusExt;
                if st.signal() == Some(SIGXCPU) {
                    break (98, format!("does not finish within {} s of processor time", HANG_S + 10));
                }
                break match (st.code(), st.signal()) {
                    (Some(k), _) => (k, format!("exit status {k}")),
                    (None, s) => (99, format!("killed by signal {}", s.unwrap_or(0))),
                };
            }
            None if t0.elapsed() > patience(id) => {
                let _ = c.kill();
                let _ = c.wait();
                break (98, format!("does not finish within {} s", patience(id).as_secs()));
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    let out = t.join().unwrap();
    let err = te.join().unwrap();
    if !matches!(code, 0 | 1 | 3 | 98) {
        how += &format!(": {}", clip(err.trim(), 300));
    }
    Alone { code, out, how }
}

fn field(out: &str, k: &str) -> String {
    out.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string()
}

// ---------------------------------------------------------------- supervisor

struct Found {
    family: String,
    dev: u32,
    choices: Vec<u32>,
    expected: String,
    actual: String,
    input: String,
    note: String,
    reproduced: bool,
}

fn check(id: &str, tier_s: &str, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let tier = tier_of(tier_s);
    let Some(fams) = families(id, tier) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let dir = root().join(".run").join(format!("{id}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    std::env::set_var("MC_SCRATCH", &dir);
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(["child", id, tier_s, dir.to_str().unwrap()]);
    if let Some(o) = only {
        cmd.arg(o);
    }
    let st = cmd.status().unwrap();
    let mut found: Option<Found> = None;
    let mut broken: Option<String> = None;
    match st.code() {
        Some(0) => {}
        Some(1) => {
            let s = std::fs::read_to_string(dir.join("violation")).unwrap();
            let l: Vec<&str> = s.splitn(5, '\n').collect();
            let f = &fams[l[0].parse::<usize>().unwrap()];
            let (dev, choices) = (l[1].parse().unwrap(), split(l[2]));
            let r = run_alone(id, tier_s, &f.name, dev, &choices);
            found = Some(Found {
                family: f.name.clone(),
                dev,
                choices,
                expected: l[3].into(),
                actual: l[4].into(),
                input: field(&r.out, "input"),
                note: field(&r.out, "note"),
                reproduced: r.code == 1,
            });
        }
        Some(2) => broken = Some("the exploration failed".into()),
        code => {
            // crash or hang: find the execution that does it
            let how = match code {
                Some(97) => "hang".to_string(),
                _ => format!("{st}"),
            };
            eprintln!("exploration ended by {how}; isolating");
            let slots = Slots::open(dir.join("slots").to_str().unwrap(), WORKERS).unwrap();
            let mut todo: Vec<(usize, u32, Vec<u32>)> = (0..WORKERS).filter_map(|w| slots.read(w)).collect();
            if let Ok(w) = std::fs::read_to_string(dir.join("hang")) {
                if let Some(x) = w.trim().parse().ok().and_then(|w: usize| slots.read(w)) {
                    todo.insert(0, x);
                }
            }
            for (f, dev, choices) in todo {
                let name = &fams[f].name;
                let r = run_alone(id, tier_s, name, dev, &choices);
                if !matches!(r.code, 0 | 1 | 2 | 3) {
                    found = Some(Found {
                        family: name.clone(),
                        dev,
                        choices,
                        expected: "the call finishes".into(),
                        actual: r.how,
                        input: String::new(),
                        note: String::new(),
                        reproduced: true,
                    });
                    break;
                }
                if r.code == 1 {
                    found = Some(Found {
                        family: name.clone(),
                        dev,
                        choices,
                        expected: field(&r.out, "expected"),
                        actual: field(&r.out, "actual"),
                        input: field(&r.out, "input"),
                        note: field(&r.out, "note"),
                        reproduced: true,
                    });
                    break;
                }
            }
            if found.is_none() {
                broken = Some(format!("exploration ended by {how}, not reproduced by any worker's last execution"));
            }
        }
    }
    // evidence
    let stats = std::fs::read_to_string(dir.join("stats")).unwrap_or_default();
    let (mut states, mut trans, mut execs) = (0u64, 0u64, 0u64);
    let mut fam_js = vec![];
    let mut samples = vec![];
    for l in stats.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        let f = &fams[p[1].parse::<usize>().unwrap()];
        if p[0] == "S" {
            samples.push(l.splitn(3, '\t').nth(2).unwrap().to_string());
            continue;
        }
        let n = |i: usize| p[i].parse::<u64>().unwrap();
        states += n(2);
        trans += n(3);
        execs += n(4);
        println!("{id} {:<24} states={:<10} transitions={:<11} traces={:<10} outcomes={:<6} {}s", f.name, n(2), n(3), n(4), n(7), p[9]);
        fam_js.push(format!(
            "{{\"name\":{},\"space\":{},\"deviation_bound\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"outside_space\":{},\"longest_trace\":{},\"distinct_outcomes\":{},\"outcome_set_capped\":{},\"traces_by_deviations\":[{}],\"wall_s\":{}}}",
            js(&f.name), js(&f.what), f.dev_bound, n(2), n(3), n(4), n(5), n(6), n(7), p[8], p[10], p[9]
        ));
    }
    let complete = found.is_none() && broken.is_none() && only.is_none();
    let mut extra = String::new();
    let mut code = 0;
    if let Some(v) = &found {
        let rep = root().join("replays");
        std::fs::create_dir_all(&rep).unwrap();
        let mut k = 0;
        let path = loop {
            let p = rep.join(format!("{id}-{k}.json"));
            if !p.exists() {
                break p;
            }
            k += 1;
        };
        let body = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"family\": {},\n \"deviation_bound\": {},\n \"choices\": {},\n \"input\": {},\n \"note\": {},\n \"expected\": {},\n \"actual\": {},\n \"reproduced_in_isolation\": {}\n}}\n",
            js(id), js(tier_s), js(&v.family), v.dev, js(&join(&v.choices)), js(&v.input), js(&v.note), js(&v.expected), js(&v.actual), v.reproduced
        );
        std::fs::write(&path, body).unwrap();
        println!("family   {}", v.family);
        println!("input    {}", clip(&v.input, 400));
        if !v.note.is_empty() {
            println!("note     {}", clip(&v.note, 400));
        }
        println!("expected {}", clip(&v.expected, 400));
        println!("actual   {}", clip(&v.actual, 400));
        if !v.reproduced {
            println!("observed during exploration, not when this path is executed alone: it depends on earlier calls");
        }
        println!("VIOLATION property={id} replay={}", path.display());
        extra = format!(",\"violation\":{}", js(&path.display().to_string()));
        code = 1;
    }
    if let Some(b) = &broken {
        eprintln!("ENGINE ERROR property={id}: {b}");
        code = 2;
    }
    let ev = root().join("evidence");
    std::fs::create_dir_all(&ev).unwrap();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if samples.is_empty() {
        samples.push("{}".into());
    }
    let body = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive_within_bounds\":{},\"counting\":{},\"families\":[{}],\"samples\":[{}]{}}},\"wall_s\":{:.2}}}\n",
        js(id), js(tier_s), seed, states, trans, execs, complete,
        js("states: distinct nodes of the choice trees; transitions: choice steps executed, re-execution from the root included; traces: complete executions of the real code compared with the reference model. No random choice is made; the seed is unused."),
        fam_js.join(","), samples.join(","), extra, t0.elapsed().as_secs_f64()
    );
    if only.is_none() {
        std::fs::write(ev.join(format!("{id}.json")), body).unwrap();
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("{id} {tier_s}: {states} states, {trans} transitions, {execs} traces validated, {:.1} s", t0.elapsed().as_secs_f64());
    code
}

fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).unwrap();
    let get = |k: &str| -> String {
        let line = s.lines().find(|l| l.trim_start().starts_with(&format!("\"{k}\":"))).unwrap_or("");
        let v = line.split_once(':').map(|x| x.1).unwrap_or("").trim().trim_end_matches(',');
        v.trim_matches('"').to_string()
    };
    let r = run_alone(&get("property"), &get("tier"), &get("family"), get("deviation_bound").parse().unwrap(), &split(&get("choices")));
    print!("{}", r.out);
    println!("{}", r.how);
    match r.code {
        0 | 3 => 0,
        2 => 2,
        _ => 1,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match &a[..] {
        ["check", id, tier] => check(id, tier, None),
        ["check", id, tier, fam] => check(id, tier, Some(fam)),
        ["child", id, tier, dir] => child(id, tier_of(tier), Path::new(dir), None),
        ["child", id, tier, dir, fam] => child(id, tier_of(tier), Path::new(dir), Some(fam)),
        ["one", id, tier, fam, dev, choices] => one(id, tier_of(tier), fam, dev.parse().unwrap(), &split(choices)),
        ["one", id, tier, fam, dev] => one(id, tier_of(tier), fam, dev.parse().unwrap(), &[]),
        ["replay", f] => replay(f),
        ["console"] => props::console::console_process(),
        ["hist", spec] => history::history_process(spec),
        ["list"] => {
            for id in IDS {
                for f in families(id, Tier::Quick).unwrap() {
                    println!("{id}\t{}\t{}", f.name, f.what);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: mc check <ID> <quick|thorough> [family] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}

//! S01: the outcome of an operation does not depend on history, place, thread or surroundings.
//!
//! Every history runs in a process of its own: each worker keeps a freshly executed, single-threaded
//! server (`mc hist serve`) that forks one pristine child per history. The oracle is the outcome the
//! same operation has alone in a pristine process.

use super::Tier;
use crate::engine::{bad, Ch, Family, Stop};
use crate::history::*;
use crate::outside::{CLOCKS, FILES, FILLS, SELVES, VALUES};
use crate::sut::show;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Arc;

// ---------------------------------------------------------------- the client

pub struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    alone: Vec<Option<String>>,
    calls: Vec<Option<usize>>,
    count: char,
    kept: std::collections::HashMap<String, Vec<String>>,
}

/// How rx509 is compiled into a server.
#[derive(Clone, Copy, PartialEq)]
pub enum Build {
    /// as in this program
    Here,
    /// for block-level scheduling
    Blocks,
    /// without optimisation
    Plain,
}

impl Build {
    fn program(self) -> std::path::PathBuf {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        match self {
            Build::Here => std::env::current_exe().unwrap(),
            Build::Blocks => std::path::Path::new(&root).join("target/sched/release/sched"),
            Build::Plain => std::path::Path::new(&root).join("target/sched/debug/sched"),
        }
    }
}

impl Server {
    pub fn new(build: Build) -> Server {
        let mut child = Command::new(build.program())
            .args(["hist", "serve"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("history server starts");
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        let n = ops().len();
        Server { child, to, from, alone: vec![None; n], calls: vec![None; n], count: if build == Build::Blocks { 'K' } else { 'C' }, kept: Default::default() }
    }

    /// Outcomes of the steps, or how the process died.
    pub fn ask(&mut self, spec: &str) -> Result<Vec<String>, String> {
        writeln!(self.to, "{spec}").expect("history server listens");
        self.to.flush().unwrap();
        let mut l = String::new();
        self.from.read_line(&mut l).expect("history server answers");
        let mut p = l.trim_end_matches('\n').split('\t');
        match p.next() {
            Some("OK") => Ok(p.map(|s| s.to_string()).collect()),
            Some(s) if s.starts_with("DIED") => Err(s.to_string()),
            _ => panic!("history server said {l:?}"),
        }
    }

    /// Asks once only.
    fn asked(&mut self, spec: &str) -> Vec<String> {
        if let Some(v) = self.kept.get(spec) {
            return v.clone();
        }
        let v = self.ask(spec).unwrap_or_else(|d| vec![d]);
        self.kept.insert(spec.into(), v.clone());
        v
    }

    /// The outcome of one operation alone in a pristine process.
    fn alone(&mut self, op: usize) -> String {
        if self.alone[op].is_none() {
            let r = self.ask(&format!("P {op}.0"));
            self.alone[op] = Some(r.map(|v| v[0].clone()).unwrap_or_else(|d| d));
        }
        self.alone[op].clone().unwrap()
    }

    fn calls(&mut self, op: usize) -> usize {
        if self.calls[op].is_none() {
            let r = self.ask(&format!("{} {op}", self.count));
            self.calls[op] = Some(r.ok().and_then(|v| v[0].parse().ok()).unwrap_or(0));
        }
        self.calls[op].unwrap()
    }

    fn dies(&mut self, op: usize) -> bool {
        self.alone(op).starts_with("DIED")
    }

    /// Runs a history whose steps are these operations; each must have its outcome alone.
    fn expect(&mut self, spec: &str, steps: &[usize], what: &dyn Fn() -> String) -> Result<u64, Stop> {
        for o in steps {
            if self.dies(*o) {
                return Err(Stop::Prune); // not a matter of history
            }
        }
        match self.ask(spec) {
            Err(d) => bad(
                format!("each operation ends as it does alone; {}", what()),
                format!("the process ended ({d}); history {spec}"),
            ),
            Ok(v) => {
                let mut h = 0u64;
                for (i, o) in steps.iter().enumerate() {
                    let want = self.alone(*o);
                    if v.get(i) != Some(&want) {
                        let a = self.ask(&format!("VP {o}.0")).map(|v| v[0].clone()).unwrap_or_else(|d| d);
                        let b = self.ask(&format!("V{spec}")).map(|v| v.get(i).cloned().unwrap_or_default()).unwrap_or_else(|d| d);
                        let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(60);
                        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[k.min(s.len())..(k + 260).min(s.len())]).into_owned();
                        return bad(
                            format!("{} has its outcome alone: ..{}..; {}", op_text(*o), cut(&a), what()),
                            format!("..{}..; history {spec}", cut(&b)),
                        );
                    }
                    h = h.wrapping_mul(31).wrapping_add(u64::from_str_radix(&want, 16).unwrap_or(0));
                }
                Ok(h)
            }
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn family(
    name: &str,
    what: &str,
    dev: u32,
    body: impl Fn(&mut Ch, &mut Server) -> Result<u64, Stop> + Send + Sync + 'static,
) -> Family {
    on_server(Build::Here, name, what, dev, body)
}

fn on_server(
    build: Build,
    name: &str,
    what: &str,
    dev: u32,
    body: impl Fn(&mut Ch, &mut Server) -> Result<u64, Stop> + Send + Sync + 'static,
) -> Family {
    let body = Arc::new(body);
    Family::new(name, what, dev, move || {
        let body = body.clone();
        let mut s = Server::new(build);
        move |ch: &mut Ch| body(ch, &mut s)
    })
}

/// Sequences of operations from a list, places being deviations.
fn sequences(name: &str, list: Vec<usize>, len: usize, dev: u32) -> Family {
    let what = format!(
        "all sequences of {len} operations out of {}, each history in a pristine process, up to {dev} of the inputs in one of {} other places",
        list.len(),
        PLACES.len() - 1
    );
    family(name, &what, dev, move |ch, s| {
        let mut spec = String::from("P");
        let mut steps = vec![];
        let mut places = vec![];
        for _ in 0..len {
            let o = *ch.pick(&list);
            let p = ch.dev(PLACES.len());
            let _ = write!(spec, " {o}.{p}");
            steps.push(o);
            places.push(p);
        }
        ch.saw(&ops()[*steps.last().unwrap()].input);
        ch.note(|| {
            steps.iter().zip(&places).map(|(o, p)| format!("{} in {}", op_text(*o), PLACES[*p])).collect::<Vec<_>>().join(", then ")
        });
        s.expect(&spec, &steps, &|| {
            steps.iter().zip(&places).map(|(o, p)| format!("{} in {}", op_text(*o), PLACES[*p])).collect::<Vec<_>>().join(", then ")
        })
    })
}

pub fn s01(t: Tier) -> Vec<Family> {
    let every: Vec<usize> = (0..ops().len()).collect();
    let all = narrow();
    let core = core_ops();
    let n = all.len();
    let mut v = vec![
        sequences("places", every.clone(), 1, 1),
        family(
            "environment",
            &format!("each of {} operations under {} process environments", every.len(), SETTINGS.len()),
            0,
            {
                let all = every.clone();
                move |ch, s| {
                    let o = *ch.pick(&all);
                    let e = ch.choose(SETTINGS.len());
                    s.expect(&format!("E {e} {o}"), &[o], &|| format!("{} under {:?}", op_text(o), SETTINGS[e]))
                }
            },
        ),
        answers("answers", every.clone(), None),
        answers("answers-then", t.pick(core.clone(), all.clone()), Some(t.pick(vec![], all.clone()))),
        family(
            "thread-names",
            &format!("each of {} operations on threads of {} names, and on two such threads in turn", every.len(), THREADS.len()),
            0,
            {
                let every = every.clone();
                move |ch, s| {
                    let o = *ch.pick(&every);
                    let a = ch.choose(THREADS.len());
                    let b = ch.choose(THREADS.len());
                    if ops()[o].wide && b > 0 {
                        return Err(Stop::Prune);
                    }
                    s.expect(&format!("H {a}.{o} {b}.{o}"), &[o, o], &|| format!("{} on a thread named {:?}, then on {:?}", op_text(o), THREADS[a], THREADS[b]))
                }
            },
        ),
        wide_pairs(t, every.clone(), all.clone()),
        sequences("pairs", all.clone(), 2, t.pick(1, 2)),
        sequences("triples", t.pick(core.clone(), all.clone()), 3, 0),
        sequences("triples-in-places", core.iter().copied().step_by(t.pick(5, 2)).collect(), 3, 1),
        sequences("quadruples", core.iter().copied().step_by(t.pick(4, 2)).collect(), 4, 0),
        family(
            "abandoned",
            &format!("each of {n} operations left by a panic of its handler or printer at each of its first {} callbacks, followed by each operation", t.pick(6, 16)),
            0,
            {
                let all = all.clone();
                let (max, then) = (t.pick(6, 16), t.pick(core.clone(), all.clone()));
                move |ch, s| {
                    let a = *ch.pick(&all);
                    let c = s.calls(a).min(max);
                    if c == 0 {
                        return Err(Stop::Prune);
                    }
                    let k = ch.choose(c);
                    let b = *ch.pick(&then);
                    s.expect(&format!("X {a} {k} {b}"), &[b], &|| format!("after {} abandoned at callback {k}", op_text(a)))
                }
            },
        ),
        family(
            "nested",
            &format!("each operation run inside each of the first {} callbacks of each other", t.pick(5, 16)),
            0,
            {
                let (outer, inner) = (all.clone(), t.pick(core.clone(), all.clone()));
                let max = t.pick(5, 16);
                move |ch, s| {
                    let a = *ch.pick(&outer);
                    let c = s.calls(a).min(max);
                    if c == 0 {
                        return Err(Stop::Prune);
                    }
                    let k = ch.choose(c);
                    let b = *ch.pick(&inner);
                    s.expect(&format!("N {a} {k} {b}"), &[a, b], &|| format!("{} inside callback {k} of {}", op_text(b), op_text(a)))
                }
            },
        ),
        family(
            "threads",
            &format!(
                "two of {} operations on threads of their own, every schedule with up to {} preemptions at callbacks of the first 24",
                core.len(),
                t.pick(1, 2)
            ),
            t.pick(1, 2),
            {
                let core = core.clone();
                move |ch, s| {
                    let a = *ch.pick(&core);
                    let b = *ch.pick(&core);
                    let (ca, cb) = (s.calls(a).min(24), s.calls(b).min(24));
                    // who runs first, then at each scheduling point whether it goes on
                    let mut turn = ch.choose(2);
                    let mut left = [ca, cb];
                    let mut sched = turn.to_string();
                    while left[0] > 0 || left[1] > 0 {
                        if left[turn] == 0 {
                            // it ends; the other one takes over
                            sched.push_str(&(1 - turn).to_string());
                            turn = 1 - turn;
                            if left[turn] == 0 {
                                break;
                            }
                        }
                        left[turn] -= 1;
                        if ch.dev(2) == 1 {
                            turn = 1 - turn;
                        }
                        sched.push_str(&turn.to_string());
                    }
                    s.expect(&format!("T {a} {b} {sched}"), &[a, b], &|| format!("{} and {} on two threads", op_text(a), op_text(b)))
                }
            },
        ),
        family(
            "merges",
            &format!("two operations of at most {} callbacks on threads of their own, every merge of their callbacks", t.pick(3, 5)),
            0,
            {
                let core = core.clone();
                let max = t.pick(3, 5);
                move |ch, s| {
                    let a = *ch.pick(&core);
                    let b = *ch.pick(&core);
                    let mut left = [s.calls(a), s.calls(b)];
                    if left[0] > max || left[1] > max {
                        return Err(Stop::Prune);
                    }
                    // segments: callbacks and the end of each
                    left[0] += 1;
                    left[1] += 1;
                    let mut sched = String::new();
                    while left[0] > 0 && left[1] > 0 {
                        let c = ch.choose(2);
                        left[c] -= 1;
                        sched.push_str(&c.to_string());
                    }
                    let rest = if left[0] > 0 { "0" } else { "1" };
                    for _ in 0..left[0] + left[1] {
                        sched.push_str(rest);
                    }
                    s.expect(&format!("T {a} {b} {sched}"), &[a, b], &|| format!("{} and {} on two threads", op_text(a), op_text(b)))
                }
            },
        ),
        family(
            "repetition",
            &format!(
                "each of {} operations repeated 2, 3, 10, 255..=257, 1000 times ({} of them only 257 times), then every operation once",
                every.len(),
                t.pick(every.len() - n, 0)
            ),
            0,
            {
                let brief = t == Tier::Quick;
                let all = every.clone();
                move |ch, s| {
                    let a = *ch.pick(&all);
                    let k = *ch.pick(&[257usize, 2, 3, 10, 255, 256, 1000]);
                    if brief && ops()[a].wide && k != 257 {
                        return Err(Stop::Prune);
                    }
                    let after: Vec<usize> = all.iter().copied().filter(|o| !s.dies(*o)).collect();
                    let list = after.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
                    let steps: Vec<usize> = std::iter::once(a).chain(after).collect();
                    s.expect(&format!("R {k} {a} {list}"), &steps, &|| format!("after {k} times {}", op_text(a)))
                }
            },
        ),
        family(
            "long-repetition",
            &format!("each of {} operations repeated 65540 times, then every operation once", core.len()),
            0,
            {
                let (list, all) = (core.clone(), all.clone());
                let step = t.pick(4, 1);
                move |ch, s| {
                    let small: Vec<usize> = list.iter().copied().filter(|o| ops()[*o].input.len() < 60).step_by(step).collect();
                    let a = *ch.pick(&small);
                    let after: Vec<usize> = all.iter().copied().filter(|o| !s.dies(*o)).collect();
                    let l = after.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
                    let steps: Vec<usize> = std::iter::once(a).chain(after).collect();
                    s.expect(&format!("R 65540 {a} {l}"), &steps, &|| format!("after 65540 times {}", op_text(a)))
                }
            },
        ),
        family(
            "one-process",
            &format!(
                "de Bruijn sequences in one process: every pair of {} operations{} in succession, in each place and in places taken in turn",
                t.pick(n, every.len().div_ceil(3)),
                t.pick("", " and every triple of the core ones")
            ),
            0,
            {
                let all = t.pick(all.clone(), every.iter().copied().step_by(3).collect());
                let core = core.clone();
                let orders: &[(bool, usize)] = t.pick(&[(true, 2)], &[(true, 2), (false, 3)]);
                move |ch, s| {
                    let p = ch.choose(PLACES.len() + 1);
                    let (every, k) = *ch.pick(orders);
                    let src = if every { &all } else { &core };
                    let place = if p == PLACES.len() { 100 } else { p };
                    let list: Vec<usize> = src.iter().copied().filter(|o| !s.dies(*o)).collect();
                    let words = list.iter().map(|o| format!("{o}={}", s.alone(*o))).collect::<Vec<_>>().join(" ");
                    match s.ask(&format!("VB {place} {k} {words}")) {
                        Ok(v) if v[0].is_empty() => Ok(1 + p as u64),
                        Ok(v) => bad(
                            format!("every operation has its outcome alone along a de Bruijn sequence of order {k} in place {p}"),
                            v[0].chars().take(300).collect::<String>(),
                        ),
                        Err(d) => bad("the sequence of operations ends", d),
                    }
                }
            },
        ),
    ];
    v.push(look_alikes(t));
    v.push(unoptimised(t));
    v.push(blocks_one(t));
    v.push(blocks_two(t));
    if t == Tier::Thorough {
        v.push(sequences("quintuples", core.iter().copied().step_by(4).collect(), 5, 0));
    }
    v
}

/// The operations as compiled without optimisation: what the compiler may leave out of an
/// optimised program (a write to an input that is not read again, say) is left in there.
fn unoptimised(t: Tier) -> Family {
    let every: Vec<usize> = (0..ops().len()).collect();
    let core = t.pick(few(), core_ops());
    let what = format!(
        "without optimisation: each of {} operations in each of {} places, and all sequences of two of {} operations, compared with the outcome of each alone as optimised",
        every.len(),
        PLACES.len(),
        core.len()
    );
    Family::new("unoptimised", &what, 0, move || {
        let (every, core) = (every.clone(), core.clone());
        let mut here = Server::new(Build::Here);
        let mut plain = Server::new(Build::Plain);
        move |ch: &mut Ch| {
            let (steps, spec) = if ch.flip() {
                let (a, b) = (*ch.pick(&core), *ch.pick(&core));
                (vec![a, b], format!("P {a}.0 {b}.0"))
            } else {
                let o = *ch.pick(&every);
                let p = ch.choose(PLACES.len());
                (vec![o], format!("P {o}.{p}"))
            };
            for o in &steps {
                if plain.alone[*o].is_none() {
                    plain.alone[*o] = Some(here.alone(*o));
                }
            }
            plain.expect(&spec, &steps, &|| "compiled without optimisation".into())
        }
    })
}

/// An input and another that differs from it in one or two octets, in one process.
fn look_alikes(t: Tier) -> Family {
    let list: Vec<usize> = (0..bases().len()).filter(|i| t == Tier::Thorough || bases()[*i].1.len() < 700).collect();
    let octets: usize = list.iter().map(|i| bases()[*i].1.len()).sum();
    let what = format!(
        "{} inputs of {octets} octets together: each octet with {}; the input, its look-alike and the input again in the same place, then the look-alike elsewhere and in that place, all in one process",
        list.len(),
        TWISTS.join(", or with ")
    );
    let step = t.pick(2, 1);
    family("look-alikes", &what, 0, move |ch, s| {
        let g = *ch.pick(&list);
        let (entry, base) = &bases()[g];
        if base.is_empty() {
            return Err(Stop::Prune);
        }
        let at = ch.choose(base.len());
        let k = ch.choose(TWISTS.len());
        // of the larger ones every other octet
        if base.len() > 260 && (at + k) % step != 0 {
            return Err(Stop::Prune);
        }
        let Some(like) = look_alike(base, at, k) else { return Err(Stop::Prune) };
        ch.saw(&like);
        let get = |s: &mut Server, spec: String| s.ask(&spec).unwrap_or_else(|d| vec![d]);
        let key = format!("L {g} 0 -");
        let one = s.asked(&key);
        let two = get(s, format!("L {g} {at} {k}"));
        if one[0].starts_with("DIED") || two[0].starts_with("DIED") {
            return Err(Stop::Prune);
        }
        let spec = format!("M {g} {at} {k}");
        let got = get(s, spec.clone());
        let want = [&one[0], &two[0], &one[0], &two[0], &two[0]];
        for (i, w) in want.iter().enumerate() {
            if got.get(i) != Some(w) {
                let b = s.ask(&format!("V{spec}")).map(|v| v.get(i).cloned().unwrap_or_default()).unwrap_or_else(|d| d);
                return bad(
                    format!("{entry:?} of {} and of one with octet {at} {}, in turn, with their outcomes alone", crate::sut::show(base), TWISTS[k]),
                    format!("step {i}: {}; history {spec}", b.chars().take(300).collect::<String>()),
                );
            }
        }
        Ok(u64::from_str_radix(&two[0], 16).unwrap_or(0))
    })
}

/// Two of the many operations, one of them (thorough: none of them) among the few.
fn wide_pairs(t: Tier, every: Vec<usize>, few: Vec<usize>) -> Family {
    let what = format!(
        "all sequences of two of {} operations{}, each history in a pristine process",
        every.len(),
        t.pick(format!(", at least one of them among {}", few.len()), String::new())
    );
    family("wide-pairs", &what, 0, move |ch, s| {
        let a = *ch.pick(&every);
        let b = if t == Tier::Quick && ops()[a].wide { *ch.pick(&few) } else { *ch.pick(&every) };
        s.expect(&format!("P {a}.0 {b}.0"), &[a, b], &|| format!("{}, then {}", op_text(a), op_text(b)))
    })
}

fn narrow() -> Vec<usize> {
    (0..ops().len()).filter(|i| !ops()[*i].wide).collect()
}

/// Operations while the world outside answers as a policy says; then others (none: the same) with
/// any other answers.
fn answers(name: &str, list: Vec<usize>, then: Option<Vec<usize>>) -> Family {
    let what = format!(
        "each of {} operations while every environment variable it asks for answers with one of {} values, every clock with one of {} instants, every random octet with one of {} values, every file is one of {}, or the process is another in one of {} ways (number, terminal, folder, links, host, processors){}",
        list.len(),
        VALUES.len(),
        CLOCKS.len(),
        FILLS.len(),
        FILES.len(),
        SELVES.len(),
        match &then {
            None => "; once more with the usual answers".to_string(),
            Some(v) if v.is_empty() => "; then itself with any other answers".to_string(),
            Some(v) => format!("; then itself with any other answers or each of {} with the usual ones", v.len()),
        }
    );
    family(name, &what, 0, move |ch, s| {
        let policy = |ch: &mut Ch| {
            let mut p = [0usize; 5];
            let k = ch.choose(6);
            if k < 5 {
                p[k] = 1 + ch.choose([VALUES.len(), CLOCKS.len(), FILLS.len(), FILES.len(), SELVES.len()][k]);
            }
            p
        };
        let a = *ch.pick(&list);
        let p = policy(ch);
        let b = match &then {
            Some(v) if !v.is_empty() && ch.flip() => *ch.pick(v),
            _ => a,
        };
        let q = if then.is_some() && a == b { policy(ch) } else { [0; 5] };
        let dots = |p: [usize; 5]| p.map(|x| x.to_string()).join(".");
        let spec = format!("G {}.{a} {}.{b}", dots(p), dots(q));
        s.expect(&spec, &[a, b], &|| {
            let text = |p: [usize; 5]| match p {
                [0, 0, 0, 0, 0] => "usual answers".to_string(),
                [e, 0, 0, 0, 0] => format!("every variable {:?}", VALUES[e - 1].map(|v| String::from_utf8_lossy(&v[..v.len() - 1]))),
                [_, c, 0, 0, 0] => format!("every clock at {}", CLOCKS[c - 1]),
                [_, _, r, 0, 0] => format!("every random octet {:02x}", FILLS[r - 1]),
                [_, _, _, f, 0] => format!("every file {:?}", FILES[f - 1].map(|v| String::from_utf8_lossy(&v[..v.len() - 1]))),
                [_, _, _, _, o] => format!("another process: {:?}", SELVES[o - 1]),
            };
            format!("{} with {}, then {} with {}", op_text(a), text(p), op_text(b), text(q))
        })
    })
}

/// One preemption at any basic block.
fn blocks_one(t: Tier) -> Family {
    let first: Vec<usize> = (0..ops().len()).collect();
    let second = t.pick(few(), narrow());
    let what = format!(
        "each of {} operations preempted before any one of its basic blocks in rx509 by each of {} operations on another thread ({} more only by themselves{}), in a pristine process",
        narrow().len(),
        second.len(),
        first.len() - narrow().len(),
        t.pick(", those of at most 160 blocks", " and two others")
    );
    let big = t.pick(400, usize::MAX);
    let brief = t == Tier::Quick;
    on_server(Build::Blocks, "blocks-1", &what, 0, move |ch, s| {
        let a = *ch.pick(&first);
        let n = s.calls(a);
        // the many are preempted by themselves (thorough: and two others) only
        let b = match (ops()[a].wide, brief) {
            (true, true) if n > 160 => return Err(Stop::Prune),
            (true, true) => a,
            (true, false) => *ch.pick(&[a, second[0], second[second.len() - 1]]),
            _ => *ch.pick(&second),
        };
        if n > big && a != b {
            // the large ones are preempted by themselves only
            return Err(Stop::Prune);
        }
        if n == 0 {
            return Err(Stop::Prune);
        }
        let k = ch.choose(n);
        s.expect(&format!("D {a} {b} 0 {k}"), &[a, b], &|| format!("{} preempted before block {k} by {}", op_text(a), op_text(b)))
    })
}

/// Two preemptions: one thread, the other, back, and the rest.
fn blocks_two(t: Tier) -> Family {
    let list: Vec<usize> = t.pick(few().into_iter().take(4).collect(), few());
    let max = t.pick(70, 220);
    let what = format!(
        "two of {} operations of at most {max} basic blocks on two threads, switched before any block of the first, before any block of the second, and at the end of the first",
        list.len()
    );
    on_server(Build::Blocks, "blocks-2", &what, 0, move |ch, s| {
        let a = *ch.pick(&list);
        let b = *ch.pick(&list);
        let (n, m) = (s.calls(a), s.calls(b));
        if n > max || m > max || n == 0 || m == 0 {
            return Err(Stop::Prune);
        }
        let k = ch.choose(n);
        let l = ch.choose(m);
        s.expect(&format!("D {a} {b} 0 {k} {l}"), &[a, b], &|| {
            format!("{} preempted before block {k} by {}, that before block {l}", op_text(a), op_text(b))
        })
    })
}

/// One small operation of each kind, and pairs that differ little.
fn few() -> Vec<usize> {
    let all = ops();
    let mut v: Vec<usize> = vec![];
    let mut seen = std::collections::HashMap::new();
    for (i, o) in all.iter().enumerate() {
        let key = (o.entry as u8, o.input.first().copied().unwrap_or(0));
        let k = seen.entry(key).or_insert(0);
        *k += 1;
        if o.core && *k <= if key.1 == 6 { 4 } else { 2 } && o.input.len() < 100 {
            v.push(i);
        }
    }
    v
}

//! The command that decides one property.
use crate::explore::*;
use crate::monitor::Viol;
use crate::props::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

fn matches(kinds: &[&str], scenario: &str, v: &Viol) -> bool {
    kinds.iter().any(|k| match k.split_once('@') {
        Some((k, s)) => k == v.kind && scenario.contains(s),
        None => *k == v.kind,
    })
}

struct Known {
    property: String,
    id: String,
    kind: String,
    scenario: String,
    decisions: Vec<u32>,
    what: String,
}
fn known(root: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(format!("{root}/known-findings.json")) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known-findings.json");
    v["findings"]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| Known {
            property: f["property"].as_str().unwrap().into(),
            id: f["id"].as_str().unwrap().into(),
            kind: f["kind"].as_str().unwrap().into(),
            scenario: f["scenario"].as_str().unwrap().into(),
            decisions: f["decisions"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect(),
            what: f["what"].as_str().unwrap().into(),
        })
        .collect()
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

pub fn check(all: &[Scenario], id: &str, root: &str) -> i32 {
    let t0 = Instant::now();
    let Some(p) = PROPS.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let seed = env_u64("VERIF_SEED", 1);
    let secs = env_u64("VERIF_SECS", if thorough { 780 } else { 32 });
    let threads = env_u64("VERIF_THREADS", 8) as usize;

    // known findings, shown on the real code
    let mut known_lines = vec![];
    let kn = known(root);
    for k in kn.iter().filter(|k| k.property == id) {
        let Some(sc) = all.iter().find(|s| s.name == k.scenario) else {
            eprintln!("known finding {}: no scenario {}", k.id, k.scenario);
            return 2;
        };
        let ex = execute(sc, k.decisions.clone(), vec![], false, Duration::from_secs(60));
        if let Some(v) = ex.viols.iter().find(|v| v.kind == k.kind) {
            println!("KNOWN-FINDING: property={id} {}: {} [{} {:?}: {}]", k.id, k.what, k.scenario, k.decisions, v.detail);
            known_lines.push(json!({"id": k.id, "kind": k.kind, "scenario": k.scenario, "decisions": k.decisions, "detail": v.detail}));
        }
    }

    // one deviation everywhere comes before two deviations anywhere
    let two = |s: &&&str| s.starts_with("hold2") || s.starts_with("drop2") || s.starts_with("crash2") || s.starts_with("mix2");
    let mut groups: Vec<Vec<&str>> = vec![
        p.first.to_vec(),
        p.then.iter().filter(|s| !two(s)).copied().collect(),
        SINGLE.to_vec(),
        SHORT.to_vec(),
        p.then.iter().filter(two).copied().collect(),
    ];
    if thorough {
        groups.extend(DEEP.iter().map(|g| g.to_vec()));
    }
    let mut seen = BTreeSet::new();
    let mut scs: Vec<Scenario> = vec![];
    for (g, pats) in groups.iter().enumerate() {
        for pat in pats {
            let exact = pat.chars().last().map_or(false, |c| c.is_ascii_digit());
            let mut hit = false;
            for s in all.iter().filter(|s| if exact { s.name == *pat } else { s.name.starts_with(pat) }) {
                hit = true;
                if seen.insert(s.name.clone()) {
                    let mut s = s.clone();
                    s.rank += g as u32 * 16;
                    scs.push(s);
                }
            }
            if !hit {
                eprintln!("no scenario {pat}");
                return 2;
            }
        }
    }
    let kinds = p.kinds;
    let o = explore(
        &scs,
        Opts {
            threads,
            deadline: t0 + Duration::from_secs(secs),
            stop_on: Box::new(move |s, v| matches(kinds, s, v)),
            max_found: 1,
            exec_wall: Duration::from_secs(60),
            recheck: 64,
        },
    );
    let st = &o.stats;
    let mut confirmed = vec![];
    let mut errors = o.errors.clone();
    for f in &o.found {
        let sc = scs.iter().find(|s| s.name == f.scenario).unwrap();
        let again = execute(sc, f.choices.clone(), vec![], f.viol.kind != "hang", Duration::from_secs(60));
        let Some(v) = again.viols.iter().find(|v| v.kind == f.viol.kind) else {
            errors.push(format!("{} does not repeat: {}", f.scenario, f.viol.detail));
            continue;
        };
        let dir = format!("{root}/replays");
        std::fs::create_dir_all(&dir).ok();
        let path = format!("{dir}/{id}-{}-{}.json", f.scenario, f.viol.kind);
        let j = json!({
            "property": id, "scenario": f.scenario, "kind": f.viol.kind, "detail": v.detail,
            "decisions": f.choices, "deviations": f.tags,
            "replay": format!("cd {root} && mc/target/release/mc replay {path}"),
            "trace": again.trace,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).ok();
        println!("{}: {} [{} {}]", f.viol.kind, v.detail, f.scenario, f.tags.join(" "));
        println!("VIOLATION property={id} replay={path}");
        confirmed.push(j);
    }
    for e in &errors {
        eprintln!("ERROR {e}");
    }

    // evidence
    let mut fams: BTreeMap<String, (u64, u64, u64)> = BTreeMap::new();
    let complete: Vec<&String> = st.per_scenario.iter().filter(|x| x.1 .1 && x.1 .0 > 0).map(|x| x.0).collect();
    let partial: Vec<String> = st.per_scenario.iter().filter(|x| !x.1 .1 && x.1 .0 > 0).map(|x| format!("{} ({} executions)", x.0, x.1 .0)).collect();
    let untouched = scs.len() - complete.len() - partial.len();
    for (n, (c, done)) in &st.per_scenario {
        let f = n.split('.').next().unwrap().to_string();
        let e = fams.entry(f).or_default();
        e.0 += 1;
        e.1 += *done as u64 * (*c > 0) as u64;
        e.2 += c;
    }
    let first_done = scs.iter().filter(|s| s.rank < 16).all(|s| st.per_scenario.get(&s.name).map_or(false, |x| x.1 && x.0 > 0));
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": st.states.len(),
            "transitions": st.steps,
            "traces_validated_against_impl": st.executions,
            "distinct_final_states": st.finals.len(),
            "decisions": st.choices,
            "messages": st.msgs,
            "repeated_executions_found_identical": st.rechecked,
            "exhaustive": st.exhausted && o.found.is_empty(),
            "core_scenarios_exhausted": first_done,
            "scenarios_exhausted": complete,
            "scenarios_cut_by_the_time_limit": partial,
            "scenarios_not_reached": untouched,
            "per_family": fams.iter().map(|(k, v)| (k.clone(), json!({"scenarios": v.0, "exhausted": v.1, "executions": v.2}))).collect::<BTreeMap<_, _>>(),
            "invariant_evaluations": st.checks,
            "violation_kinds_decided": kinds,
            "rule": "Every execution runs the real sorock code under a controlled scheduler, clock and network; all sequences of decisions of a scenario within its budget of deviations are executed, fewest deviations first. States are distinct hashes of all logs, ballots, snapshots, applications, answers and links; transitions are steps of the scheduler.",
            "samples": st.samples,
            "known_findings_shown": known_lines,
        },
        "assumptions": [
            "tokio's scheduler runs tasks of a node one at a time; interleavings are explored at storage, application and network operations (deviations bounded per scenario)",
            "disk and ballot store are atomic and durable once their call returns (P15 and P16 check the redb backend for that)",
            "clocks of the nodes run at one rate"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": confirmed.len(),
    });
    std::fs::create_dir_all(format!("{root}/evidence")).ok();
    std::fs::write(format!("{root}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{id}: {} executions, {} steps, {} states, {} scenarios exhausted, {} cut, {} not reached, {} violations, {:.1} s",
        st.executions,
        st.steps,
        st.states.len(),
        complete.len(),
        partial.len(),
        untouched,
        confirmed.len(),
        t0.elapsed().as_secs_f64()
    );
    if !confirmed.is_empty() {
        1
    } else if !errors.is_empty() {
        2
    } else {
        0
    }
}

pub fn replay(all: &[Scenario], path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let sc = all.iter().find(|s| s.name == v["scenario"].as_str().unwrap()).expect("scenario");
    let ds = v["decisions"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let ex = execute(sc, ds, vec![], true, Duration::from_secs(120));
    for l in &ex.trace {
        println!("{l}");
    }
    for v in &ex.viols {
        println!("VIOL {} {}", v.kind, v.detail);
    }
    if ex.viols.iter().any(|x| x.kind == v["kind"].as_str().unwrap()) {
        1
    } else {
        0
    }
}

/// The core scenarios of all properties at once; which properties are refuted.
pub fn hunt(all: &[Scenario], secs: u64) {
    let pick = |pats: &[&str]| -> Vec<String> {
        pats.iter()
            .flat_map(|p| {
                let exact = p.chars().last().map_or(false, |c| c.is_ascii_digit());
                all.iter().filter(move |s| if exact { s.name == *p } else { s.name.starts_with(p) }).map(|s| s.name.clone())
            })
            .collect()
    };
    let firsts: Vec<(&Prop, Vec<String>)> = PROPS.iter().map(|p| (p, pick(p.first))).collect();
    let names: BTreeSet<String> = firsts.iter().flat_map(|x| x.1.iter().cloned()).chain(pick(SINGLE)).collect();
    let scs: Vec<Scenario> = all.iter().filter(|s| names.contains(&s.name)).cloned().collect();
    let o = explore(
        &scs,
        Opts {
            threads: 8,
            deadline: Instant::now() + Duration::from_secs(secs),
            stop_on: Box::new(|s, v| PROPS.iter().any(|p| matches(p.kinds, s, v))),
            max_found: 25,
            exec_wall: Duration::from_secs(60),
            recheck: 0,
        },
    );
    let mut props: BTreeMap<&str, BTreeSet<String>> = BTreeMap::new();
    for f in &o.found {
        for (p, first) in &firsts {
            if matches(p.kinds, &f.scenario, &f.viol) {
                let core = first.contains(&f.scenario);
                props.entry(p.id).or_default().insert(format!("{}@{}{}", f.viol.kind, f.scenario, if core { "" } else { "(late)" }));
            }
        }
    }
    println!("{} executions, {:.1} s, {} found", o.stats.executions, o.stats.wall, o.found.len());
    for (p, k) in props {
        println!("  {p}: {}", k.iter().take(4).cloned().collect::<Vec<_>>().join(" "));
    }
    for e in o.errors.iter().take(2) {
        println!("  ERR {e}");
    }
}

//! Command line, evidence, replays and known findings

use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::explore::{self, Chooser, Limits, Run, Stats, Step};

#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One model: a closed system with a bound
pub struct Suite {
    pub name: String,
    /// Alphabet and bound in words
    pub about: String,
    pub bound: u32,
}

struct Replay {
    suite: String,
    choices: Vec<u32>,
    bound: u32,
}

pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    started: Instant,
    deadline: Instant,
    known: HashSet<String>,
    replay: Option<Replay>,
    only: Option<String>,
    total: Stats,
    suites: Vec<Value>,
    assumptions: Vec<String>,
    known_hits: BTreeMap<String, String>,
    violation: Option<(String, String)>,
    replayed: bool,
}

static HANG: Mutex<Option<(String, String, u32)>> = Mutex::new(None);

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_owned()))
}

fn write_replay(
    property: &str,
    suite: &str,
    bound: u32,
    choices: &[u32],
    key: &str,
    message: &str,
    log: &[String],
) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let name: String = suite
        .chars()
        .map(|c| if c.is_ascii_alphanumeric() { c } else { '-' })
        .collect();
    let path = dir.join(format!("{property}-{name}.json"));
    let value = json!({
        "property": property,
        "suite": suite,
        "bound": bound,
        "choices": choices,
        "key": key,
        "message": message,
        "log": log,
        "how": format!("/verif/check.sh {property} --replay <this file>"),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&value).unwrap()).ok();
    path
}

/// Called by the watchdog: the code under test does not return
pub(crate) fn report_hang(prefix: &[u32]) -> ! {
    let (property, suite, bound) = HANG.lock().unwrap().clone().unwrap_or_default();
    let path = write_replay(&property, &suite, bound, prefix, "hang", "never returns", &[]);
    println!("{property}: suite {suite}: the code under test does not return (choices start with {prefix:?})");
    println!("VIOLATION property={property} replay={}", path.display());
    std::process::exit(1);
}

impl Ctx {
    pub fn is_thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Picks a value depending on the tier
    pub fn tiered<T>(&self, quick: T, thorough: T) -> T {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    pub fn assume(&mut self, text: &str) {
        self.assumptions.push(text.to_owned());
    }

    fn skip(&self, name: &str) -> bool {
        if self.violation.is_some() {
            return true;
        }
        if let Some(only) = &self.only {
            return !name.contains(only.as_str());
        }
        if let Some(replay) = &self.replay {
            return replay.suite != name;
        }
        false
    }

    /// Explores all executions of the model up to the bound, with 0, 1, 2, ... deviations
    pub fn explore<F>(&mut self, suite: Suite, body: F)
    where
        F: Fn(&mut Chooser<'_>) -> Step + Sync,
    {
        if self.skip(&suite.name) {
            return;
        }

        if let Some(replay) = &self.replay {
            let (choices, bound) = (replay.choices.clone(), replay.bound);
            self.replayed = true;
            let mut chooser = Chooser::new(&choices, bound, true);
            let run = explore::run_once(&body, &mut chooser);
            for line in &chooser.log {
                println!("{line}");
            }
            match run {
                Run::Violation { key, message } => {
                    println!("violation [{key}]: {message}");
                    self.violation = Some((key, "(replayed)".to_owned()));
                }
                Run::Engine(e) => {
                    println!("engine error: {e}");
                    std::process::exit(2);
                }
                _ => println!("no violation"),
            }
            return;
        }

        let started = Instant::now();
        let mut done = Vec::new();
        let mut last = Stats::default();
        for bound in 0..=suite.bound {
            *HANG.lock().unwrap() = Some((self.property.clone(), suite.name.clone(), bound));
            let limits = Limits {
                bound,
                deadline: self.deadline,
                threads: std::env::var("HARNESS_THREADS")
                    .ok()
                    .and_then(|s| s.parse().ok())
                    .unwrap_or(8),
                samples: 3,
                hang: Duration::from_secs(30),
            };
            let known = &self.known;
            let stats = explore::explore(&limits, |key| known.contains(key), &body);

            if let Some(e) = &stats.engine_error {
                println!("{}: engine error in suite {}: {e}", self.property, suite.name);
                std::process::exit(2);
            }
            done.push(json!({
                "deviations": bound,
                "executions": stats.executions,
                "capped": stats.capped,
            }));
            let stop = stats.capped || !stats.found.is_empty();
            let same = bound > 0 && stats.executions == last.executions && !stats.capped;
            last = stats;
            if stop || same {
                break;
            }
        }

        for found in std::mem::take(&mut last.found) {
            // The same choices must lead to the same violation every time
            let bound = done.len() as u32 - 1;
            let mut log = Vec::new();
            for _ in 0..2 {
                // What failed may have left something behind on its thread
                let (run, lines) = std::thread::scope(|scope| {
                    std::thread::Builder::new()
                        .name("replay".to_owned())
                        .stack_size(16 << 20)
                        .spawn_scoped(scope, || {
                            let mut chooser = Chooser::new(&found.choices, bound, true);
                            let run = explore::run_once(&body, &mut chooser);
                            (run, std::mem::take(&mut chooser.log))
                        })
                        .unwrap()
                        .join()
                        .unwrap()
                });
                match run {
                    Run::Violation { key, .. } if key == found.key => {}
                    _ => {
                        println!(
                            "{}: engine error in suite {}: violation is not reproducible: [{}] {} (choices {:?})",
                            self.property, suite.name, found.key, found.message, found.choices
                        );
                        std::process::exit(2);
                    }
                }
                log = lines;
            }
            if self.known.contains(&found.key) {
                self.known_hits.insert(found.key, found.message);
                continue;
            }
            let path = write_replay(
                &self.property,
                &suite.name,
                bound,
                &found.choices,
                &found.key,
                &found.message,
                &log,
            );
            println!("{}: suite {}: [{}] {}", self.property, suite.name, found.key, found.message);
            for line in log.iter().take(60) {
                println!("    {line}");
            }
            if self.violation.is_none() {
                self.violation = Some((found.key, path.display().to_string()));
            }
        }

        println!(
            "{}: {}: {} executions, {} states, {} transitions, {} outcomes, {} pruned, depth {}, {:.1}s{}",
            self.property,
            suite.name,
            last.executions,
            last.states.len(),
            last.transitions,
            last.outcomes.len(),
            last.pruned,
            last.max_depth,
            started.elapsed().as_secs_f64(),
            if last.capped { " CAPPED" } else { "" },
        );
        self.suites.push(json!({
            "name": suite.name,
            "about": suite.about,
            "executions": last.executions,
            "pruned": last.pruned,
            "states": last.states.len(),
            "transitions": last.transitions,
            "distinct_outcomes": last.outcomes.len(),
            "choice_points": last.choice_points,
            "max_choices_in_one_execution": last.max_depth,
            "deviation_bounds": done,
            "capped": last.capped,
            "wall_s": started.elapsed().as_secs_f64(),
        }));
        let name_hash = crate::util::hash_of(&suite.name);
        self.total.executions += last.executions;
        self.total.transitions += last.transitions;
        self.total.capped |= last.capped;
        for s in last.states {
            self.total.states.insert(s ^ name_hash);
        }
        for s in last.outcomes {
            self.total.outcomes.insert(s ^ name_hash);
        }
        for s in last.samples.into_iter().take(2) {
            let mut lines = vec![format!("suite {}", suite.name)];
            lines.extend(s.into_iter().take(40));
            self.total.samples.push(lines);
        }
    }

    fn finish(mut self) -> ! {
        if self.replay.is_some() {
            if !self.replayed {
                println!("no such suite");
                std::process::exit(2);
            }
            std::process::exit(i32::from(self.violation.is_some()));
        }

        for (key, message) in &self.known_hits {
            println!("KNOWN-FINDING: property={} {key}: {message}", self.property);
        }

        let states = self.total.states.len().max(self.total.outcomes.len());
        if self.total.samples.is_empty() {
            self.total.samples.push(vec!["nothing was explored".to_owned()]);
        }
        let samples: Vec<Value> = self.total.samples.iter().take(12).map(|s| json!(s)).collect();
        let evidence = json!({
            "property": self.property,
            "tier": match self.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": states,
                "transitions": self.total.transitions,
                "traces_validated_against_impl": self.total.executions,
                "distinct_outcomes": self.total.outcomes.len(),
                "exhaustive": !self.total.capped,
                "samples": samples,
                "suites": self.suites,
                "rule": "every trace is executed on the real code; a state is a distinct hash of what the oracle observes after a transition",
            },
            "assumptions": self.assumptions,
            "wall_s": self.started.elapsed().as_secs_f64(),
            "violations": i32::from(self.violation.is_some()),
        });
        let dir = verif_dir().join("evidence");
        std::fs::create_dir_all(&dir).ok();
        std::fs::write(
            dir.join(format!("{}.json", self.property)),
            serde_json::to_string_pretty(&evidence).unwrap(),
        )
        .unwrap();

        match &self.violation {
            Some((_, path)) => {
                println!("VIOLATION property={} replay={path}", self.property);
                std::process::exit(1);
            }
            None => {
                println!("{}: held on everything explored", self.property);
                std::process::exit(0);
            }
        }
    }
}

fn load_known(property: &str) -> HashSet<String> {
    let path = verif_dir().join("known-findings.txt");
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let prefix = format!("finding: property={property} key=");
    text.lines()
        .filter_map(|line| line.strip_prefix(&prefix))
        // The key goes up to the double semicolon
        .map(|line| line.split(";;").next().unwrap_or_default().trim().to_owned())
        .collect()
}

/// Entry point of every check
pub fn check_main(property: &str, f: impl FnOnce(&mut Ctx)) -> ! {
    explore::install_panic_hook();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut args = std::env::args().skip(1);
    let mut replay = None;
    let mut only = None;
    while let Some(arg) = args.next() {
        match arg.as_str() {
            "--replay" => {
                let path = args.next().expect("path to the replay");
                let value: Value =
                    serde_json::from_str(&std::fs::read_to_string(path).expect("replay")).unwrap();
                replay = Some(Replay {
                    suite: value["suite"].as_str().unwrap().to_owned(),
                    bound: value["bound"].as_u64().unwrap() as u32,
                    choices: value["choices"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|c| c.as_u64().unwrap() as u32)
                        .collect(),
                });
            }
            "--thorough" => tier = Tier::Thorough,
            "--suite" => only = args.next(),
            _ => panic!("unknown argument {arg}"),
        }
    }

    let budget = std::env::var("HARNESS_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(match tier {
            Tier::Quick => 240,
            Tier::Thorough => 780,
        });
    let started = Instant::now();
    let mut ctx = Ctx {
        property: property.to_owned(),
        tier,
        seed,
        started,
        deadline: started + Duration::from_secs(budget),
        known: load_known(property),
        replay,
        only,
        total: Stats::default(),
        suites: Vec::new(),
        assumptions: Vec::new(),
        known_hits: BTreeMap::new(),
        violation: None,
        replayed: false,
    };
    f(&mut ctx);
    ctx.finish()
}

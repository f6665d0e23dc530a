//! What a check is made of.

use crate::exec::*;
use crate::scen::*;
use crate::simmodel::*;
use crate::sysim::DiskPlan;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum Case {
    /// one resolution
    Solve { sc: Scenario },
    /// one resolution with an enormous budget that cannot succeed
    Endless { sc: Scenario },
    /// one resolution with its log on a simulated disk; `before` are resolutions run first with the same solver
    Log {
        sc: Scenario,
        plan: DiskPlan,
        #[serde(default)]
        before: Vec<Vec<Fault>>,
    },
    Reuse(crate::reuse::ReuseCase),
    Inter(crate::inter::InterCase),
    Xml(crate::xml::XmlCase),
    Adapt(crate::adapt::AdaptCase),
    Header(crate::header::HeaderCase),
    /// one resolution configured in several ways
    Config { sc: Scenario, log: bool },
    Own(crate::own::OwnCase),
    Restart(crate::restart::RestartCase),
    Resource(crate::resource::ResourceCase),
}

#[derive(Default, Debug, Clone)]
pub struct Outcome {
    /// (class of violation, description)
    pub viol: Option<(String, String)>,
    /// (key, description) of divergences explained by a recorded finding
    pub known: Vec<(String, String)>,
    pub sig: u64,
    pub nontrivial: bool,
    pub counts: BTreeMap<String, u64>,
    pub digest: u64,
    pub trace: Vec<String>,
}
impl Outcome {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counts.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn fail(&mut self, code: &str, msg: String) {
        if self.viol.is_none() {
            self.viol = Some((code.to_string(), msg));
        }
    }
}

pub struct Check {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// a run that never ends breaks this property
    pub hang: bool,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub gen: fn(&str, u64, u64) -> Case,
    pub run: fn(&str, &Case) -> Outcome,
    pub shrink: fn(&Case) -> Vec<Case>,
}

pub fn shrink_solve(c: &Case) -> Vec<Case> {
    match c {
        Case::Solve { sc } => shrink_scenario(sc).into_iter().map(|sc| Case::Solve { sc }).collect(),
        Case::Endless { sc } => shrink_scenario(sc).into_iter().map(|sc| Case::Endless { sc }).collect(),
        _ => vec![],
    }
}

pub fn digest_solve(mut h: u64, s: &Solve) -> u64 {
    let mut put = |b: &[u8]| h = crate::rng::hash_bytes(h, b);
    for e in &s.hist {
        put(format!("{e:?}").as_bytes());
    }
    put(format!("{:?} {:?} {:?} {:?}", s.res, s.x, s.l, s.r).as_bytes());
    h
}

pub fn fault_name(k: &FaultKind) -> &'static str {
    match k {
        FaultKind::Inaccurate => "model:inaccurate",
        FaultKind::InaccurateBy(_) => "model:inaccurate-off",
        FaultKind::Off(_) => "model:values-off",
        FaultKind::Unusable => "model:unusable",
        FaultKind::UnusableNan => "model:unusable-nan",
        FaultKind::NanAt(_) => "model:nan",
        FaultKind::InfAt(_) => "model:infinite",
        FaultKind::HugeAt(_) => "model:huge",
        FaultKind::Stale => "model:stale",
        FaultKind::Members(..) => "model:special-members",
        FaultKind::Panic => "model:dies",
        FaultKind::JacNan(..) => "model:jac-nan",
        FaultKind::JacZeroRow(_) => "model:jac-singular",
    }
}
pub fn count_faults(o: &mut Outcome, sc: &Scenario, s: &Solve) {
    count_fired(o, &sc.faults, &s.fired);
}
pub fn count_fired(o: &mut Outcome, faults: &[Fault], fired: &[usize]) {
    for f in fired {
        let f = &faults[*f];
        let k = format!("fault {}{}", fault_name(&f.kind), if f.jac { " (jacobian)" } else { "" });
        o.count(&k, 1);
    }
}
pub fn count_disk(o: &mut Outcome, s: &Session) {
    o.count("fault disk:interrupted", s.fs.eintr);
    o.count("fault disk:short", s.fs.short);
    o.count("fault disk:error", s.fs.errors);
    o.count("fault disk:full", s.fs.enospc);
    o.count("disk operations", (s.fs.opens + s.fs.writes + s.fs.reads) as u64);
}

pub fn trace_of(s: &Solve) -> Vec<String> {
    let mut t: Vec<String> = s.hist.iter().map(show).collect();
    t.push(format!("returned {}", s.res.short()));
    if t.len() > 200 && std::env::var_os("NRFSIM_FULL").is_none() {
        let n = t.len();
        t.drain(100..n - 100);
        t.insert(100, "...".into());
    }
    t
}

pub fn scenario_sig(sc: &Scenario) -> String {
    format!(
        "{} n{} {} {} {:?} {}{}",
        METHODS[sc.method],
        sc.n(),
        if sc.provided_jac { "jac" } else { "fd" },
        if sc.damping { "damp" } else { "-" },
        sc.mem,
        sc.iters.iter().any(|p| p.step_abs.0.is_finite() || p.step_rel.0.is_finite()) as u8,
        sc.iters.iter().any(|p| p.min.0.is_finite() || p.max.0.is_finite()) as u8,
    )
}

pub fn all() -> Vec<Check> {
    let mut v = crate::core::checks();
    v.extend(crate::logchk::checks());
    v.extend(crate::reuse::checks());
    v.extend(crate::inter::checks());
    v.extend(crate::xml::checks());
    v.extend(crate::adapt::checks());
    v.extend(crate::header::checks());
    v.extend(crate::config::checks());
    v.extend(crate::own::checks());
    v.extend(crate::restart::checks());
    v.extend(crate::resource::checks());
    v
}
pub fn all_of(id: &str) -> Check {
    all().into_iter().find(|c| c.id == id).unwrap()
}

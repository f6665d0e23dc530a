//! C16: a configuration file is read exactly or refused.

use crate::check::*;
use crate::core::res_name;
use crate::exec::*;
use crate::problem::*;
use crate::rng::*;
use crate::scen::*;
use crate::simmodel::*;
use crate::sysim::*;
use newton_rootfinder as nrf;
use nrf::iteratives::{IterativeParams, IterativeParamsFD, Iteratives};
use nrf::residuals::{NormalizationMethod, ResidualsConfig};
use nrf::solver::SolverParameters;
use nrf::xml_parser::{from_xml_finite_diff, from_xml_jacobian};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Edit {
    /// the file ends after this many bytes (modulo its length)
    Truncate(usize),
    /// a line of the file is lost
    Lose(usize),
    /// a line of the file is repeated
    Repeat(usize),
    /// a line and the next are exchanged
    Swap(usize),
    /// a line is moved
    Move(usize, usize),
    /// the end of the file has its length but not its data, as after a crash
    Zero(usize),
    /// an invalid byte
    Garbage(usize),
    /// a value (the k-th attribute of the file) is replaced with nonsense
    Nonsense(usize, usize),
    /// the k-th attribute of the file is lost
    NoAttr(usize),
    /// the size of the problem says otherwise
    Size(usize),
    /// the k-th variable or residual has another identifier
    Id(usize, usize),
    /// the k-th element has another name
    Rename(usize),
    /// the sections are in another order (solver, iteratives, residuals)
    Sections(usize),
    /// the last variable, or the last residual, or both, are missing
    Last(usize),
    /// a variable, or a residual, or both, too many
    Extra(usize),
    /// a line and another at this distance are exchanged
    Exchange(usize, usize),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct XmlCase {
    pub sc: Scenario,
    /// values written on the parent nodes
    pub parent: IterP,
    pub parent_stop: Norm,
    pub parent_upd: Norm,
    /// read with the parser for finite differences
    pub fd: bool,
    /// the file has the attributes for finite differences
    pub fd_attrs: bool,
    /// formatting of the file
    pub layout: u64,
    pub edits: Vec<Edit>,
    pub disk: DiskPlan,
    /// the file is longer than one read
    pub padding: usize,
}

const NAMES: [&str; 10] = ["NR", "SN", "BROY1", "BROY1_INV", "BROY2", "BROY2_INV", "GRST1", "GRST1_INV", "GRST2", "GRST2_INV"];
const NONSENSE: [&str; 26] = ["True", "FALSE", "nr", "Broy1", "max", "ABS", "3abc", "7x", "1e", "1_000", "1,5", "0b1", "yes", "abs", "2;", "1e-6 1e-6", "", "-3 apples", "abc", "1e-6,", "0x10", "--1", "1.2.3", "true false", "Sum Max", "\u{221e}"];

struct Out {
    lines: Vec<String>,
    /// index of the first attribute of each element, attributes in order (element, name)
    attrs: Vec<(usize, String)>,
}

/// deterministic in (case without edits)
fn render(c: &XmlCase) -> Out {
    let mut r = Rng::new(c.layout);
    let plain = c.layout % 4 == 0;
    let quote = if !plain && r.chance(0.3) { "'" } else { "\"" };
    let omit = *r.pick(&[0.0, 0.6, 1.0]);
    let num = |r: &mut Rng, v: f64| -> String {
        if v.is_infinite() {
            return if v > 0.0 { "inf".into() } else { "-inf".into() };
        }
        match r.below(3) {
            0 => format!("{v}"),
            1 => format!("{v:e}"),
            _ => format!("{v:?}"),
        }
    };
    let mut attrs: Vec<(usize, String)> = vec![];
    let mut element = 0;
    let mut elem = |r: &mut Rng, name: &str, mut a: Vec<(String, String)>, end: &str| -> String {
        if !plain {
            for i in (1..a.len()).rev() {
                a.swap(i, r.below(i + 1));
            }
        }
        let mut s = format!("<{name}");
        for (k, v) in &a {
            s.push_str(if plain { " " } else { *r.pick(&[" ", "  ", " ", "\t"]) });
            s.push_str(&format!("{k}={quote}{v}{quote}"));
            attrs.push((element, k.clone()));
        }
        if !plain && end == "/>" && r.chance(0.2) {
            s.push_str(&format!("></{name}>"));
        } else {
            if !plain && r.chance(0.2) {
                s.push(' ');
            }
            s.push_str(end);
        }
        element += 1;
        s
    };
    let kv = |k: &str, v: String| (k.to_string(), v);
    let mut lines = vec![];
    if plain || r.chance(0.7) {
        lines.push("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\" ?>".to_string());
    }
    lines.push("<nrf>".into());
    let sc = &c.sc;
    let mut a = vec![
        kv("problem_size", sc.n().to_string()),
        kv("max_iter", sc.max_iter.to_string()),
        kv("tolerance", num(&mut r, sc.tol.0)),
        kv("resolution_method", NAMES[sc.method].into()),
    ];
    if sc.damping || r.chance(0.6) {
        a.push(kv("damping", sc.damping.to_string()));
    }
    lines.push(elem(&mut r, "solver", a, "/>"));
    let q = &c.parent;
    let fdm = |s: bool| if s { "Sum".to_string() } else { "Max".to_string() };
    let mut a = vec![
        kv("min_value", num(&mut r, q.min.0)),
        kv("max_value", num(&mut r, q.max.0)),
        kv("max_step_abs", num(&mut r, q.step_abs.0)),
        kv("max_step_rel", num(&mut r, q.step_rel.0)),
    ];
    if c.fd_attrs {
        a.push(kv("dx_abs", num(&mut r, q.dx_abs.0)));
        a.push(kv("dx_rel", num(&mut r, q.dx_rel.0)));
        a.push(kv("perturbation_method", fdm(q.sum)));
    }
    lines.push(elem(&mut r, "iteratives", a, ">"));
    for (i, p) in sc.iters.iter().enumerate() {
        let mut a = vec![kv("id", i.to_string())];
        let mut put = |r: &mut Rng, k: &str, v: f64, d: f64| {
            if v != d || !r.chance(omit) {
                let t = num(r, v);
                a.push(kv(k, t));
            }
        };
        put(&mut r, "min_value", p.min.0, q.min.0);
        put(&mut r, "max_value", p.max.0, q.max.0);
        put(&mut r, "max_step_abs", p.step_abs.0, q.step_abs.0);
        put(&mut r, "max_step_rel", p.step_rel.0, q.step_rel.0);
        if c.fd_attrs {
            put(&mut r, "dx_abs", p.dx_abs.0, q.dx_abs.0);
            put(&mut r, "dx_rel", p.dx_rel.0, q.dx_rel.0);
            if p.sum != q.sum || !r.chance(omit) {
                a.push(kv("perturbation_method", fdm(p.sum)));
            }
        }
        lines.push(elem(&mut r, "iterative", a, "/>"));
    }
    lines.push("</iteratives>".into());
    let a = vec![kv("stopping_criteria", c.parent_stop.name().into()), kv("update_method", c.parent_upd.name().into())];
    lines.push(elem(&mut r, "residuals", a, ">"));
    for i in 0..sc.n() {
        let mut a = vec![kv("id", i.to_string())];
        if sc.stop[i] != c.parent_stop || !r.chance(omit) {
            a.push(kv("stopping_criteria", sc.stop[i].name().into()));
        }
        if sc.upd[i] != c.parent_upd || !r.chance(omit) {
            a.push(kv("update_method", sc.upd[i].name().into()));
        }
        lines.push(elem(&mut r, "residual", a, "/>"));
    }
    lines.push("</residuals>".into());
    lines.push("</nrf>".into());
    Out { lines, attrs }
}

/// the text of the file; whether it still has a meaning; the configuration it means (a child that loses an
/// attribute takes its parent's value, a solver without damping has none)
pub fn text(c: &XmlCase) -> (Vec<u8>, bool, Scenario) {
    let out = render(c);
    let mut sc = c.sc.clone();
    let n = sc.n();
    let mut lines = out.lines;
    let mut meaning = true;
    let nl = if c.layout % 4 == 3 { "\r\n" } else { "\n" };
    let mut r = Rng::new(c.layout ^ 77);
    let indent = *r.pick(&["", "  ", "    ", "\t"]);
    // attribute edits
    for e in &c.edits {
        let (k, new) = match e {
            Edit::Nonsense(k, w) => (*k, Some(NONSENSE[*w % NONSENSE.len()])),
            Edit::NoAttr(k) => (*k, None),
            _ => continue,
        };
        let (el, name) = &out.attrs[k % out.attrs.len()];
        // attributes of finite differences say nothing to the other parser
        let ignored = !c.fd && ["dx_abs", "dx_rel", "perturbation_method"].contains(&name.as_str());
        let default = if ignored {
            true
        } else if new.is_some() {
            false
        } else if *el == 0 && name == "damping" {
            sc.damping = false;
            true
        } else if *el >= 2 && *el < 2 + n {
            let (q, p) = (&c.parent, &mut sc.iters[*el - 2]);
            match name.as_str() {
                "min_value" => p.min = q.min,
                "max_value" => p.max = q.max,
                "max_step_abs" => p.step_abs = q.step_abs,
                "max_step_rel" => p.step_rel = q.step_rel,
                "dx_abs" => p.dx_abs = q.dx_abs,
                "dx_rel" => p.dx_rel = q.dx_rel,
                "perturbation_method" => p.sum = q.sum,
                _ => (),
            }
            name != "id"
        } else if *el > 2 + n {
            match name.as_str() {
                "stopping_criteria" => sc.stop[*el - 3 - n] = c.parent_stop,
                "update_method" => sc.upd[*el - 3 - n] = c.parent_upd,
                _ => (),
            }
            name != "id"
        } else {
            false
        };
        if !default {
            meaning = false;
        }
        // line of the element
        let mut seen = 0;
        for l in lines.iter_mut() {
            if l.starts_with("</") || l.starts_with("<?") || l.starts_with("<nrf") {
                continue;
            }
            if seen == *el {
                let pat = format!("{name}=");
                // the name must stand alone (id is also the end of no other name here)
                if let Some(a) = l.match_indices(&pat).map(|m| m.0).find(|a| l.as_bytes()[a - 1].is_ascii_whitespace()) {
                    let q = l.as_bytes()[a + pat.len()] as char;
                    let b = a + pat.len() + 1;
                    let end = b + l[b..].find(q).unwrap();
                    match new {
                        Some(v) => l.replace_range(b..end, v),
                        None => l.replace_range(a..end + 1, ""),
                    }
                }
                break;
            }
            seen += 1;
        }
    }
    for e in &c.edits {
        // structure: what it means is nothing, whatever the rest
        let child: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].starts_with("<iterative ") || lines[*i].starts_with("<iterative\t") || lines[*i].starts_with("<residual ") || lines[*i].starts_with("<residual\t")).collect();
        let replace = |l: &mut String, name: &str, f: &dyn Fn(&str) -> String| {
            let pat = format!("{name}=");
            if let Some(a) = l.match_indices(&pat).map(|m| m.0).find(|a| l.as_bytes()[a - 1].is_ascii_whitespace()) {
                let q = l.as_bytes()[a + pat.len()] as char;
                let b = a + pat.len() + 1;
                let end = b + l[b..].find(q).unwrap();
                let v = f(&l[b..end]);
                let changed = v != l[b..end];
                l.replace_range(b..end, &v);
                return changed;
            }
            false
        };
        match e {
            Edit::Size(k) => {
                if let Some(l) = lines.iter_mut().find(|l| l.starts_with("<solver")) {
                    if replace(l, "problem_size", &|_| (k % 9).to_string()) {
                        meaning = false;
                    }
                }
            }
            Edit::Id(k, v) if !child.is_empty() => {
                let far = [8, 10, 16, 100, 256, 65536, 4294967296usize];
                let to = |old: &str| match (v.checked_sub(9), old.parse::<usize>()) {
                    (Some(d), Ok(old)) if d % 14 < 7 => (old + far[d % 7]).to_string(),
                    (Some(d), Ok(old)) => old.saturating_sub(far[d % 7]).to_string(),
                    _ => (v % 9).to_string(),
                };
                if replace(&mut lines[child[k % child.len()]], "id", &to) {
                    meaning = false;
                }
            }
            Edit::Rename(k) if !lines.is_empty() => {
                // both tags of the element
                let name = *["nrf", "solver", "iteratives", "iterative", "residuals", "residual"].get(k % 6).unwrap();
                let nth = k / 6;
                let new = ["config", "iteratives", "residuals", "solver", "Nrf", "residual", "iterative"][k / 17 % 7];
                if new != name {
                    let mut hit = 0;
                    for l in lines.iter_mut() {
                        for (open, to) in [(format!("<{name}"), format!("<{new}")), (format!("</{name}>"), format!("</{new}>"))] {
                            if let Some(a) = l.find(&open) {
                                let next = l.as_bytes().get(a + open.len()).copied().unwrap_or(b' ');
                                if open.ends_with('>') || !next.is_ascii_alphanumeric() {
                                    // every child of that name, or one of them
                                    let one = name == "iterative" || name == "residual";
                                    if !one || hit / 2 == nth % n || nth % 5 == 0 {
                                        l.replace_range(a..a + open.len(), &to);
                                        meaning = false;
                                    }
                                    if one {
                                        hit += if l.ends_with("/>") { 2 } else { 1 };
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Edit::Sections(k) => {
                let f = |p: &str| lines.iter().position(|l| l.starts_with(p));
                if let (Some(a), Some(b), Some(c), Some(d)) = (f("<solver"), f("<iteratives"), f("<residuals"), f("</nrf")) {
                    if a < b && b < c && c < d {
                        let s: [Vec<String>; 3] = [lines[a..b].to_vec(), lines[b..c].to_vec(), lines[c..d].to_vec()];
                        let perm = [[0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][k % 5];
                        let new: Vec<String> = perm.iter().flat_map(|i| s[*i].clone()).collect();
                        lines.splice(a..d, new);
                        meaning = false;
                    }
                }
            }
            Edit::Extra(k) => {
                for (bit, end, name) in [(1, "</iteratives", "iterative"), (2, "</residuals", "residual")] {
                    if (k % 3 + 1) & bit != 0 {
                        if let Some(a) = lines.iter().position(|l| l.starts_with(end)) {
                            for i in 0..1 + k / 3 {
                                lines.insert(a + i, format!("<{name} id=\"{}\"/>", n + i));
                            }
                            meaning = false;
                        }
                    }
                }
            }
            Edit::Last(k) => {
                for (bit, end) in [(1, "</iteratives"), (2, "</residuals")] {
                    if (k % 3 + 1) & bit != 0 {
                        if let Some(a) = lines.iter().position(|l| l.starts_with(end)) {
                            if a > 0 && !lines[a - 1].starts_with("<iteratives") && !lines[a - 1].starts_with("<residuals") {
                                lines.remove(a - 1);
                                meaning = false;
                            }
                        }
                    }
                }
            }
            _ => (),
        }
    }
    for e in &c.edits {
        let n = lines.len();
        match e {
            Edit::Lose(k) => {
                lines.remove(k % n);
            }
            Edit::Repeat(k) => {
                let l = lines[k % n].clone();
                lines.insert(k % n, l);
            }
            Edit::Swap(k) => {
                let a = k % n;
                let b = (a + 1) % n;
                lines.swap(a, b);
            }
            Edit::Exchange(k, d) => {
                let a = k % n;
                let b = (a + d) % n;
                lines.swap(a, b);
            }
            Edit::Move(k, t) => {
                let l = lines.remove(k % n);
                let t = t % n;
                lines.insert(t.min(lines.len()), l);
            }
            _ => (),
        }
        if lines.is_empty() {
            break;
        }
    }
    let mut s = String::new();
    let mut depth = 0usize;
    for (i, l) in lines.iter().enumerate() {
        if l.starts_with("</") {
            depth = depth.saturating_sub(1);
        }
        s.push_str(&indent.repeat(depth));
        s.push_str(l);
        s.push_str(nl);
        if i == 1 && c.padding > 0 {
            s.push_str(&" ".repeat(c.padding));
            s.push_str(nl);
        }
        if !l.starts_with("</") && !l.starts_with("<?") && !l.ends_with("/>") && !l.contains("></") {
            depth += 1;
        }
    }
    let mut b = s.into_bytes();
    for e in &c.edits {
        let n = b.len().max(1);
        match e {
            Edit::Truncate(k) => b.truncate(k % n),
            Edit::Zero(k) => {
                let a = k % n;
                b[a..].iter_mut().for_each(|v| *v = 0);
            }
            Edit::Garbage(k) => {
                let a = k % n;
                if a < b.len() {
                    b[a] = 0xff;
                }
                meaning = false;
            }
            _ => (),
        }
    }
    (b, meaning, sc)
}

pub struct Read {
    p: SolverParameters,
    fd: Option<Vec<IterativeParamsFD>>,
    plain: Option<Vec<IterativeParams>>,
    stop: Vec<NormalizationMethod>,
    upd: Vec<NormalizationMethod>,
}
pub fn read(fd: bool) -> Result<Read, Res> {
    guarded(|| {
        if fd {
            let (p, i, stop, upd) = from_xml_finite_diff(PATH);
            Read { p, fd: Some(i), plain: None, stop, upd }
        } else {
            let (p, i, stop, upd) = from_xml_jacobian(PATH);
            Read { p, fd: None, plain: Some(i), stop, upd }
        }
    })
}
pub const PATH: &str = "/sim/config.xml";

fn differs(sc: &Scenario, d: &Read) -> Option<String> {
    let p = &d.p;
    let want = (sc.n(), sc.tol.0, sc.max_iter, method_of(sc.method), sc.damping);
    let got = (p.get_problem_size(), p.get_tolerance(), p.get_max_iter(), p.get_resolution_method(), p.get_damping());
    if want != got {
        return Some(format!("solver parameters {got:?} instead of {want:?}"));
    }
    if let Some(v) = &d.fd {
        let w: Vec<IterativeParamsFD> = sc.iters.iter().map(|p| p.fd()).collect();
        if *v != w {
            return Some(format!("variables {v:?} instead of {w:?}"));
        }
    }
    if let Some(v) = &d.plain {
        let w: Vec<IterativeParams> = sc.iters.iter().map(|p| p.plain()).collect();
        if *v != w {
            return Some(format!("variables {v:?} instead of {w:?}"));
        }
    }
    let w: Vec<NormalizationMethod> = sc.stop.iter().map(|n| n.real()).collect();
    if d.stop != w {
        return Some(format!("stopping criteria {:?} instead of {w:?}", d.stop));
    }
    let w: Vec<NormalizationMethod> = sc.upd.iter().map(|n| n.real()).collect();
    if d.upd != w {
        return Some(format!("update methods {:?} instead of {w:?}", d.upd));
    }
    None
}

fn run(_: &str, c: &Case) -> Outcome {
    let c = match c {
        Case::Xml(c) => c,
        _ => unreachable!(),
    };
    let mut o = Outcome::default();
    let (bytes, mut meaning, sc) = text(c);
    let sc = &sc;
    if c.fd && !c.fd_attrs {
        meaning = false;
    }
    let hard = c.disk.faults.iter().any(|f| matches!(f.kind, DiskFaultKind::Err(_) | DiskFaultKind::ErrForever(_)));
    let intact = c.edits.is_empty() && meaning;
    let w = new_world(c.disk.clone(), None);
    lock(&w).put(PATH, &bytes);
    let (first, second) = {
        let _g = enter(&w);
        let a = read(c.fd);
        (a, if hard { None } else { Some(read(c.fd)) })
    };
    let st = lock(&w).stats.clone();
    o.count("fault disk:interrupted", st.eintr);
    o.count("fault disk:short", st.short);
    o.count("fault disk:error", st.errors);
    o.count("disk operations", (st.opens + st.reads) as u64);
    for e in &c.edits {
        let k = match e {
            Edit::Truncate(_) => "truncated",
            Edit::Lose(_) => "line lost",
            Edit::Repeat(_) => "line repeated",
            Edit::Swap(_) => "lines swapped",
            Edit::Move(..) => "line moved",
            Edit::Zero(_) => "end zeroed",
            Edit::Garbage(_) => "garbage byte",
            Edit::Nonsense(..) => "nonsense value",
            Edit::NoAttr(_) => "attribute lost",
            Edit::Size(_) => "other size",
            Edit::Id(..) => "other identifier",
            Edit::Rename(_) => "element renamed",
            Edit::Sections(_) => "sections reordered",
            Edit::Last(_) => "last item missing",
            Edit::Extra(_) => "items too many",
            Edit::Exchange(..) => "lines exchanged",
        };
        o.count(&format!("fault file:{k}"), 1);
    }
    o.trace = String::from_utf8_lossy(&bytes).lines().map(|l| l.chars().take(300).collect()).collect();
    o.nontrivial = !c.edits.is_empty() || st.eintr + st.short + st.errors > 0 || c.layout % 4 != 0;
    o.sig = hash_bytes(hash_bytes(16, &bytes), format!("{} {:?}", c.fd, c.disk).as_bytes());
    o.digest = hash_bytes(o.sig, format!("{:?}", first.as_ref().map(|d| differs(sc, d)).map_err(|e| e.kind())).as_bytes());
    for (d, which) in [(Some(first), "file"), (second, "file read again")] {
        let Some(d) = d else { continue };
        match d {
            Err(Res::Panic(m)) => {
                o.count("files refused", 1);
                if intact && st.errors == 0 {
                    o.fail("refused", format!("{which}: an intact file is refused: {m}"));
                }
            }
            Err(e) => o.fail("refused", format!("{which}: {e:?}")),
            Ok(d) => {
                o.count("files accepted", 1);
                if st.errors > 0 && which == "file" {
                    o.fail("error-ignored", "a reading error is ignored".to_string());
                }
                if let Some(m) = differs(sc, &d) {
                    o.fail("other-configuration", format!("{which}: {m}"));
                } else if !meaning {
                    o.fail("nonsense-accepted", format!("{which}: a file with a meaningless or missing value, or invalid bytes, is accepted"));
                } else if which == "file" && sc.max_iter <= 30 {
                    end_to_end(&mut o, sc, d);
                }
            }
        }
    }
    o
}

fn end_to_end(o: &mut Outcome, sc: &Scenario, d: Read) {
    // by hand, with the same kind of parameters
    let mut hand = sc.clone();
    hand.fd_params = d.fd.is_some();
    if !hand.fd_params {
        hand.provided_jac = true;
    }
    let by_hand = run_plain(&hand);
    let rc = ResidualsConfig::new(&d.stop, &d.upd);
    let p = RefCell::new(Some(d.p));
    let opts = Opts { faults: vec![&hand.faults], params: Some(&p), ..Default::default() };
    let ses = if let Some(v) = &d.fd {
        dispatch(&hand, &Iteratives::new(v), &rc, &opts, &NoHook)
    } else {
        dispatch(&hand, &Iteratives::new(d.plain.as_ref().unwrap()), &rc, &opts, &NoHook)
    };
    match (ses.solves.first(), by_hand.solves.first()) {
        (Some(a), Some(b)) => {
            o.count("resolutions compared", 1);
            o.count("model calls", calls(&a.hist).len() as u64);
            o.count(&format!("ended {}", res_name(&a.res)), 1);
            if let Some(m) = first_diff(&a.hist, &b.hist) {
                o.fail("course", format!("configured from the file / by hand: {m}"));
            } else if a.res != b.res && !matches!((&a.res, &b.res), (Res::Panic(_), Res::Panic(_))) {
                o.fail("result", format!("{} configured from the file, {} by hand", a.res.short(), b.res.short()));
            }
        }
        (None, None) => (),
        _ => o.fail("setup", format!("{:?} / {:?}", ses.setup, by_hand.setup)),
    }
}

fn gen(_: &str, seed: u64, idx: u64) -> Case {
    let mut r = Rng::from_parts(seed, "C16", idx);
    let m = Mix { max_iter: (0, 12), max_n: 6, limits: 0.7, norms: 0.8, nr_weight: 1.0, wide: 0.05, ..Mix::default() };
    let mut sc = gen_scenario(&mut r, &m);
    sc.max_iter = if r.chance(0.2) { *r.pick(&[0, 1, 1000, 60, 4294967296]) } else { sc.max_iter };
    if r.chance(0.004) {
        // a large file; it is read, not solved
        let (n, k) = (r.range(200, 320), sc.n());
        for i in k..n {
            sc.x0.push(sc.x0[i % k]);
            sc.iters.push(sc.iters[i % k].clone());
            sc.stop.push(*r.pick(&[Norm::Abs, Norm::Rel, Norm::Adapt]));
            sc.upd.push(*r.pick(&[Norm::Abs, Norm::Rel, Norm::Adapt]));
            sc.problem.eqs.push(sc.problem.eqs[i % k].clone());
        }
        sc.problem.n = n;
        sc.fixed = false;
        sc.max_iter = 60;
    }
    if r.chance(0.3) {
        sc.tol = F(r.log10(-15.0, 1.0));
    }
    // the parent's values, and children that share some of them
    let mut parent = if r.chance(0.5) { sc.iters[r.below(sc.n())].clone() } else { gen_scenario(&mut r, &m).iters[0].clone() };
    if r.chance(0.2) {
        parent = IterP::free();
    }
    for p in sc.iters.iter_mut() {
        let old = p.clone();
        if r.chance(0.5) {
            p.step_abs = parent.step_abs;
        }
        if r.chance(0.5) {
            p.step_rel = parent.step_rel;
        }
        if r.chance(0.5) {
            p.min = parent.min;
        }
        if r.chance(0.5) {
            p.max = parent.max;
        }
        if !(p.min.0 < p.max.0) {
            p.min = old.min;
            p.max = old.max;
        }
        if r.chance(0.5) {
            p.dx_abs = parent.dx_abs;
        }
        if r.chance(0.5) {
            p.dx_rel = parent.dx_rel;
        }
        if r.chance(0.5) {
            p.sum = parent.sum;
        }
    }
    let norms = [Norm::Abs, Norm::Rel, Norm::Adapt];
    let (parent_stop, parent_upd) = (*r.pick(&norms), *r.pick(&norms));
    for i in 0..sc.n() {
        if r.chance(0.4) {
            sc.stop[i] = parent_stop;
        }
        if r.chance(0.4) {
            sc.upd[i] = parent_upd;
        }
    }
    let fd = r.chance(0.6);
    let fd_attrs = if fd { !r.chance(0.03) } else { r.chance(0.2) };
    let mut edits = vec![];
    let mut disk = DiskPlan::default();
    let big = r.next() as usize % 1_000_000;
    match r.weighted(&[2.5, 1.5, 2.0, 1.5, 0.5, 2.0, 1.5, 2.0]) {
        0 => (),
        1 => edits.push(Edit::Truncate(big)),
        2 => {
            for _ in 0..1 + r.weighted(&[4.0, 2.0, 1.0]) {
                let k = r.below(64);
                edits.push(match r.below(5) {
                    4 => Edit::Exchange(k, *r.pick(&[2, 3, 4, 5, 8, 10, 16])),
                    0 => Edit::Lose(k),
                    1 => Edit::Repeat(k),
                    2 => Edit::Swap(k),
                    _ => Edit::Move(k, r.below(64)),
                });
            }
        }
        3 => edits.push(if r.chance(0.6) { Edit::Nonsense(r.below(200), r.below(NONSENSE.len())) } else { Edit::NoAttr(r.below(200)) }),
        4 => edits.push(if r.chance(0.5) { Edit::Zero(big) } else { Edit::Garbage(big) }),
        5 => {
            for _ in 0..1 + r.below(8) {
                let (class, kind) = if r.chance(0.2) {
                    (OpClass::Open, DiskFaultKind::Eintr(1 + r.below(3) as u32))
                } else if r.chance(0.4) {
                    (OpClass::Read, DiskFaultKind::Eintr(1 + r.below(3) as u32))
                } else {
                    (OpClass::Read, DiskFaultKind::Short(1 + r.below(200)))
                };
                disk.faults.push(DiskFault { class, at: r.below(8), kind });
            }
            if r.chance(0.2) {
                for at in 0..600 {
                    disk.faults.push(DiskFault { class: OpClass::Read, at, kind: DiskFaultKind::Short(1 + r.below(13)) });
                }
            }
        }
        7 => edits.push(match r.below(6) {
            0 => Edit::Size(r.below(9)),
            5 => Edit::Extra(r.below(9)),
            1 => Edit::Id(r.below(64), r.below(24)),
            2 => Edit::Rename(r.below(6 * 7 * 17)),
            3 => Edit::Sections(r.below(5)),
            _ => Edit::Last(r.below(3)),
        }),
        _ => {
            let (class, e) = if r.chance(0.3) {
                (OpClass::Open, *r.pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO]))
            } else {
                (OpClass::Read, *r.pick(&[libc::EIO, libc::EISDIR, libc::ESTALE]))
            };
            let at = if class == OpClass::Open { 0 } else { r.below(3) };
            if class == OpClass::Read && at > 0 {
                for k in 0..at {
                    disk.faults.push(DiskFault { class, at: k, kind: DiskFaultKind::Short(1 + r.below(900)) });
                }
            }
            disk.faults.push(DiskFault { class, at, kind: DiskFaultKind::Err(e) });
        }
    }
    let layout = r.next();
    let padding = if r.chance(0.002) { 60_000 + r.below(80_000) } else if r.chance(0.15) { r.below(9000) } else { 0 };
    Case::Xml(XmlCase { sc, parent, parent_stop, parent_upd, fd, fd_attrs, layout, edits, disk, padding })
}

fn shrink(c: &Case) -> Vec<Case> {
    let c = match c {
        Case::Xml(c) => c,
        _ => return vec![],
    };
    let mut v = vec![];
    let mut push = |c: XmlCase| v.push(Case::Xml(c));
    for i in 0..c.edits.len() {
        let mut d = c.clone();
        d.edits.remove(i);
        push(d);
    }
    let f = c.disk.faults.len();
    if f > 0 {
        push(XmlCase { disk: DiskPlan { faults: c.disk.faults[..f / 2].to_vec(), ..c.disk.clone() }, ..c.clone() });
        for i in 0..f.min(10) {
            let mut d = c.clone();
            d.disk.faults.remove(i);
            push(d);
        }
    }
    if c.padding > 0 {
        push(XmlCase { padding: 0, ..c.clone() });
    }
    if c.layout != 0 {
        push(XmlCase { layout: 0, ..c.clone() });
    }
    if c.parent != IterP::free() {
        push(XmlCase { parent: IterP::free(), ..c.clone() });
    }
    for sc in shrink_scenario(&c.sc) {
        push(XmlCase { sc, ..c.clone() });
    }
    v
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C16",
        quick: 300_000,
        thorough: 4_000_000,
        hang: true,
        rule: "generated configuration written in a generated layout, then left intact, truncated, with lines lost, repeated, swapped or moved, bytes zeroed or made invalid, values made meaningless or removed, or read from a disk with short, interrupted or failing reads; what is read is compared with the intended configuration, and accepted files with a resolution configured by hand; non-trivial: a fault, an edit, or a layout other than the documented one",
        real: "from_xml_finite_diff, from_xml_jacobian, minidom, std::fs up to the libc calls, RootFinder",
        stub: "the disk behind open/read/stat (in memory, with faults); the user's model in the end-to-end comparison",
        gen,
        run,
        shrink,
    }]
}

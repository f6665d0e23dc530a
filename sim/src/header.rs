//! C18: the log header records the environment without depending on it.
//! Needs the crate's `additional_log_info` feature (feature `info` here).

use crate::check::*;
use crate::core::res_name;
use crate::exec::*;
use crate::rng::*;
use crate::scen::*;
use crate::simmodel::*;
use crate::sysim::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Zone {
    /// no TZ, no /etc/localtime
    Nothing,
    /// TZ is this text; the offset it means in seconds, when it means one
    Tz(String, Option<i64>),
    /// TZ with summer time: standard offset, summer offset, (month, week, day, time) of the changes
    Summer(String, i64, i64, [i64; 4], [i64; 4]),
    /// /etc/localtime holds a zone with transitions: first offset, then (since, offset)
    Localtime(i64, Vec<(i64, i64)>),
    /// a zone named by TZ, in the zone directory
    Named(String, i64, Vec<(i64, i64)>),
    /// named by /etc/timezone or by the link /etc/localtime
    Fallback(bool, String, i64),
    /// /etc/localtime damaged: cut, or with a byte changed
    Damaged(i64, Vec<(i64, i64)>, usize, Option<u8>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FileState {
    Good(String),
    Missing,
    OpenFails(i32),
    ReadFails(i32),
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct HeaderCase {
    pub sc: Scenario,
    pub clock: ClockPlan,
    pub zone: Zone,
    pub os_release: FileState,
    pub machine_info: FileState,
    pub hostname: Result<String, i32>,
    pub username: Result<String, i32>,
    pub disk: DiskPlan,
}

/// a version-2 TZif file
fn tzif(first: i64, tr: &[(i64, i64)]) -> Vec<u8> {
    let mut out = vec![];
    for v2 in [false, true] {
        let tr: &[(i64, i64)] = if v2 { tr } else { &[] };
        let mut offs: Vec<i64> = vec![first];
        offs.extend(tr.iter().map(|t| t.1));
        out.extend(b"TZif2");
        out.extend([0u8; 15]);
        let names = b"SIM\0";
        for n in [0, 0, 0, tr.len(), offs.len(), names.len()] {
            out.extend((n as u32).to_be_bytes());
        }
        for t in tr {
            out.extend(t.0.to_be_bytes());
        }
        for i in 0..tr.len() {
            out.push(i as u8 + 1);
        }
        for o in &offs {
            out.extend((*o as i32).to_be_bytes());
            out.extend([0, 0]);
        }
        out.extend(names);
    }
    let last = tr.last().map(|t| t.1).unwrap_or(first);
    out.extend(format!("\n<SIM>{}{:02}:{:02}\n", if last > 0 { "-" } else { "" }, last.abs() / 3600, last.abs() / 60 % 60).as_bytes());
    out
}

fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn year_of(t: i64) -> i64 {
    let mut y = 1970 + t.div_euclid(31_556_952);
    while days(y + 1, 1, 1) * 86400 <= t {
        y += 1;
    }
    while days(y, 1, 1) * 86400 > t {
        y -= 1;
    }
    y
}
/// local time (seconds) of the change described by a rule "Mm.w.d/time"
fn change(y: i64, r: &[i64; 4]) -> i64 {
    let first = days(y, r[0], 1);
    let wd = (first + 4).rem_euclid(7);
    let mut d = first + (r[2] - wd).rem_euclid(7) + 7 * (r[1] - 1);
    let end = if r[0] == 12 { days(y + 1, 1, 1) } else { days(y, r[0] + 1, 1) };
    while d >= end {
        d -= 7;
    }
    d * 86400 + r[3]
}
fn offset_at(z: &Zone, t: i64) -> Option<i64> {
    let step = |first: i64, tr: &[(i64, i64)]| tr.iter().rev().find(|x| x.0 <= t).map(|x| x.1).unwrap_or(first);
    match z {
        Zone::Tz(_, o) => *o,
        Zone::Summer(_, std, dst, a, b) => {
            // summer time holds from change a (in standard time) to change b (in summer time)
            let y = year_of(t + std);
            let mut summer = false;
            for y in y - 1..=y + 1 {
                let from = change(y, a) - std;
                let end_year = if change(y, b) < change(y, a) { y + 1 } else { y };
                let to = change(end_year, b) - dst;
                if t >= from && t < to {
                    summer = true;
                }
            }
            Some(if summer { *dst } else { *std })
        }
        Zone::Localtime(f, tr) | Zone::Named(_, f, tr) => Some(step(*f, tr)),
        Zone::Fallback(_, _, o) => Some(*o),
        Zone::Nothing => Some(0),
        Zone::Damaged(..) => None,
    }
}

fn set_zone(w: &mut World, z: &Zone) {
    w.set_env("TZ", None);
    match z {
        Zone::Nothing => (),
        Zone::Tz(s, _) | Zone::Summer(s, ..) => w.set_env("TZ", Some(s)),
        Zone::Localtime(f, tr) => w.put("/etc/localtime", &tzif(*f, tr)),
        Zone::Named(name, f, tr) => {
            w.set_env("TZ", Some(name));
            w.put(&format!("/usr/share/zoneinfo/{}", name.trim_start_matches(':')), &tzif(*f, tr));
        }
        Zone::Fallback(link, name, o) => {
            w.put(&format!("/usr/share/zoneinfo/{name}"), &tzif(*o, &[]));
            if *link {
                w.link("/etc/localtime", &format!("/usr/share/zoneinfo/{name}"));
            } else {
                w.put("/etc/timezone", format!("{name}\n").as_bytes());
            }
        }
        Zone::Damaged(f, tr, at, b) => {
            let mut d = tzif(*f, tr);
            match b {
                Some(b) => {
                    let i = at % d.len();
                    d[i] = *b;
                }
                None => d.truncate(at % d.len()),
            }
            w.put("/etc/localtime", &d);
        }
    }
}

fn put_file(w: &mut World, path: &str, f: &FileState) {
    match f {
        FileState::Good(s) => w.put(path, s.as_bytes()),
        FileState::Missing => (),
        FileState::OpenFails(e) => {
            w.put(path, b"NAME=x\n");
            w.host_faults.push((path.into(), Some(*e), None));
        }
        FileState::ReadFails(e) => {
            w.put(path, b"NAME=x\n");
            w.host_faults.push((path.into(), None, Some(*e)));
        }
        FileState::Bytes(b) => w.put(path, b),
    }
}

/// chrono keeps the time zone per thread
fn in_new_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| s.spawn(f).join().unwrap())
}

/// seconds since the epoch and offset of an RFC 2822 date
fn rfc2822(s: &str) -> Option<(i64, i64)> {
    let s = s.trim();
    let s = s.split_once(", ").map(|x| x.1).unwrap_or(s);
    let p: Vec<&str> = s.split_whitespace().collect();
    if p.len() != 5 {
        return None;
    }
    let d: i64 = p[0].parse().ok()?;
    let m = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"].iter().position(|x| *x == p[1])? as i64 + 1;
    let y: i64 = p[2].parse().ok()?;
    let t: Vec<i64> = p[3].split(':').map(|v| v.parse().ok()).collect::<Option<_>>()?;
    if t.len() != 3 || p[4].len() != 5 {
        return None;
    }
    let sign = if p[4].starts_with('-') { -1 } else { 1 };
    let off = sign * (p[4][1..3].parse::<i64>().ok()? * 3600 + p[4][3..5].parse::<i64>().ok()? * 60);
    Some((days(y, m, d) * 86400 + t[0] * 3600 + t[1] * 60 + t[2] - off, off))
}

/// end of the header in the log
fn header_end(log: &[u8]) -> Option<usize> {
    let find = |from: usize, pat: &[u8]| log[from..].windows(pat.len()).position(|w| w == pat).map(|p| p + from);
    let a = find(0, b"- Local: ").or_else(|| find(0, b"newton_rootfinder version"))?;
    find(a, b"\n\n").map(|p| p + 2)
}

fn run(_: &str, c: &Case) -> Outcome {
    let c = match c {
        Case::Header(c) => c,
        _ => unreachable!(),
    };
    let mut o = Outcome::default();
    let sc = &c.sc;
    let world = |faulty: bool| {
        let w = new_world(if faulty { c.disk.clone() } else { DiskPlan::default() }, None);
        {
            let mut g = lock(&w);
            g.set_host();
            if faulty {
                g.set_clock(c.clock.clone());
                set_zone(&mut g, &c.zone);
                put_file(&mut g, "/etc/os-release", &c.os_release);
                put_file(&mut g, "/etc/machine-info", &c.machine_info);
                g.hostname = c.hostname.clone();
                g.username = c.username.clone();
            } else {
                g.set_clock(ClockPlan { start_ns: 1_700_000_000_000_000_000, step_ns: 0, jumps: vec![] });
                g.set_env("TZ", Some(""));
                g.put("/etc/os-release", b"PRETTY_NAME=\"Sim OS\"\n");
            }
        }
        w
    };
    let (w, q) = (world(true), world(false));
    let go = |w: &Handle| {
        let w = w.clone();
        in_new_thread(move || run_session(sc, &Opts { faults: vec![&sc.faults], world: Some(w), log: true, ..Default::default() }))
    };
    let ses = go(&w);
    let calm = go(&q);
    let w = lock(&w);
    count_disk(&mut o, &ses);
    o.count("fault system file", w.host_fired);
    o.count("fault clock jump", c.clock.jumps.iter().filter(|j| j.0 < w.clock_values.len()).count() as u64);
    o.count("system files opened", w.host_seen);
    o.count("clock readings", w.clock_values.len() as u64);
    o.count("simulated seconds", (w.clock_values.iter().max().unwrap_or(&0) - w.clock_values.iter().min().unwrap_or(&0)) as u64 / 1_000_000_000);
    let file = |f: &FileState| match f {
        FileState::Good(_) => 0,
        FileState::Missing => 1,
        FileState::OpenFails(_) => 2,
        FileState::ReadFails(_) => 3,
        FileState::Bytes(_) => 4,
    };
    let zone = match &c.zone {
        Zone::Nothing => 0,
        Zone::Tz(_, Some(_)) => 1,
        Zone::Tz(_, None) => 2,
        Zone::Summer(..) => 3,
        Zone::Localtime(..) => 4,
        Zone::Named(..) => 5,
        Zone::Fallback(..) => 6,
        Zone::Damaged(..) => 7,
    };
    for (f, name) in [(&c.os_release, "os-release"), (&c.machine_info, "machine-info")] {
        if let Some(s) = [None, Some("missing"), Some("cannot be opened"), Some("cannot be read"), Some("garbled")][file(f)] {
            o.count(&format!("fault {name} {s}"), 1);
        }
    }
    if zone == 0 || zone == 2 || zone == 7 {
        o.count("fault time zone unknown or damaged", 1);
    }
    o.count("fault hostname unavailable", c.hostname.is_err() as u64);
    o.count("fault username unavailable", c.username.is_err() as u64);
    o.nontrivial = w.host_fired > 0 || file(&c.os_release) + file(&c.machine_info) > 0 || zone != 1 || !c.clock.jumps.is_empty();
    let log = &ses.log;
    let head_end = header_end(log);
    let head = String::from_utf8_lossy(&log[..head_end.unwrap_or(log.len().min(800))]).into_owned();
    o.trace = head.lines().map(|l| l.to_string()).collect();
    if let Some(s) = ses.solves.first() {
        o.count("model calls", calls(&s.hist).len() as u64);
        o.count(&format!("ended {}", res_name(&s.res)), 1);
        o.digest = digest_solve(0, s);
    }
    o.digest = hash_bytes(o.digest, log);
    o.sig = hash_bytes(
        18,
        format!("{zone} {} {} {} {} {} {}", file(&c.os_release), file(&c.machine_info), c.hostname.is_err(), c.username.is_err(), c.clock.jumps.len(), w.clock_values.first().unwrap_or(&0) / 3_600_000_000_000).as_bytes(),
    );
    if let (Some(Res::Panic(m)), FileState::Bytes(b)) = (&ses.setup, &c.machine_info) {
        let v = b.split(|x| *x == b'\n').find_map(|l| l.strip_prefix(b"PRETTY_HOSTNAME=")).unwrap_or(b"");
        let v = v.split(|x| *x == b'=').next().unwrap_or(b"");
        if v == b"\"" && m.contains("whoami") {
            o.known.push(("lone-quote".into(), format!("activate_debug panics on /etc/machine-info with a lone quote: {m}")));
            return o;
        }
    }
    if let (Some(Res::Panic(m)), Zone::Damaged(..)) = (&ses.setup, &c.zone) {
        if m.contains("/chrono-") {
            o.known.push(("damaged-zone".into(), format!("activate_debug panics on a damaged /etc/localtime: {m}")));
            return o;
        }
    }
    if let Some(e) = &ses.setup {
        if calm.setup.is_none() {
            o.fail("activation", format!("the log cannot be activated: {}", e.short()));
        }
        return o;
    }
    // the resolution and the rest of the log
    let (a, b) = (ses.one(), calm.one());
    if let Some(d) = first_diff(&a.hist, &b.hist) {
        o.fail("course", format!("with the disturbed / the quiet system: {d}"));
    } else if a.res != b.res && !matches!((&a.res, &b.res), (Res::Panic(_), Res::Panic(_))) {
        o.fail("result", format!("{} with the disturbed system, {} with the quiet one", a.res.short(), b.res.short()));
    }
    match (head_end, header_end(&calm.log)) {
        (Some(p), Some(q)) => {
            let (p, q) = (&log[p..], &calm.log[q..]);
            if p != q {
                let i = p.iter().zip(q).take_while(|(a, b)| a == b).count();
                let show = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20).min(v.len())..(i + 60).min(v.len())]).into_owned();
                o.fail("rest", format!("the rest of the log differs: {:?} with the disturbed system, {:?} with the quiet one", show(p), show(q)));
            }
        }
        _ => {
            o.fail("header", format!("no header in the log: {head:?}"));
            return o;
        }
    }
    // the header
    let line = |p: &str| head.lines().find_map(|l| l.trim_start().strip_prefix(p)).map(|s| s.trim().to_string());
    let (Some(utc), Some(local)) = (line("- UTC:"), line("- Local:")) else {
        o.fail("header", format!("no start time in the header: {head:?}"));
        return o;
    };
    let (Some((t, off)), Some((t2, off2))) = (rfc2822(&utc), rfc2822(&local)) else {
        o.fail("time", format!("unreadable start time: {utc:?} / {local:?}"));
        return o;
    };
    if off != 0 {
        o.fail("utc", format!("the UTC time has an offset: {utc}"));
    }
    let want = offset_at(&c.zone, t);
    // offsets are shown in minutes
    let tolerance = if want.map(|w| w % 60 == 0).unwrap_or(false) { 0 } else { 59 };
    if (t - t2).abs() > tolerance {
        o.fail("instant", format!("UTC and local time are not the same instant: {utc} / {local}"));
    }
    let readings: Vec<i64> = w.clock_values[..w.clock_mark].iter().map(|v| v.div_euclid(1_000_000_000)).collect();
    if !readings.contains(&t) {
        o.fail("start", format!("{utc} is not the time at which the log was activated (clock read {readings:?}, it is {t})"));
    }
    if let Some(want) = want {
        if want % 60 == 0 && off2 != want {
            o.fail("zone", format!("local time {local}, the zone is {want} s from UTC"));
        }
    }
    for (p, intact) in [("OS:", expected_os(c)), ("Host:", expected_host(c)), ("Username:", c.username.clone().ok().filter(|s| !s.is_empty()))] {
        match (line(p), intact) {
            (None, _) => o.fail("information", format!("no line {p} in the header: {head:?}")),
            (Some(v), Some(s)) if !v.contains(&s) => o.fail("information", format!("{p} is {v:?} instead of {s:?}")),
            _ => (),
        }
    }
    match line("Rust version:") {
        Some(v) if v.split(['.', '-']).take(3).filter(|p| p.parse::<u32>().is_ok()).count() == 3 => (),
        v => o.fail("information", format!("compiler version {v:?}")),
    }
    if line("newton_rootfinder version:").map(|v| v.is_empty()).unwrap_or(true) {
        o.fail("information", "no version of the crate".to_string());
    }
    o
}

fn expected_os(c: &HeaderCase) -> Option<String> {
    match &c.os_release {
        FileState::Good(s) => s.lines().find_map(|l| l.strip_prefix("PRETTY_NAME=")).or_else(|| s.lines().find_map(|l| l.strip_prefix("NAME="))).map(|v| v.trim_matches('"').to_string()),
        _ => None,
    }
}
fn expected_host(c: &HeaderCase) -> Option<String> {
    match &c.machine_info {
        FileState::Good(s) => s.lines().find_map(|l| l.strip_prefix("PRETTY_HOSTNAME=")).map(|v| v.trim_matches('"').to_string()),
        FileState::Bytes(_) => None,
        _ => c.hostname.clone().ok().filter(|s| !s.is_empty()),
    }
}

fn gen_transitions(r: &mut Rng, start: i64) -> Vec<(i64, i64)> {
    let mut v: Vec<(i64, i64)> = vec![];
    let mut t = start - r.below(400 * 86400) as i64;
    for _ in 0..r.below(5) {
        v.push((t, gen_offset(r)));
        t += if r.chance(0.3) { 1 + r.below(7200) as i64 } else { r.below(300 * 86400) as i64 + 1 };
    }
    v
}
fn gen_offset(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => *r.pick(&[0, 3600, 7200, -18000, -28800, 19800, 20700, 45900, 50400, -43200]),
        1 => 900 * (r.below(100) as i64 - 48),
        2 => 60 * (r.below(1500) as i64 - 720),
        _ => 3600 * (r.below(27) as i64 - 12),
    }
}
fn posix(o: i64) -> String {
    let a = o.abs();
    let mut s = format!("{}{}", if o > 0 { "-" } else { "" }, a / 3600);
    if a % 3600 != 0 {
        s.push_str(&format!(":{:02}", a / 60 % 60));
    }
    s
}

fn gen(_: &str, seed: u64, idx: u64) -> Case {
    let mut r = Rng::from_parts(seed, "C18", idx);
    let m = Mix { max_iter: (0, 12), max_n: 4, ..Mix::default() };
    let mut sc = gen_scenario(&mut r, &m);
    if r.chance(0.3) {
        let at = r.below(12);
        let kind = match r.below(3) {
            0 => FaultKind::Panic,
            1 => FaultKind::Unusable,
            _ => FaultKind::Inaccurate,
        };
        sc.faults.push(Fault { jac: false, at, kind });
    }
    // clock
    let day = 86400;
    let start = match r.below(6) {
        0 => r.below(4_000_000_000usize) as i64,
        1 => *r.pick(&[0, 1, 2_147_483_647, 2_147_483_648, 4_294_967_295, 4_294_967_296, 951_782_399, 951_782_400, 1_709_164_800]),
        // around new year and the end of February
        2 => days(1990 + r.below(80) as i64, *r.pick(&[1, 3]), 1) * day + r.below(3 * 86400) as i64 - day - day / 2,
        // around the changes of summer time
        3 => change(2000 + r.below(60) as i64, r.pick(&[[3, 5, 0, 7200], [10, 5, 0, 10800], [4, 1, 0, 10800], [11, 1, 0, 7200]])) + r.below(30 * 3600) as i64 - 15 * 3600,
        4 => days(1970 + r.below(262) as i64, 1 + r.below(12) as i64, 1) * day + r.below(86400) as i64,
        _ => 1_600_000_000 + r.below(400_000_000) as i64,
    };
    let start_ns = start.clamp(0, 8_276_000_000) * 1_000_000_000 + r.below(1_000_000_000) as i64;
    let step_ns = *r.pick(&[0, 1, 1000, 1_000_000, 499_999_999, 1_000_000_000, 1_700_000_000]);
    let mut jumps = vec![];
    if r.chance(0.5) {
        for _ in 0..1 + r.below(3) {
            let j = match r.below(4) {
                0 => 1_000_000_000 * (1 + r.below(3) as i64),
                1 => 3_600_000_000_000,
                2 => 86_400_000_000_000 * (1 + r.below(400) as i64),
                _ => r.below(2_000_000_000) as i64,
            };
            jumps.push((r.below(6), if r.chance(0.5) { -j } else { j }));
        }
    }
    let clock = ClockPlan { start_ns, step_ns, jumps };
    let now = start_ns / 1_000_000_000;
    let zone = match r.below(9) {
        0 => Zone::Nothing,
        1 | 2 => {
            let o = gen_offset(&mut r);
            let name = *r.pick(&["ABC", "<+05>", "EST", "<SIM-2>"]);
            if r.chance(0.15) {
                Zone::Tz(String::new(), Some(0))
            } else {
                Zone::Tz(format!("{name}{}", posix(o)), Some(o))
            }
        }
        3 => Zone::Tz(r.pick(&["Mars/Olympus", ":nowhere", "///", "A", "EST5EDT4EXTRA", "CET-1CEST,M13.1.0,M3.1.0", "<", "Europe/Par\u{ef}s", "localtime", "ABC99", "UTC,"]).to_string(), None),
        4 => {
            let (s, std, dst, a, b) = r
                .pick(&[
                    ("CET-1CEST,M3.5.0,M10.5.0/3", 3600, 7200, [3, 5, 0, 7200], [10, 5, 0, 10800]),
                    ("EST5EDT,M3.2.0,M11.1.0", -18000, -14400, [3, 2, 0, 7200], [11, 1, 0, 7200]),
                    ("AEST-10AEDT,M10.1.0,M4.1.0/3", 36000, 39600, [10, 1, 0, 7200], [4, 1, 0, 10800]),
                    ("NZST-12NZDT,M9.5.0,M4.1.0/3", 43200, 46800, [9, 5, 0, 7200], [4, 1, 0, 10800]),
                    ("<-03>3<-02>,M3.5.0/2,M10.5.0/2", -10800, -7200, [3, 5, 0, 7200], [10, 5, 0, 7200]),
                ])
                .clone();
            Zone::Summer(s.into(), std, dst, a, b)
        }
        5 => {
            let f = gen_offset(&mut r);
            let tr = gen_transitions(&mut r, now);
            Zone::Localtime(f, tr)
        }
        6 => {
            let f = gen_offset(&mut r);
            let tr = gen_transitions(&mut r, now);
            Zone::Named(r.pick(&["Sim/City", ":Sim/City", "Zulu2"]).to_string(), f, tr)
        }
        7 => Zone::Fallback(r.chance(0.5), "Sim/Other".into(), gen_offset(&mut r)),
        _ => {
            let f = gen_offset(&mut r);
            let tr = gen_transitions(&mut r, now);
            let b = if r.chance(0.5) { Some(*r.pick(&[0u8, 1, 0x7f, 0xff, b'2', b'\n'])) } else { None };
            Zone::Damaged(f, tr, r.below(400), b)
        }
    };
    let state = |r: &mut Rng, good: &[&str]| match r.below(8) {
        0 => FileState::Missing,
        1 => FileState::OpenFails(*r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ELOOP, libc::EPERM])),
        2 => FileState::ReadFails(*r.pick(&[libc::EIO, libc::EISDIR, libc::EINVAL])),
        3 => {
            let g = r.pick(good).as_bytes().to_vec();
            let mut b = g;
            match r.below(4) {
                0 => b.truncate(r.below(b.len() + 1)),
                1 => {
                    let i = r.below(b.len());
                    b[i] = 0xff;
                }
                2 => b = (0..r.below(60)).map(|_| (r.next() & 0xff) as u8).collect(),
                _ => b.iter_mut().for_each(|v| *v = 0),
            }
            FileState::Bytes(b)
        }
        _ => FileState::Good(r.pick(good).to_string()),
    };
    let os_release = state(&mut r, &["PRETTY_NAME=\"Sim OS 1.0\"\nNAME=\"Sim\"\n", "NAME=Simple\nID=sim\n", "NAME=\"Sim\"\nVERSION=\"3\"\nPRETTY_NAME=\"Sim 3 (Third)\"\n"]);
    let machine_info = state(&mut r, &["PRETTY_HOSTNAME=\"The Machine\"\nICON_NAME=computer\n", "ICON_NAME=x\nPRETTY_HOSTNAME=box\n"]);
    let hostname = if r.chance(0.2) { Err(*r.pick(&[libc::ENAMETOOLONG, libc::EFAULT, libc::EPERM])) } else { Ok(r.pick(&["node-7", "localhost", "a", "h.example.org"]).to_string()) };
    let username = if r.chance(0.25) { Err(*r.pick(&[0, libc::EIO, libc::ENOENT, libc::EMFILE])) } else { Ok(r.pick(&["ada", "user name", "\u{e9}lise", "x"]).to_string()) };
    let mut disk = DiskPlan::default();
    for _ in 0..r.weighted(&[4.0, 1.0, 1.0, 1.0]) {
        let at = r.below(60);
        disk.faults.push(if r.chance(0.5) {
            DiskFault { class: OpClass::Write, at, kind: DiskFaultKind::Short(1 + r.below(100)) }
        } else {
            DiskFault { class: *r.pick(&[OpClass::Write, OpClass::Open]), at, kind: DiskFaultKind::Eintr(1 + r.below(3) as u32) }
        });
    }
    Case::Header(HeaderCase { sc, clock, zone, os_release, machine_info, hostname, username, disk })
}

fn shrink(c: &Case) -> Vec<Case> {
    let c = match c {
        Case::Header(c) => c,
        _ => return vec![],
    };
    let mut v = vec![];
    let mut push = |c: HeaderCase| v.push(Case::Header(c));
    let calm = FileState::Good("PRETTY_NAME=\"Sim OS 1.0\"\n".into());
    if c.os_release != calm {
        push(HeaderCase { os_release: calm, ..c.clone() });
    }
    if c.machine_info != FileState::Missing {
        push(HeaderCase { machine_info: FileState::Missing, ..c.clone() });
    }
    if c.hostname != Ok("a".into()) {
        push(HeaderCase { hostname: Ok("a".into()), ..c.clone() });
    }
    if c.username != Ok("x".into()) {
        push(HeaderCase { username: Ok("x".into()), ..c.clone() });
    }
    if !c.disk.faults.is_empty() {
        push(HeaderCase { disk: DiskPlan::default(), ..c.clone() });
    }
    if c.zone != Zone::Nothing {
        push(HeaderCase { zone: Zone::Nothing, ..c.clone() });
    }
    for i in 0..c.clock.jumps.len() {
        let mut d = c.clone();
        d.clock.jumps.remove(i);
        push(d);
    }
    if c.clock.step_ns != 0 {
        let mut d = c.clone();
        d.clock.step_ns = 0;
        push(d);
    }
    for sc in shrink_scenario(&c.sc) {
        push(HeaderCase { sc, ..c.clone() });
    }
    v
}

pub fn checks() -> Vec<Check> {
    if !cfg!(feature = "info") {
        return vec![];
    }
    vec![Check {
        id: "C18",
        quick: 60_000,
        thorough: 1_000_000,
        hang: true,
        rule: "a logged resolution in a simulated system whose clock, time zone (TZ, /etc/localtime, zone directory, fallbacks), system files, host and user name are generated, with files missing, unreadable or garbled, clock jumps between readings, short and interrupted writes; the header is parsed and compared with the simulated system, the resolution and the rest of the log with a quiet system; non-trivial: a failing or unusual part of the system, or a clock jump",
        real: "SolverLog with additional_log_info, chrono, iana-time-zone, whoami, rustc_version_runtime up to the libc calls, RootFinder",
        stub: "clock_gettime, getenv(TZ), the file system, gethostname, getpwuid_r; the user's model",
        gen,
        run,
        shrink,
    }]
}

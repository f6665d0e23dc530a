//! Reads the log of a resolution back.

use crate::refm::Mat;

#[derive(Clone, Debug, PartialEq)]
pub struct Row {
    pub id: usize,
    pub x: f64,
    pub l: f64,
    pub r: f64,
    pub err: f64,
}
#[derive(Clone, Debug, Default)]
pub struct Block {
    pub j: Option<Mat>,
    pub h: Option<Mat>,
    /// end of the block in the log
    pub end: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Entry {
    /// None: the entry of a damped iterate
    pub iter: Option<usize>,
    pub max: f64,
    pub rows: Vec<Row>,
    /// what follows the entry and comes before the next
    pub refused: usize,
    pub refused_end: usize,
    pub blocks: Vec<Block>,
    /// end of the last row of the entry in the log
    pub end: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Part {
    pub solver: Vec<Vec<String>>,
    pub iteratives: Vec<Vec<String>>,
    pub residuals: Vec<Vec<String>>,
    pub config_end: usize,
    pub entries: Vec<Entry>,
    pub other: Vec<String>,
}

fn cells(line: &str) -> Vec<String> {
    line.trim().trim_matches('|').split('|').map(|c| c.trim().to_string()).collect()
}
fn num(s: &str) -> Option<f64> {
    s.trim().parse::<f64>().ok()
}

#[derive(PartialEq, Clone, Copy)]
enum In {
    None,
    Solver,
    Iteratives,
    Residuals,
    Entry,
    Jac,
    Inv,
}

/// `text` is the part of one resolution, `at` its position in the file
pub fn parse(text: &[u8], at: usize) -> Result<Part, String> {
    let text = String::from_utf8_lossy(text).into_owned();
    let mut p = Part::default();
    let mut pos = at;
    let mut st = In::None;
    for line in text.split_inclusive('\n') {
        pos += line.len();
        let whole = line.ends_with('\n');
        let t = line.trim();
        if t.is_empty() || t.starts_with("+--") || t.starts_with("====") {
            continue;
        }
        if t == "Solver parameters" {
            st = In::Solver;
        } else if t == "Iteratives parameters" {
            st = In::Iteratives;
        } else if t == "Residuals configuration" {
            st = In::Residuals;
        } else if let Some(k) = t.strip_prefix("Iteration: ") {
            let k = k.trim().parse::<usize>().map_err(|_| format!("unreadable iteration number {t:?}"))?;
            p.entries.push(Entry { iter: Some(k), max: f64::NAN, ..Entry::default() });
            st = In::Entry;
        } else if t.starts_with("Damping activated") {
            p.entries.push(Entry { iter: None, max: f64::NAN, ..Entry::default() });
            st = In::Entry;
        } else if t.starts_with("Iteration refused") {
            match p.entries.last_mut() {
                Some(e) => {
                    e.refused += 1;
                    e.refused_end = pos;
                }
                None => return Err("a refusal before any iteration".into()),
            }
        } else if t == "Jacobian matrix" {
            match p.entries.last_mut() {
                Some(e) => e.blocks.push(Block::default()),
                None => return Err("a jacobian before any iteration".into()),
            }
            st = In::Jac;
        } else if let Some(v) = t.strip_prefix("Max error: ") {
            match p.entries.last_mut() {
                Some(e) if e.rows.is_empty() => e.max = num(v).ok_or(format!("unreadable {t:?}"))?,
                _ => return Err(format!("misplaced {t:?}")),
            }
        } else if t.starts_with("Inverse of the jacobian") {
            st = In::Inv;
            if let Some(b) = p.entries.last_mut().and_then(|e| e.blocks.last_mut()) {
                b.end = pos;
            }
        } else {
            match st {
                In::Solver | In::Iteratives | In::Residuals => {
                    let c = cells(t);
                    let v = match st {
                        In::Solver => &mut p.solver,
                        In::Iteratives => &mut p.iteratives,
                        _ => &mut p.residuals,
                    };
                    v.push(c);
                    if whole {
                        p.config_end = pos;
                    }
                }
                In::Entry => {
                    if t.starts_with("| Id") {
                        continue;
                    }
                    if !t.starts_with('|') {
                        p.other.push(t.to_string());
                        continue;
                    }
                    let c = cells(t);
                    let row = (|| {
                        if c.len() != 4 {
                            return None;
                        }
                        let (l, r) = c[2].split_once('=')?;
                        Some(Row { id: c[0].parse().ok()?, x: num(&c[1])?, l: num(l)?, r: num(r)?, err: num(&c[3])? })
                    })();
                    match row {
                        Some(r) => {
                            let e = p.entries.last_mut().unwrap();
                            e.rows.push(r);
                            e.end = pos;
                        }
                        None if !whole => p.other.push(t.to_string()),
                        None => return Err(format!("unreadable row {t:?}")),
                    }
                }
                In::Jac | In::Inv => {
                    let b = p.entries.last_mut().unwrap().blocks.last_mut().unwrap();
                    b.end = pos;
                    if t.starts_with('│') {
                        let vals: Option<Vec<f64>> = t.trim_matches('│').split_whitespace().map(num).collect();
                        let vals = vals.ok_or(format!("unreadable matrix line {t:?}"))?;
                        let m = if st == In::Jac { &mut b.j } else { &mut b.h };
                        m.get_or_insert_with(Vec::new).push(vals);
                    }
                }
                In::None => p.other.push(t.to_string()),
            }
        }
    }
    Ok(p)
}

//! Shrinks a failing case: schedule decisions first, then data.
use crate::case::{Case, Check, Finding};
use crate::exec::Worker;
use crate::run_case;
use serde_json::json;
use std::time::{Duration, Instant};

pub struct Min {
    pub case: Case,
    pub finding: Finding,
    pub fp: (String, u64, u64, u64),
    pub decisions_before: usize,
    pub items_before: usize,
    pub items_after: usize,
    pub original_seed: u64,
}

fn items(c: &Case) -> usize {
    c.sc.files.iter().map(|f| f.feed.as_ref().map(|x| x.segs.len()).unwrap_or(0)).sum::<usize>()
        + c.sc.stdin.segs.len()
        + c.sc.progs.iter().map(|p| p.emit.len()).sum::<usize>()
}

struct Ctx<'a> {
    w: &'a mut Worker,
    code: String,
    until: Instant,
}
impl<'a> Ctx<'a> {
    fn fails(&mut self, c: &Case) -> Option<(Finding, (String, u64, u64, u64))> {
        if Instant::now() > self.until {
            return None;
        }
        match run_case(self.w, c) {
            Ok(j) => {
                let f = j.findings.first()?;
                if f.code == self.code {
                    Some((f.clone(), j.outs[0].fingerprint()))
                } else {
                    None
                }
            }
            Err(_) => None,
        }
    }
}

/// remove parts of a list as long as the failure stays
fn ddmin<T: Clone>(ctx: &mut Ctx, c: &mut Case, get: impl Fn(&Case) -> Vec<T>, set: impl Fn(&mut Case, Vec<T>)) {
    let mut v = get(c);
    let mut n = 1usize;
    while !v.is_empty() {
        if Instant::now() > ctx.until {
            break;
        }
        let size = (v.len() + n - 1) / n;
        let mut cut = false;
        let mut i = 0;
        while i < v.len() {
            let mut t = v.clone();
            t.drain(i..(i + size).min(v.len()));
            let mut c2 = c.clone();
            set(&mut c2, t.clone());
            if ctx.fails(&c2).is_some() {
                v = t;
                *c = c2;
                cut = true;
            } else {
                i += size;
            }
        }
        if !cut {
            if size == 1 {
                break;
            }
            n = (n * 2).min(v.len());
        } else {
            n = n.saturating_sub(1).max(1).min(v.len().max(1));
        }
    }
}

pub fn minimise(w: &mut Worker, case: &Case, finding: &Finding, budget: Duration) -> Min {
    let before = items(case);
    let mut c = case.clone();
    let mut ctx = Ctx { w, code: finding.code.clone(), until: Instant::now() + budget };
    // the seeded schedule written out
    let mut decisions_before = 0;
    let multi = case.checks.contains(&Check::SameAs) || case.checks.contains(&Check::Rewritten);
    if !multi {
        if let Ok(j) = run_case(ctx.w, case) {
            let d = j.outs[0].decisions.clone();
            decisions_before = d.len();
            c.sc.decisions = Some(d);
            if ctx.fails(&c).is_none() {
                c = case.clone();
            }
        }
    }
    if c.sc.decisions.is_some() {
        ddmin(&mut ctx, &mut c, |c| c.sc.decisions.clone().unwrap(), |c, v| c.sc.decisions = Some(v));
    }
    if c.sc.config_io != Default::default() {
        let mut c2 = c.clone();
        c2.sc.config_io = Default::default();
        if ctx.fails(&c2).is_some() {
            c = c2;
        }
    }
    if c.shrink_data {
        for i in 0..c.sc.files.len() {
            if c.sc.files[i].feed.is_some() {
                ddmin(
                    &mut ctx,
                    &mut c,
                    |c| c.sc.files[i].feed.as_ref().unwrap().gaps.clone(),
                    |c, v| c.sc.files[i].feed.as_mut().unwrap().gaps = v,
                );
                ddmin(
                    &mut ctx,
                    &mut c,
                    |c| c.sc.files[i].feed.as_ref().unwrap().segs.clone(),
                    |c, v| c.sc.files[i].feed.as_mut().unwrap().segs = v,
                );
            }
        }
        ddmin(&mut ctx, &mut c, |c| c.sc.stdin.gaps.clone(), |c, v| c.sc.stdin.gaps = v);
        ddmin(&mut ctx, &mut c, |c| c.sc.stdin.segs.clone(), |c, v| c.sc.stdin.segs = v);
        for i in 0..c.sc.progs.len() {
            ddmin(&mut ctx, &mut c, |c| c.sc.progs[i].emit.clone(), |c, v| c.sc.progs[i].emit = v);
            for what in 0..6 {
                let mut c2 = c.clone();
                let p = &mut c2.sc.progs[i];
                match what {
                    0 => p.linger = 0,
                    1 => p.start = 0,
                    2 => p.slow = 0,
                    3 => p.block = 0,
                    4 => p.pipe_cap = 0,
                    _ => p.status_errs = 0,
                }
                if *c2.sc.progs.get(i).unwrap() != c.sc.progs[i] && ctx.fails(&c2).is_some() {
                    c = c2;
                }
            }
        }
        if c.sc.decisions.is_some() {
            ddmin(&mut ctx, &mut c, |c| c.sc.decisions.clone().unwrap(), |c, v| c.sc.decisions = Some(v));
        }
    }
    ctx.until = Instant::now() + Duration::from_secs(60);
    let (f, fp) = match ctx.fails(&c) {
        Some(x) => x,
        None => {
            c = case.clone();
            ctx.fails(&c).unwrap_or((finding.clone(), Default::default()))
        }
    };
    Min { items_after: items(&c), case: c, finding: f, fp, decisions_before, items_before: before, original_seed: case.seed }
}

pub fn replay_value(prop: &str, m: &Min, seed: u64) -> serde_json::Value {
    json!({
        "property": prop,
        "finding": m.finding,
        "verif_seed": seed,
        "case_seed": m.original_seed,
        "how_to_replay": "/verif/check.sh replay <this file>",
        "expected": {"fingerprint": m.fp},
        "case": m.case,
    })
}

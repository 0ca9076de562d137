//! Makes a failing plan smaller while it keeps failing in the same way.
use serde_json::Value;
use std::time::{Duration, Instant};

/// lists whose elements can be left out
const LISTS: [&str; 15] =
    ["epochs", "sends", "copies", "packets", "apps", "ops", "errors", "binds", "acceptors", "frames", "trailing", "ranges", "versions", "deviations", "lies"];
/// what can be simplified: name and the simpler value
const SIMPLER: [(&str, Value); 7] = [("output_fails", Value::Null), ("mutation", Value::Null), ("port", Value::Null), ("divert", Value::Null), ("limit", Value::Null), ("forge", Value::Null), ("stub", Value::Null)];
const SMALLER: [&str; 19] =
    ["delay", "at", "learn_delay", "pad", "skip", "rand_repeat", "rand_fails", "rand_near", "wall_jumps", "rounds", "opens", "others", "lost", "partitioned", "widths", "length_width", "token_width", "unwind", "ahead"];
const FALSE: [&str; 12] =
    ["log", "streams_last", "writers_first", "respond", "install", "wire", "by_library", "spin", "key_phase", "zero_offset", "short", "decode"];

#[derive(Debug, Clone)]
enum Step {
    Key(String),
    At(usize),
}

fn get<'a>(v: &'a Value, path: &[Step]) -> Option<&'a Value> {
    path.iter().try_fold(v, |v, s| match s {
        Step::Key(k) => v.get(k),
        Step::At(i) => v.get(i),
    })
}

fn get_mut<'a>(v: &'a mut Value, path: &[Step]) -> Option<&'a mut Value> {
    path.iter().try_fold(v, |v, s| match s {
        Step::Key(k) => v.get_mut(k),
        Step::At(i) => v.get_mut(*i),
    })
}

fn walk(v: &Value, path: &mut Vec<Step>, name: &str, f: &mut dyn FnMut(&[Step], &str, &Value)) {
    f(path, name, v);
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                path.push(Step::Key(k.clone()));
                walk(x, path, k, f);
                path.pop();
            }
        }
        Value::Array(a) => {
            // bytes are left alone
            if a.iter().all(|x| x.is_number()) && name != "deviations" {
                return;
            }
            for (i, x) in a.iter().enumerate() {
                path.push(Step::At(i));
                walk(x, path, "", f);
                path.pop();
            }
        }
        _ => {}
    }
}

pub struct Budget {
    pub until: Instant,
    pub trials: usize,
}

impl Budget {
    pub fn new(seconds: u64, trials: usize) -> Self {
        Self { until: Instant::now() + Duration::from_secs(seconds), trials }
    }
    fn spent(&self) -> bool {
        self.trials == 0 || Instant::now() >= self.until
    }
}

/// `fails` tells which of several candidates fails in the same way, it may improve on it
pub fn minimise(start: Value, budget: &mut Budget, fails: &mut dyn FnMut(&[Value]) -> Option<Value>) -> Value {
    let mut best = start;
    loop {
        let before = best.to_string().len();
        // leave out elements of lists, many at a time first
        let mut lists: Vec<Vec<Step>> = Vec::new();
        walk(&best, &mut vec![], "", &mut |p, n, v| {
            if LISTS.contains(&n) && v.as_array().map_or(false, |a| !a.is_empty()) {
                lists.push(p.to_vec());
            }
        });
        lists.sort_by_key(|p| std::cmp::Reverse(get(&best, p).map_or(0, |x| x.to_string().len())));
        for p in lists {
            let mut chunk = get(&best, &p).and_then(|x| x.as_array()).map_or(0, |x| x.len());
            while chunk > 0 && !budget.spent() {
                let mut at = 0;
                loop {
                    let n = get(&best, &p).and_then(|x| x.as_array()).map_or(0, |x| x.len());
                    if at >= n || budget.spent() {
                        break;
                    }
                    // a few candidates at once
                    let mut cands = Vec::new();
                    let mut k = at;
                    while k < n && cands.len() < 8 {
                        let mut c = best.clone();
                        if let Some(Value::Array(a)) = get_mut(&mut c, &p) {
                            let end = (k + chunk).min(a.len());
                            a.drain(k..end);
                        }
                        cands.push(c);
                        k += chunk;
                    }
                    budget.trials = budget.trials.saturating_sub(cands.len());
                    match fails(&cands) {
                        Some(x) => best = x,
                        None => at = k,
                    }
                }
                chunk = if chunk == 1 { 0 } else { chunk / 2 };
            }
        }
        // simplify values
        let mut changes: Vec<(Vec<Step>, Value)> = Vec::new();
        walk(&best, &mut vec![], "", &mut |p, n, v| {
            for (k, to) in &SIMPLER {
                if n == *k && v != to {
                    changes.push((p.to_vec(), to.clone()));
                }
            }
            if SMALLER.contains(&n) && v.as_u64().map_or(false, |x| x > 0) {
                changes.push((p.to_vec(), Value::from(0)));
                if v.as_u64().unwrap() > 3 {
                    changes.push((p.to_vec(), Value::from(v.as_u64().unwrap() / 4)));
                }
            }
            if FALSE.contains(&n) && v == &Value::Bool(true) {
                changes.push((p.to_vec(), Value::Bool(false)));
            }
        });
        let mut i = 0;
        while i < changes.len() && !budget.spent() {
            let cands: Vec<Value> = changes[i..]
                .iter()
                .take(8)
                .map(|(p, to)| {
                    let mut c = best.clone();
                    if let Some(v) = get_mut(&mut c, p) {
                        *v = to.clone();
                    }
                    c
                })
                .collect();
            budget.trials = budget.trials.saturating_sub(cands.len());
            i += cands.len();
            if let Some(x) = fails(&cands) {
                best = x;
            }
        }
        if budget.spent() || best.to_string().len() >= before {
            return best;
        }
    }
}

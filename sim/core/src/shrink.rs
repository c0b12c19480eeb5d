//! Generic minimiser over JSON scenarios: drops list items, simplifies numbers, strings and flags,
//! as long as the same class of violation persists.
use serde_json::Value;

/// All paths to sub-values, outermost first.
fn paths(v: &Value, pre: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(pre.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                pre.push(Step::I(i));
                paths(x, pre, out);
                pre.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                pre.push(Step::K(k.clone()));
                paths(x, pre, out);
                pre.pop();
            }
        }
        _ => {}
    }
}

#[derive(Clone, Debug)]
pub enum Step {
    I(usize),
    K(String),
}

fn at<'a>(v: &'a Value, p: &[Step]) -> Option<&'a Value> {
    let mut v = v;
    for s in p {
        v = match s {
            Step::I(i) => v.get(i)?,
            Step::K(k) => v.get(k)?,
        };
    }
    Some(v)
}

fn set(v: &mut Value, p: &[Step], new: Value) {
    let mut v = v;
    for s in p {
        v = match s {
            Step::I(i) => &mut v[*i],
            Step::K(k) => &mut v[k.as_str()],
        };
    }
    *v = new;
}

fn simpler(v: &Value) -> Vec<Value> {
    match v {
        Value::Bool(true) => vec![Value::Bool(false)],
        Value::Number(n) => {
            let mut o = vec![];
            if let Some(x) = n.as_u64() {
                for c in [0, 1, x / 2, x.saturating_sub(1)] {
                    if c < x && !o.contains(&Value::from(c)) {
                        o.push(Value::from(c));
                    }
                }
            }
            o
        }
        Value::String(s) => {
            let mut o = vec![];
            let n = s.chars().count();
            if n > 0 {
                o.push(Value::from(""));
            }
            if n > 1 {
                o.push(Value::from(s.chars().take(n / 2).collect::<String>()));
                o.push(Value::from(s.chars().skip(n / 2).collect::<String>()));
                o.push(Value::from(s.chars().take(n - 1).collect::<String>()));
                o.push(Value::from(s.chars().skip(1).collect::<String>()));
            }
            o
        }
        _ => vec![],
    }
}

/// `fails` tells whether a candidate still shows the same violation.
pub fn shrink(start: Value, mut fails: impl FnMut(&Value) -> Option<bool>) -> (Value, usize) {
    let mut best = start;
    let mut tried = 0;
    'outer: loop {
        let mut progress = false;
        let mut ps = Vec::new();
        paths(&best, &mut Vec::new(), &mut ps);
        // pass 1: chunks of list items, outermost lists first
        for p in &ps {
            loop {
                let Some(Value::Array(a)) = at(&best, p) else { break };
                let n = a.len();
                if n == 0 {
                    break;
                }
                let mut size = n;
                let mut hit = false;
                'sizes: while size >= 1 {
                    let mut i = 0;
                    while i < n {
                        let Some(Value::Array(a)) = at(&best, p) else { break 'sizes };
                        let mut b = a.clone();
                        let end = (i + size).min(b.len());
                        if i >= end {
                            break;
                        }
                        b.drain(i..end);
                        let mut cand = best.clone();
                        set(&mut cand, p, Value::Array(b));
                        tried += 1;
                        match fails(&cand) {
                            None => break 'outer,
                            Some(true) => {
                                best = cand;
                                progress = true;
                                hit = true;
                                break 'sizes;
                            }
                            Some(false) => {}
                        }
                        i += size;
                    }
                    size /= 2;
                }
                if !hit {
                    break;
                }
            }
        }
        // pass 2: scalars
        let mut ps = Vec::new();
        paths(&best, &mut Vec::new(), &mut ps);
        for p in &ps {
            loop {
                let Some(v) = at(&best, p) else { break };
                let mut hit = false;
                for s in simpler(v) {
                    let mut cand = best.clone();
                    set(&mut cand, p, s);
                    tried += 1;
                    match fails(&cand) {
                        None => break 'outer,
                        Some(true) => {
                            best = cand;
                            progress = true;
                            hit = true;
                            break;
                        }
                        Some(false) => {}
                    }
                }
                if !hit {
                    break;
                }
            }
        }
        if !progress {
            break;
        }
    }
    (best, tried)
}

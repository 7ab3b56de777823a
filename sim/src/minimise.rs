//! Shrinks a violating plan while it keeps violating the property in the same way.

use std::time::Instant;

use crate::plan::Plan;
use crate::runner::{forked, End};
use crate::shared;

/// What a violation is about, without its numbers.
fn class(m: &str) -> String {
    m.split(|c: char| !c.is_ascii_alphabetic() && c != '_')
        .filter(|w| w.len() > 2 && !w.chars().all(|c| c.is_ascii_hexdigit()))
        .take(4)
        .collect::<Vec<_>>()
        .join(" ")
}

struct M {
    class: String,
    t0: Instant,
    tries: u64,
    budget_s: u64,
    limit: u32,
}

impl M {
    fn spent(&self) -> bool { self.t0.elapsed().as_secs() > self.budget_s || self.tries > 3000 }
    fn bad(&mut self, p: &Plan) -> bool {
        if self.spent() {
            return false;
        }
        self.tries += 1;
        matches!(forked(p, self.limit), End::Bad(_, m) if class(&m) == self.class)
    }

    /// Removes chunks of a list, largest first.
    fn ddmin<T: Clone>(&mut self, p: &mut Plan, get: fn(&mut Plan) -> &mut Vec<T>) {
        let mut size = get(p).len().div_ceil(2).max(1);
        loop {
            let mut at = 0;
            let mut any = false;
            while at < get(p).len() {
                let mut q = p.clone();
                let v = get(&mut q);
                let end = (at + size).min(v.len());
                v.drain(at..end);
                if self.bad(&q) {
                    *p = q;
                    any = true;
                } else {
                    at += size;
                }
                if self.spent() {
                    return;
                }
            }
            if size == 1 {
                if !any {
                    return;
                }
            } else {
                size = size.div_ceil(2).max(1);
                if size == 1 && get(p).is_empty() {
                    return;
                }
            }
        }
    }

    fn args(&mut self, p: &mut Plan) {
        for s in 0..p.steps.len() {
            // Trailing arguments (fault scripts) first.
            while p.steps[s].a.len() > 13 || (p.steps[s].op == "feed" && p.steps[s].a.len() > 6) {
                let mut q = p.clone();
                q.steps[s].a.pop();
                if !self.bad(&q) {
                    break;
                }
                *p = q;
            }
            for k in 0..p.steps[s].a.len() {
                let x = p.steps[s].a[k];
                if x == 0 {
                    continue;
                }
                let mut q = p.clone();
                q.steps[s].a[k] = 0;
                if self.bad(&q) {
                    *p = q;
                    continue;
                }
                // Smallest value by bisection; not monotone, so only a heuristic.
                let (mut lo, mut hi) = (0, x);
                while hi - lo > 1 && !self.spent() {
                    let mid = lo + (hi - lo) / 2;
                    let mut q = p.clone();
                    q.steps[s].a[k] = mid;
                    if self.bad(&q) {
                        *p = q;
                        hi = mid;
                    } else {
                        lo = mid;
                    }
                }
            }
        }
    }
}

pub fn minimise(plan: &Plan, limit: u32) -> (Plan, usize, String, u64) {
    shared::select(shared::alloc());
    let first = forked(plan, limit);
    let (step, text) = match first {
        End::Bad(s, t) => (s, t),
        e => return (plan.clone(), 0, format!("not reproduced at once: {:?}", e), 1),
    };
    let hang = text.starts_with("no progress");
    let mut m = M { class: class(&text), t0: Instant::now(), tries: 1, budget_s: 60, limit: if hang { 10 } else { limit } };
    let mut p = plan.clone();
    if plan.steps.len() > 1 || plan.threads > 0 {
        // Nothing after the failing step matters, if the failure is not at the end.
        if step + 1 < p.steps.len() && p.threads == 0 {
            let mut q = p.clone();
            q.steps.truncate(step + 1);
            if m.bad(&q) {
                p = q;
            }
        }
        if p.threads > 0 {
            let mut q = p.clone();
            q.threads = 0;
            q.switches.clear();
            q.flags &= !crate::exec::FL_POINTS;
            if m.bad(&q) {
                p = q;
            }
        }
        for _ in 0..2 {
            m.ddmin(&mut p, |p| &mut p.steps);
            if p.threads > 0 {
                m.ddmin(&mut p, |p| &mut p.switches);
            }
            m.args(&mut p);
            if m.spent() {
                break;
            }
        }
        for s in &mut p.steps {
            if p.threads == 0 {
                s.th = 0;
            }
        }
    }
    let tries = m.tries;
    match forked(&p, limit) {
        End::Bad(s, t) => (p, s, t, tries),
        _ => (plan.clone(), step, text, tries),
    }
}

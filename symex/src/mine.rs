//! Numbers the code under test compares sizes with. Input sizes around them are added to the
//! enumerated ones, so that a special case for an unusual size is not outside the bounds.

use crate::ir::Module;
use std::collections::BTreeSet;

/// (source file, number), from comparisons, switches, masks, divisions and minima whose debug
/// location lies in the code under test.
pub fn constants(m: &Module) -> BTreeSet<(String, u64)> {
    let mut out = BTreeSet::new();
    let mut seen = BTreeSet::new();
    let mut in_switch = false;
    let mut pending: Vec<u64> = vec![];
    for l in &m.lines {
        if !l.starts_with(' ') {
            continue;
        }
        let t = l.trim_start();
        let mut ks: Vec<u64> = vec![];
        if in_switch {
            // "i64 7, label %bb3", closed by "], !dbg !12"
            if t.starts_with(']') {
                in_switch = false;
                ks = std::mem::take(&mut pending);
            } else {
                if let Some(k) = t.split(' ').nth(1).and_then(|x| num(x.trim_end_matches(','))) {
                    pending.push(k);
                }
                continue;
            }
        } else if t.starts_with("switch ") {
            in_switch = true;
            pending.clear();
            continue;
        } else {
            let rhs = match t.split_once(" = ") {
                Some((_, r)) => r,
                None => continue,
            };
            let body = rhs.split(", !").next().unwrap_or(rhs);
            let op = body.split(' ').next().unwrap_or("");
            match op {
                "icmp" | "udiv" | "urem" => {
                    for x in body.rsplit(' ').take(2) {
                        ks.extend(num(x.trim_end_matches(',')));
                    }
                }
                "and" => {
                    if let Some(k) = body.rsplit(' ').next().and_then(num) {
                        ks.push(k);
                    }
                }
                "call" | "tail"
                    if ["@llvm.umin", "@llvm.umax", "@llvm.smin", "@llvm.smax", "@llvm.usub.sat"].iter().any(|n| body.contains(n)) =>
                {
                    if let Some(a) = body.rfind('(') {
                        for x in body[a..].split(|c: char| c == ' ' || c == ',' || c == '(' || c == ')') {
                            ks.extend(num(x));
                        }
                    }
                }
                _ => continue,
            }
        }
        ks.retain(|k| (9..=1 << 18).contains(k));
        if ks.is_empty() {
            continue;
        }
        let id: u32 = match t.rfind("!dbg !").and_then(|i| t[i + 6..].split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()) {
            Some(i) => i,
            None => continue,
        };
        ks.retain(|k| seen.insert((id, *k)));
        if ks.is_empty() {
            continue;
        }
        if let Some((_, f, _)) = m.dbg_chain(id).into_iter().find(|x| x.0.starts_with("chf::") || x.1.contains("/repo/src/")) {
            let f = f.rsplit('/').next().unwrap_or("").trim_end_matches(".rs").to_string();
            for k in ks {
                out.insert((f.clone(), k));
            }
        }
    }
    out
}

fn num(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    s.parse().ok()
}

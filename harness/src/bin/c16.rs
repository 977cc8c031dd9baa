//! C16: the built-in MIME table is the Apache table.
use mc::gen::*;
use mc::*;
use rustful::file::ext_to_mime;
use rustful::mime::Mime;
use std::collections::{BTreeMap, BTreeSet};

/// The bundled table, read independently of the build script.
fn table() -> BTreeMap<String, Vec<(String, String)>> {
    let text = std::fs::read_to_string("/repo/build/apache/mime.types").expect("the bundled table");
    let mut m: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
    for line in text.split('\n') {
        let line = line.trim_end_matches('\r');
        if line.starts_with('#') {
            continue;
        }
        let mut words = line.split(|c: char| c == ' ' || c == '\t').filter(|w| !w.is_empty());
        if let Some(t) = words.next() {
            let (top, sub) = t.split_once('/').expect("type/subtype");
            for e in words {
                m.entry(e.into()).or_default().push((top.into(), sub.into()));
            }
        }
    }
    m
}

fn check(sh: &mut Shard, tab: &BTreeMap<String, Vec<(String, String)>>, ext: &str) {
    sh.add_states(1);
    sh.trans(1);
    sh.trace();
    let got = match catch(|| ext_to_mime(ext)) {
        Ok(g) => g,
        Err(e) => {
            sh.violation("panic", format!("{:?}: {}", ext, e));
            return;
        }
    };
    match (got, tab.get(ext)) {
        (None, None) => {}
        (Some(m), None) => sh.violation("extension not in the table", format!("{:?} -> {}", ext, m)),
        (None, Some(t)) => sh.violation("extension missing", format!("{:?} should be {:?}", ext, t)),
        (Some(m), Some(ts)) => {
            let Mime(ref top, ref sub, ref params) = m;
            if !ts.iter().any(|t| t.0.eq_ignore_ascii_case(top.as_str()) && t.1.eq_ignore_ascii_case(sub.as_str())) {
                sh.violation("other type", format!("{:?} -> {}, the table says {:?}", ext, m, ts));
            } else if !params.is_empty() {
                sh.violation("parameters", format!("{:?} -> {}", ext, m));
            } else if m.to_string().parse::<Mime>() != Ok(m.clone()) {
                // a well-known type has to be equal to the value that denotes it
                sh.violation("not the well-known value", format!("{:?} -> {:?}", ext, m));
            }
        }
    }
}

fn main() {
    check_main(
        "C16",
        Level::ModelChecking,
        "every extension of the bundled table, every one-character edit of each, every string over the extension alphabet up to a length, against an independent reading of the table",
        |ctx| {
            ctx.assume("when the bundled table lists an extension for several types, any of them is right; extensions are matched as they are written");
            let tab = table();
            if tab.len() < 500 {
                panic!("the bundled table has only {} extensions", tab.len());
            }
            let exts: Vec<&String> = tab.keys().collect();
            let mut alpha: BTreeSet<char> = tab.keys().flat_map(|e| e.chars()).collect();
            let base: Vec<char> = alpha.iter().cloned().collect();
            alpha.extend("AZ./*# é\0".chars());
            let wide: Vec<char> = alpha.into_iter().collect();
            ctx.seq("table", exts.len(), |i, sh| {
                check(sh, &tab, exts[i]);
                sh.sample(|| format!("{} -> {:?}", exts[i], tab[exts[i]]));
            });
            ctx.par("edits", exts.len(), |i, sh| {
                let e: Vec<char> = exts[i].chars().collect();
                let mut all: BTreeSet<String> = BTreeSet::new();
                for p in 0..=e.len() {
                    for &c in &wide {
                        let mut x = e.clone();
                        x.insert(p, c);
                        all.insert(x.iter().collect());
                        if p < e.len() {
                            let mut x = e.clone();
                            x[p] = c;
                            all.insert(x.iter().collect());
                        }
                    }
                    if p < e.len() {
                        let mut x = e.clone();
                        x.remove(p);
                        all.insert(x.iter().collect());
                        let mut x = e.clone();
                        if p + 1 < x.len() {
                            x.swap(p, p + 1);
                        }
                        all.insert(x.iter().collect());
                    }
                }
                let up = exts[i].to_uppercase();
                all.insert(format!(".{}", exts[i]));
                all.insert(format!("{} ", exts[i]));
                all.insert(up);
                for x in &all {
                    check(sh, &tab, x);
                }
            });
            let n = ctx.pick(3, 4);
            ctx.par("short", strings_upto(wide.len(), n), |i, sh| {
                let s: String = string_at(wide.len(), i).iter().map(|&k| wide[k]).collect();
                check(sh, &tab, &s);
            });
            if ctx.thorough {
                ctx.par("short5", strings_upto(base.len(), 5), |i, sh| {
                    let s: String = string_at(base.len(), i).iter().map(|&k| base[k]).collect();
                    check(sh, &tab, &s);
                });
            }
            // what the code mentions
            let words: Vec<String> = dict::texts();
            ctx.par("words", words.len(), |i, sh| {
                let w = &words[i];
                for x in [w.clone(), w.to_lowercase(), w.to_uppercase(), format!(".{}", w), w.trim_start_matches('.').to_string(), w.rsplit('.').next().unwrap_or("").to_string()] {
                    check(sh, &tab, &x);
                }
            });
            let lens = ladder(ctx.pick(5000, 100_000));
            ctx.par("lengths", lens.len(), |i, sh| {
                for unit in ["a", "html", ".", "é"] {
                    check(sh, &tab, &unit.repeat(lens[i]));
                    check(sh, &tab, &format!("html{}", unit.repeat(lens[i].max(1))));
                }
            });
            // the words of the table that are not extensions
            let types: BTreeSet<String> = tab.values().flatten().flat_map(|t| vec![t.0.clone(), t.1.clone(), format!("{}/{}", t.0, t.1)]).collect();
            let types: Vec<String> = types.into_iter().collect();
            ctx.par("type-names", types.len(), |i, sh| check(sh, &tab, &types[i]));
        },
    )
}

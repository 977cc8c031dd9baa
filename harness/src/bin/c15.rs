//! C15: a path that passes the path check never escapes its base.
use mc::gen::*;
use mc::*;
use rustful::file::check_path;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Component, Path, PathBuf};

/// Component-wise model, on bytes, without the standard library's path parsing.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Verdict {
    Fine,
    Root,
    Parent,
}
fn model(p: &[u8]) -> Verdict {
    if p.first() == Some(&b'/') {
        return Verdict::Root;
    }
    if p.split(|&c| c == b'/').any(|s| s == b"..") {
        return Verdict::Parent;
    }
    Verdict::Fine
}

/// Where a path leads, lexically: the names below the root, or None if it climbs above.
fn resolve(p: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut at: Vec<Vec<u8>> = vec![];
    for s in p.split(|&c| c == b'/') {
        match s {
            b"" | b"." => {}
            b".." => {
                at.pop()?;
            }
            s => at.push(s.to_vec()),
        }
    }
    Some(at)
}

const BASES: [&str; 6] = ["/srv/files", "/", "/srv/./files/", "/srv//a.b", "/a/../b", "/..a/b.."];

fn check(sh: &mut Shard, p: &[u8]) {
    sh.add_states(1);
    sh.trans(1);
    sh.trace();
    let path = Path::new(OsStr::from_bytes(p));
    let got = match catch(|| match check_path(path) {
        Ok(()) => Verdict::Fine,
        Err(Component::RootDir) => Verdict::Root,
        Err(Component::ParentDir) => Verdict::Parent,
        Err(c) => panic!("rejected because of {:?}", c),
    }) {
        Ok(v) => v,
        Err(e) => {
            sh.violation("panic", format!("{:?}: {}", esc(p), e));
            return;
        }
    };
    let want = model(p);
    if got != want {
        sh.violation(format!("{:?} instead of {:?}", got, want), format!("{:?}", esc(p)));
        return;
    }
    // every way of giving the same path agrees
    let os: &OsStr = path.as_os_str();
    let same = check_path(os).is_ok() == (want == Verdict::Fine) && check_path(&os.to_os_string()).is_ok() == (want == Verdict::Fine) && check_path(&PathBuf::from(path)).is_ok() == (want == Verdict::Fine);
    let text = match std::str::from_utf8(p) {
        Ok(s) => check_path(s).is_ok() == (want == Verdict::Fine) && check_path(&s.to_string()).is_ok() == (want == Verdict::Fine),
        Err(_) => true,
    };
    if !same || !text {
        sh.violation("types disagree", format!("{:?}", esc(p)));
    }
    for b in BASES {
        let joined = Path::new(b).join(path);
        let base = resolve(b.as_bytes()).unwrap();
        let inside = match resolve(joined.as_os_str().as_bytes()) {
            Some(at) => at.starts_with(&base),
            None => false,
        };
        // and no prefix of the path leaves it either
        let mut step = PathBuf::from(b);
        let mut always = inside;
        for c in path.components().take(if p.len() > 80 { 0 } else { 80 }) {
            step.push(c.as_os_str());
            always &= resolve(step.as_os_str().as_bytes()).map_or(false, |at| at.starts_with(&base));
        }
        if got == Verdict::Fine && !always {
            sh.violation("escapes", format!("{:?} joined to {:?} is {:?}", esc(p), b, joined));
        }
    }
}

fn main() {
    check_main(
        "C15",
        Level::ModelChecking,
        "every byte string up to a length over separators, dots, ordinary, unusual and non-UTF-8 bytes, and every sequence of components up to a depth, against a byte-wise model and six base directories",
        |ctx| {
            ctx.assume("Unix paths: no drive prefixes exist here; symbolic links are not followed by the check");
            let alpha: &[u8] = b"/.a\\:\xff\0 ";
            let n = ctx.pick(6, 8);
            ctx.par("bytes", strings_upto(alpha.len(), n), |i, sh| {
                let p: Vec<u8> = string_at(alpha.len(), i).iter().map(|&k| alpha[k]).collect();
                check(sh, &p);
            });
            // longer ones over the characters that matter
            let alpha2: &[u8] = b"/.a";
            let n2 = ctx.pick(11, 14);
            ctx.par("long", strings_upto(3, n2), |i, sh| {
                let p: Vec<u8> = string_at(3, i).iter().map(|&k| alpha2[k]).collect();
                check(sh, &p);
            });
            let parts: [&[u8]; 14] = [b"", b".", b"..", b"...", b"a", b".a", b"a..", b"..a", b"C:", b"\\\\server", b"..\\..", b"%2e%2e", b"\xe2\x80\xae", b"\xff\xfe"];
            let n3 = ctx.pick(5, 6);
            ctx.par("components", strings_upto(parts.len(), n3), |i, sh| {
                let p: Vec<&[u8]> = string_at(parts.len(), i).iter().map(|&k| parts[k]).collect();
                check(sh, &p.join(&b"/"[..]));
                sh.sample(|| esc(&p.join(&b"/"[..])));
            });
            let all = [&b"/"[..], b"..", b"../", b"/..", b"a/../..", b"a/..", b"./..", b"a/b/../../../x", b"....//", b"..;/", b"..%2f", b".. /", b" ../", b"\n../x", b"\0/../x"];
            ctx.seq("known-tricks", all.len(), |i, sh| check(sh, all[i]));
            // components made of what the code mentions
            let words: Vec<Vec<u8>> = dict::forms();
            ctx.par("words", words.len(), |i, sh| {
                let w = &words[i];
                let around: [&[u8]; 9] = [b"", b"/", b".", b"..", b"../", b"/..", b"a/../../", b"/../..", b"./"];
                for a in around {
                    for b in around {
                        check(sh, &[a, &w[..], b].concat());
                        check(sh, &[&w[..], b"/", a, &w[..], b].concat());
                        check(sh, &[b"a/", a, &w[..], b"/", b].concat());
                    }
                }
            });
            // any number of components, of any length
            let counts = ladder(ctx.pick(5000, 40_000));
            ctx.par("counts", counts.len(), |i, sh| {
                let n = counts[i];
                for part in [&b"a/"[..], b"./", b"/", b"a//", b"...", b"x"] {
                    let base = part.repeat(n);
                    for end in [&b""[..], b"..", b"/..", b"/../x"] {
                        check(sh, &[&base[..], end].concat());
                    }
                    check(sh, &[&b"../"[..], &base].concat());
                    check(sh, &[&b"/"[..], &base].concat());
                }
            });
            // very long paths
            ctx.par("depth", 600, |i, sh| {
                let mut p = b"a/".repeat(i);
                check(sh, &p);
                p.extend_from_slice(b"..");
                check(sh, &p);
                let q = [&b"./".repeat(i)[..], b"../x"].concat();
                check(sh, &q);
                check(sh, &b"x".repeat(i));
                check(sh, &b".".repeat(i));
            });
        },
    )
}

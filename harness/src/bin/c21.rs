//! C21: parameters behave as a byte-keyed map with faithful parsing.
use mc::gen::*;
use mc::*;
use rustful::context::{MaybeUtf8, MaybeUtf8Owned, MaybeUtf8Slice, Parameters};
use std::collections::hash_map::Entry;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::str::FromStr;

type Model = BTreeMap<Vec<u8>, Vec<u8>>;
const KEYS: [&[u8]; 4] = [b"a", b"", b"\xff", b"a\0"];
const VALS: [&[u8]; 4] = [b"1", b"", b"-3\xff", b"\xc3\xa9"];

fn text(b: &[u8]) -> Option<&str> {
    std::str::from_utf8(b).ok()
}
fn owned(b: &[u8], how: usize) -> MaybeUtf8Owned {
    match (how % 3, text(b)) {
        (0, Some(t)) => t.into(),
        (1, Some(t)) => t.to_string().into(),
        _ => b.to_vec().into(),
    }
}
fn raw(v: Option<MaybeUtf8Owned>) -> Option<Vec<u8>> {
    v.map(|v| v.into())
}
fn kv(k: usize) -> (usize, usize) {
    (k / VALS.len(), k % VALS.len())
}

const N: usize = KEYS.len();
const NV: usize = N * VALS.len();
/// insert, remove, entry, get_mut, extend, collect, convert
fn nops() -> usize {
    NV + N + NV + NV + N + N + 4 + NV + 8
}

fn op(mut k: usize, m: &mut Model, p: &mut Parameters) -> Result<String, String> {
    let eq = |what: &str, got: Option<Vec<u8>>, want: Option<Vec<u8>>| {
        if got == want {
            Ok(())
        } else {
            Err(format!("{} gave {:?} instead of {:?}", what, got.map(|v| esc(&v)), want.map(|v| esc(&v))))
        }
    };
    if k < NV {
        let (a, b) = kv(k);
        let old = match (k % 4, text(KEYS[a]), text(VALS[b])) {
            (0, Some(a), Some(b)) => p.insert(a, b),
            (1, Some(a), _) => p.insert(a.to_string(), VALS[b].to_vec()),
            (2, _, Some(b)) => p.insert(KEYS[a].to_vec(), b.to_string()),
            _ => p.insert(owned(KEYS[a], 2), owned(VALS[b], 2)),
        };
        eq("insert", raw(old), m.insert(KEYS[a].to_vec(), VALS[b].to_vec()))?;
        return Ok(format!("insert({},{})", esc(KEYS[a]), esc(VALS[b])));
    }
    k -= NV;
    if k < N {
        let old = match text(KEYS[k]) {
            Some(t) if k % 2 == 0 => p.remove(t),
            _ => p.remove(KEYS[k]),
        };
        eq("remove", raw(old), m.remove(KEYS[k]))?;
        return Ok(format!("remove({})", esc(KEYS[k])));
    }
    k -= N;
    if k < NV {
        let (a, b) = kv(k);
        let got: Vec<u8> = p.entry(owned(KEYS[a], k)).or_insert(owned(VALS[b], k)).to_vec();
        let want = m.entry(KEYS[a].to_vec()).or_insert(VALS[b].to_vec()).clone();
        eq("entry.or_insert", Some(got), Some(want))?;
        return Ok(format!("entry({}).or_insert({})", esc(KEYS[a]), esc(VALS[b])));
    }
    k -= NV;
    if k < NV {
        let (a, b) = kv(k);
        let had = m.insert(KEYS[a].to_vec(), VALS[b].to_vec());
        match p.entry(owned(KEYS[a], k + 1)) {
            Entry::Occupied(mut e) => eq("occupied entry", Some(e.insert(owned(VALS[b], k)).into()), had)?,
            Entry::Vacant(e) => {
                eq("vacant entry", None, had)?;
                e.insert(owned(VALS[b], k));
            }
        }
        return Ok(format!("entry({}).insert({})", esc(KEYS[a]), esc(VALS[b])));
    }
    k -= NV;
    if k < N {
        let had = m.remove(KEYS[k]);
        match p.entry(owned(KEYS[k], 0)) {
            Entry::Occupied(e) => eq("occupied entry", Some(e.remove().into()), had)?,
            Entry::Vacant(_) => eq("vacant entry", None, had)?,
        }
        return Ok(format!("entry({}).remove()", esc(KEYS[k])));
    }
    k -= N;
    if k < N {
        match (p.get_mut(KEYS[k]), m.get_mut(KEYS[k])) {
            (Some(a), Some(b)) => {
                a.push_byte(0xff);
                b.push(0xff);
            }
            (None, None) => {}
            (a, b) => return Err(format!("get_mut: {} instead of {}", a.is_some(), b.is_some())),
        }
        return Ok(format!("get_mut({}).push", esc(KEYS[k])));
    }
    k -= N;
    if k < 4 {
        // extend with two items, of which the second wins if the keys are the same
        let items: Vec<(Vec<u8>, Vec<u8>)> = match k {
            0 => vec![(b"a".to_vec(), b"x".to_vec()), (b"a".to_vec(), b"y".to_vec())],
            1 => vec![(b"\xff".to_vec(), b"x".to_vec()), (b"".to_vec(), b"\xfe".to_vec())],
            2 => vec![],
            _ => vec![(b"z".to_vec(), b"1".to_vec()), (b"a".to_vec(), b"2".to_vec()), (b"z".to_vec(), b"3".to_vec())],
        };
        p.extend(items.clone());
        m.extend(items);
        return Ok(format!("extend#{}", k));
    }
    k -= 4;
    if k < NV {
        // collected from what was there, followed by one more item
        let (a, b) = kv(k);
        let mut items: Vec<(MaybeUtf8Owned, MaybeUtf8Owned)> = std::mem::replace(p, Parameters::new()).into_iter().collect();
        items.push((owned(KEYS[a], k), owned(VALS[b], k)));
        *p = items.into_iter().collect();
        m.insert(KEYS[a].to_vec(), VALS[b].to_vec());
        return Ok(format!("collect(.., {}, {})", esc(KEYS[a]), esc(VALS[b])));
    }
    k -= NV;
    Ok(match k {
        0 => {
            p.clear();
            m.clear();
            "clear".into()
        }
        1 => {
            let c = p.clone();
            p.insert("a", "gone");
            *p = c;
            "clone".into()
        }
        2 => {
            let h: HashMap<MaybeUtf8Owned, MaybeUtf8Owned> = std::mem::replace(p, Parameters::default()).into();
            *p = h.into();
            "into map and back".into()
        }
        3 => {
            for (_, v) in &mut *p {
                v.push_char('!');
            }
            for v in m.values_mut() {
                v.push(b'!');
            }
            "iterate mutably".into()
        }
        4 => {
            p.as_mut().insert("m".into(), "m".into());
            m.insert(b"m".to_vec(), b"m".to_vec());
            "as_mut().insert".into()
        }
        5 => {
            p.retain(|k, _| k.is_empty());
            m.retain(|k, _| k.is_empty());
            "retain".into()
        }
        6 => {
            let mut d: Vec<(Vec<u8>, Vec<u8>)> = p.drain().map(|(k, v)| (k.into(), v.into())).collect();
            d.sort();
            let w: Vec<(Vec<u8>, Vec<u8>)> = std::mem::take(m).into_iter().collect();
            if d != w {
                return Err(format!("drain gave {:?} instead of {:?}", d, w));
            }
            "drain".into()
        }
        _ => {
            let other: Parameters = vec![("a", "9"), ("b", "8")].into_iter().collect();
            p.extend(other);
            m.insert(b"a".to_vec(), b"9".to_vec());
            m.insert(b"b".to_vec(), b"8".to_vec());
            "extend(parameters)".into()
        }
    })
}

fn parsed<T: FromStr + Debug + PartialEq + Clone>(p: &mut Parameters, key: &[u8], val: Option<&[u8]>, or: T) -> Result<(), String>
where
    T::Err: Debug,
{
    let want: Result<T, Option<T::Err>> = match val {
        None => Err(None),
        Some(v) => String::from_utf8_lossy(v).parse().map_err(Some),
    };
    let show = |r: &Result<T, Option<T::Err>>| format!("{:?}", r);
    let got: Result<T, Option<T::Err>> = p.parse(key);
    let name = std::any::type_name::<T>();
    if show(&got) != show(&want) {
        return Err(format!("parse::<{}> is {:?} instead of {:?}", name, got, want));
    }
    if let Some(t) = text(key) {
        let got: Result<T, Option<T::Err>> = p.parse(t);
        if show(&got) != show(&want) {
            return Err(format!("parse::<{}> by text is {:?} instead of {:?}", name, got, want));
        }
    }
    let got = p.parse_or(key, or.clone());
    let w = want.as_ref().map(|v| v.clone()).unwrap_or(or.clone());
    if format!("{:?}", got) != format!("{:?}", w) {
        return Err(format!("parse_or::<{}> is {:?} instead of {:?}", name, got, w));
    }
    let mut seen = None;
    let got: T = p.parse_or_else(key, |e| {
        seen = Some(format!("{:?}", e));
        or.clone()
    });
    let wseen = want.as_ref().err().map(|e| format!("{:?}", e));
    if format!("{:?}", got) != format!("{:?}", w) || seen != wseen {
        return Err(format!("parse_or_else::<{}> is {:?} after {:?} instead of {:?} after {:?}", name, got, seen, w, wseen));
    }
    Ok(())
}

fn look(p: &mut Parameters, m: &Model, key: &[u8]) -> Result<(), String> {
    let want = m.get(key);
    let lossy = want.map(|v| String::from_utf8_lossy(v).into_owned());
    macro_rules! by {
        ($k:expr, $what:expr) => {{
            if p.contains_key($k) != want.is_some() {
                return Err(format!("contains_key({} as {}) is wrong", esc(key), $what));
            }
            if p.get($k).map(|t| t.into_owned()) != lossy {
                return Err(format!("get({} as {}) is {:?} instead of {:?}", esc(key), $what, p.get($k), lossy));
            }
            if p.get_raw($k).map(|v| v.to_vec()) != want.cloned() {
                return Err(format!("get_raw({} as {}) is wrong", esc(key), $what));
            }
            if p.get_mut($k).map(|v| v.to_vec()) != want.cloned() {
                return Err(format!("get_mut({} as {}) is wrong", esc(key), $what));
            }
        }};
    }
    by!(key, "&[u8]");
    by!(&key.to_vec(), "Vec<u8>");
    by!(&key.to_vec().into_boxed_slice(), "Box<[u8]>");
    let o: MaybeUtf8Owned = key.to_vec().into();
    by!(&o, "MaybeUtf8Owned");
    let s: MaybeUtf8Slice = o.as_slice();
    by!(&s, "MaybeUtf8Slice");
    if let Some(t) = text(key) {
        by!(t, "&str");
        by!(&t.to_string(), "String");
    }
    if let Some(v) = p.get_raw(key) {
        if v.is_utf8() != text(want.unwrap()).is_some() {
            return Err(format!("{} lies about its encoding", esc(key)));
        }
    }
    let v = want.map(|v| &v[..]);
    parsed::<u8>(p, key, v, 200)?;
    parsed::<i64>(p, key, v, -7)?;
    parsed::<bool>(p, key, v, true)?;
    parsed::<String>(p, key, v, "or".into())?;
    parsed::<char>(p, key, v, 'o')?;
    Ok(())
}

fn whole(p: &mut Parameters, m: &Model) -> Result<(), String> {
    let list = |m: &Model| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>();
    let want = list(m);
    let mut a: Vec<(Vec<u8>, Vec<u8>)> = (&*p).into_iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
    a.sort();
    let mut b: Vec<(Vec<u8>, Vec<u8>)> = (&mut *p).into_iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
    b.sort();
    let mut c: Vec<(Vec<u8>, Vec<u8>)> = p.clone().into_iter().map(|(k, v)| (k.into(), v.into())).collect();
    c.sort();
    if a != want || b != want || c != want || p.len() != want.len() || p.is_empty() != want.is_empty() || p.as_ref().len() != want.len() {
        return Err(format!("the content is {:?} instead of {:?}", a, want));
    }
    let same: Parameters = want.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    if *p != same || p.clone() != *p {
        return Err("it differs from the same parameters".into());
    }
    let mut other = same.clone();
    other.insert("another", "");
    if *p == other {
        return Err("it equals other parameters".into());
    }
    if let Some((k, v)) = want.first() {
        let mut other = same.clone();
        other.insert(k.clone(), [&v[..], b"x"].concat());
        if *p == other {
            return Err("it equals parameters with another value".into());
        }
        let mut other = same;
        other.remove(k);
        if *p == other {
            return Err("it equals fewer parameters".into());
        }
    }
    Ok(())
}

/// Every way of putting something under keys, against the model.
fn ways(sh: &mut Shard, keys: &[Vec<u8>], val: &[u8]) -> Result<(), String> {
    for how in 0..9 {
        let (mut p, mut m) = (Parameters::new(), Model::new());
        let kv: Vec<(Vec<u8>, Vec<u8>)> = keys.iter().enumerate().map(|(j, k)| (k.clone(), [val, j.to_string().as_bytes()].concat())).collect();
        sh.trans(kv.len() as u64);
        match how {
            0 => {
                p.extend(kv.clone());
                m.extend(kv.clone());
            }
            1 => {
                p = kv.clone().into_iter().collect();
                m.extend(kv.clone());
            }
            2 => {
                p = kv.iter().map(|(k, v)| (owned(k, 0), owned(v, 1))).collect::<HashMap<MaybeUtf8Owned, MaybeUtf8Owned>>().into();
                m.extend(kv.clone());
            }
            3 => {
                let other: Parameters = kv.clone().into_iter().collect();
                p.extend(other);
                m.extend(kv.clone());
            }
            _ => {
                for (j, (k, v)) in kv.iter().enumerate() {
                    let had = m.insert(k.clone(), v.clone());
                    match how {
                        4 => {
                            if p.entry(owned(k, j)).or_insert(owned(v, j)).to_vec() != *v {
                                return Err("entry.or_insert is wrong".into());
                            }
                        }
                        5 => match p.entry(owned(k, j)) {
                            Entry::Vacant(e) => {
                                e.insert(owned(v, j));
                            }
                            Entry::Occupied(_) => return Err("an entry is occupied".into()),
                        },
                        6 => {
                            p.as_mut().insert(owned(k, j), owned(v, j));
                        }
                        7 => {
                            p.insert(owned(k, j), owned(v, j + 1));
                        }
                        _ => {
                            p.insert(k.clone(), "");
                            match p.get_mut(&k[..]) {
                                Some(s) => s.push_bytes(v),
                                None => return Err("get_mut finds nothing".into()),
                            }
                        }
                    }
                    if had.is_some() {
                        return Err("a key is repeated".into());
                    }
                }
            }
        }
        for k in keys {
            look(&mut p, &m, k)?;
        }
        whole(&mut p, &m)?;
        // the second half goes again, in the ways there are
        for (j, (k, _)) in kv.iter().enumerate().skip(kv.len() / 2) {
            let want = m.remove(k);
            let got = match (how + j) % 2 {
                0 => raw(p.remove(&k[..])),
                _ => match p.entry(owned(k, j)) {
                    Entry::Occupied(e) => Some(e.remove().into()),
                    Entry::Vacant(_) => None,
                },
            };
            if got != want {
                return Err("a removed value is wrong".into());
            }
        }
        whole(&mut p, &m)?;
    }
    Ok(())
}

fn short(e: &str) -> String {
    norm(e.split(" is ").next().unwrap().split(" gave ").next().unwrap().split('(').next().unwrap())
}

fn main() {
    check_main(
        "C21",
        Level::ModelChecking,
        "every sequence of map operations up to a depth, with keys and values of text and non-text bytes given and looked up as every type, and every short text parsed as each of several types, against an ordered byte map",
        |ctx| {
            let n = nops();
            let depth = ctx.pick(3, 4);
            ctx.par("operations", strings_upto(n, depth), |i, sh| {
                let ops = string_at(n, i);
                sh.trans(ops.len() as u64);
                sh.trace();
                let mut names = vec![];
                let r = catch(|| {
                    let mut m = Model::new();
                    let mut p = Parameters::new();
                    for &k in &ops {
                        let t = op(k, &mut m, &mut p)?;
                        if ops.len() < 3 {
                            names.push(t);
                        }
                    }
                    sh.state(&m);
                    for k in KEYS {
                        look(&mut p, &m, k)?;
                    }
                    look(&mut p, &m, b"missing")?;
                    whole(&mut p, &m)
                })
                .and_then(|r: Result<_, String>| r);
                if let Err(e) = r {
                    sh.violation(format!("operations:{}", short(&e)), format!("{:?} {:?}: {}", ops, names, e));
                }
                sh.sample(|| names.join(", "));
            });
            // what parses, as what
            let alpha: [&[u8]; 14] = [b"0", b"1", b"2", b"5", b"9", b"-", b"+", b".", b" ", b"e", b"true", b"x", b"\xff", b"\xc3\xa9"];
            let len = ctx.pick(4, 5);
            ctx.par("parsing", strings_upto(alpha.len(), len), |i, sh| {
                let v: Vec<u8> = string_at(alpha.len(), i).iter().flat_map(|&k| alpha[k].to_vec()).collect();
                sh.add_states(1);
                sh.trans(9);
                sh.trace();
                let r = catch(|| {
                    let mut p = Parameters::new();
                    p.insert("k", v.clone());
                    p.insert("other", "1");
                    let o = Some(&v[..]);
                    parsed::<u8>(&mut p, b"k", o, 77)?;
                    parsed::<i8>(&mut p, b"k", o, 77)?;
                    parsed::<u64>(&mut p, b"k", o, 77)?;
                    parsed::<i32>(&mut p, b"k", o, 77)?;
                    parsed::<f64>(&mut p, b"k", o, 7.5)?;
                    parsed::<bool>(&mut p, b"k", o, true)?;
                    parsed::<bool>(&mut p, b"k", o, false)?;
                    parsed::<char>(&mut p, b"k", o, 'z')?;
                    parsed::<String>(&mut p, b"k", o, "or".into())?;
                    parsed::<u8>(&mut p, b"missing", None, 77)?;
                    Ok(())
                })
                .and_then(|r: Result<_, String>| r);
                if let Err(e) = r {
                    sh.violation(format!("parsing:{}", short(&e)), format!("{}: {}", esc(&v), e));
                }
            });
            // keys and values of any length
            let lens = ladder(ctx.pick(2000, 20_000));
            let units: [&[u8]; 5] = [b"a", b"0", b"\xc3\xa9", b"\xff", b" "];
            ctx.par("lengths", lens.len() * units.len(), |i, sh| {
                let (n, u) = (lens[i / units.len()], units[i % units.len()]);
                let long = u.repeat(n);
                sh.add_states(1);
                sh.trace();
                let r = catch(|| {
                    let mut p = Parameters::new();
                    let mut m = Model::new();
                    let mut keys = vec![long.clone(), [&long[..], b"x"].concat(), [&long[..], b"y"].concat(), [b"x", &long[..]].concat(), [&long[..], b"\xff"].concat()];
                    keys.sort();
                    keys.dedup();
                    for (j, k) in keys.iter().enumerate() {
                        let v = [&long[..], j.to_string().as_bytes()].concat();
                        sh.trans(1);
                        if raw(p.insert(k.clone(), v.clone())) != m.insert(k.clone(), v) {
                            return Err("insert".to_string());
                        }
                    }
                    for k in &keys {
                        look(&mut p, &m, k)?;
                    }
                    look(&mut p, &m, &[&long[..], b"z"].concat())?;
                    whole(&mut p, &m)?;
                    ways(sh, &keys, &long)?;
                    // digits, padded with zeroes or spaces
                    for v in [[&long[..], b"7"].concat(), [b"7", &long[..]].concat(), [b"-", &long[..], b"1"].concat(), [&long[..], b"true"].concat(), [b"0.", &long[..], b"1"].concat()] {
                        p.insert("num", v.clone());
                        let o = Some(&v[..]);
                        parsed::<u8>(&mut p, b"num", o, 77)?;
                        parsed::<i64>(&mut p, b"num", o, 77)?;
                        parsed::<u128>(&mut p, b"num", o, 77)?;
                        parsed::<f64>(&mut p, b"num", o, 7.5)?;
                        parsed::<bool>(&mut p, b"num", o, false)?;
                        parsed::<String>(&mut p, b"num", o, "or".into())?;
                    }
                    p.remove("num");
                    for k in &keys {
                        if raw(p.remove(k)) != m.remove(k) {
                            return Err("remove".to_string());
                        }
                        whole(&mut p, &m)?;
                    }
                    Ok(())
                })
                .and_then(|r: Result<_, String>| r);
                if let Err(e) = r {
                    sh.violation(format!("lengths:{}", short(&e)), format!("{} times {}: {}", n, esc(u), &e[..e.len().min(400)]));
                }
            });
            // the same key any number of times, among any number of others
            let counts = ladder(ctx.pick(400, 2000));
            ctx.par("counts", counts.len() * 3, |i, sh| {
                let (n, how) = (counts[i / 3], i % 3);
                sh.add_states(1);
                sh.trace();
                let r = catch(|| {
                    let pairs: Vec<(String, String)> = (0..n).map(|j| (match how { 0 => "k".into(), 1 => format!("k{}", j), _ => format!("k{}", j % 7) }, j.to_string())).collect();
                    let m: Model = pairs.iter().map(|(k, v)| (k.clone().into_bytes(), v.clone().into_bytes())).collect();
                    let mut ps: Vec<Parameters> = vec![pairs.clone().into_iter().collect(), Parameters::new(), Parameters::new()];
                    for (k, v) in &pairs {
                        ps[1].insert(k.clone(), v.clone());
                    }
                    ps[2].extend(pairs.clone());
                    for p in &mut ps {
                        sh.trans(n as u64);
                        whole(p, &m)?;
                        look(p, &m, b"k")?;
                        look(p, &m, b"k0")?;
                        look(p, &m, format!("k{}", n.max(1) - 1).as_bytes())?;
                    }
                    Ok(())
                })
                .and_then(|r: Result<_, String>| r);
                if let Err(e) = r {
                    sh.violation(format!("counts:{}", short(&e)), format!("{} pairs, kind {}: {}", n, how, &e[..e.len().min(400)]));
                }
            });
            // what the code mentions, as keys and as values, and its numbers as values
            let words = dict::forms();
            let texts: Vec<Vec<u8>> = dict::numbers().iter().flat_map(|&n| [n.wrapping_sub(1), n, n.wrapping_add(1)]).flat_map(|n| [format!("{}", n), format!("-{}", n), format!("+{}", n), format!("0{}", n), format!("{}.0", n), format!("0x{:x}", n)]).map(|s| s.into_bytes()).collect();
            ctx.par("words", words.len() + texts.len(), |i, sh| {
                let w = if i < words.len() { &words[i] } else { &texts[i - words.len()] };
                sh.add_states(1);
                sh.trans(9);
                sh.trace();
                let r = catch(|| {
                    let mut p = Parameters::new();
                    let mut m = Model::new();
                    let near = [w.clone(), w.to_ascii_uppercase(), w.to_ascii_lowercase(), [&w[..], b" "].concat(), [b" ", &w[..]].concat(), [&w[..], b"\0"].concat(), [&w[..], b"\xff"].concat(), w[..w.len() - 1].to_vec(), vec![]];
                    for (j, k) in near.iter().enumerate() {
                        let old = match (j % 2, text(k)) {
                            (0, Some(t)) => p.insert(t, w.clone()),
                            _ => p.insert(k.clone(), owned(w, j)),
                        };
                        if raw(old) != m.insert(k.clone(), w.clone()) {
                            return Err("insert".to_string());
                        }
                        look(&mut p, &m, k)?;
                        look(&mut p, &m, w)?;
                    }
                    whole(&mut p, &m)?;
                    for k in &near {
                        p.insert("value", k.clone());
                        let o = Some(&k[..]);
                        parsed::<u8>(&mut p, b"value", o, 77)?;
                        parsed::<i8>(&mut p, b"value", o, 77)?;
                        parsed::<u16>(&mut p, b"value", o, 77)?;
                        parsed::<i32>(&mut p, b"value", o, 77)?;
                        parsed::<u64>(&mut p, b"value", o, 77)?;
                        parsed::<i128>(&mut p, b"value", o, 77)?;
                        parsed::<f64>(&mut p, b"value", o, 7.5)?;
                        parsed::<bool>(&mut p, b"value", o, true)?;
                        parsed::<char>(&mut p, b"value", o, 'z')?;
                        parsed::<String>(&mut p, b"value", o, "or".into())?;
                    }
                    p.remove("value");
                    for k in &near {
                        let got = match text(k) {
                            Some(t) => p.remove(t),
                            None => p.remove(k),
                        };
                        if raw(got) != m.remove(k) {
                            return Err("remove".to_string());
                        }
                        look(&mut p, &m, k)?;
                        look(&mut p, &m, w)?;
                    }
                    whole(&mut p, &m)?;
                    // by way of the other constructions
                    let pairs: Vec<(Vec<u8>, Vec<u8>)> = near.iter().map(|k| (k.clone(), w.clone())).collect();
                    let m: Model = pairs.iter().cloned().collect();
                    let mut p: Parameters = pairs.clone().into_iter().collect();
                    whole(&mut p, &m)?;
                    let mut p = Parameters::new();
                    p.extend(pairs);
                    whole(&mut p, &m)?;
                    let h: HashMap<MaybeUtf8Owned, MaybeUtf8Owned> = p.into();
                    whole(&mut h.into(), &m)?;
                    let mut near = near.to_vec();
                    near.sort();
                    near.dedup();
                    ways(sh, &near, w)
                })
                .and_then(|r: Result<_, String>| r);
                if let Err(e) = r {
                    sh.violation(format!("words:{}", short(&e)), format!("{}: {}", esc(w), &e[..e.len().min(400)]));
                }
            });
            // many keys at once: all byte strings up to a length
            ctx.seq("many", 1, |_, sh| {
                let mut p = Parameters::new();
                let mut m = Model::new();
                let n = 20_000;
                for i in 0..n {
                    let k: Vec<u8> = string_at(256, i).iter().map(|&c| c as u8).collect();
                    let v = vec![(i % 256) as u8; i % 3];
                    sh.tick();
                    sh.add_states(1);
                    sh.trans(1);
                    if raw(p.insert(k.clone(), v.clone())) != m.insert(k, v) {
                        sh.violation("many:insert", format!("inserting key {}", i));
                    }
                }
                for (k, v) in &m {
                    sh.trace();
                    if p.get_raw(k) != Some(&MaybeUtf8::from(v.clone())) {
                        sh.violation("many:get", esc(k));
                    }
                }
                let n2 = p.len();
                for i in (0..n).filter(|i| i % 3 == 0) {
                    let k: Vec<u8> = string_at(256, i).iter().map(|&c| c as u8).collect();
                    if raw(p.remove(&k)) != m.remove(&k) {
                        sh.violation("many:remove", esc(&k));
                    }
                }
                if n2 != n || p.len() != m.len() {
                    sh.violation("many:len", format!("{} and {}", n2, p.len()));
                }
                for (k, v) in &m {
                    if p.get_raw(k) != Some(&MaybeUtf8::from(v.clone())) {
                        sh.violation("many:get", esc(k));
                    }
                }
            });
        },
    )
}

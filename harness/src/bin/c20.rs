//! C20: global data holds the last value of each type.
use mc::gen::*;
use mc::*;
use rustful::server::Global;
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;

thread_local! {
    // how many times the value with each number was dropped
    static DROPS: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
    static ZST: RefCell<(u32, u32)> = const { RefCell::new((0, 0)) };
}
fn fresh() -> usize {
    DROPS.with(|d| {
        d.borrow_mut().push(0);
        d.borrow().len() - 1
    })
}
fn reset() {
    DROPS.with(|d| d.borrow_mut().clear());
    ZST.with(|z| *z.borrow_mut() = (0, 0));
}
fn all_dropped_once() -> Result<(), String> {
    DROPS.with(|d| match d.borrow().iter().position(|&n| n != 1) {
        Some(i) => Err(format!("value {} was dropped {} times", i, d.borrow()[i])),
        None => Ok(()),
    })?;
    ZST.with(|z| if z.borrow().0 == z.borrow().1 { Ok(()) } else { Err(format!("{} empty values made, {} dropped", z.borrow().0, z.borrow().1)) })
}
fn dropped(i: usize) -> bool {
    DROPS.with(|d| d.borrow()[i] > 0)
}

/// Types of different sizes, each value known by its number.
struct D<const N: usize> {
    pad: [u16; N],
    id: usize,
}
impl<const N: usize> D<N> {
    fn new() -> D<N> {
        D { pad: [N as u16; N], id: fresh() }
    }
}
impl<const N: usize> Drop for D<N> {
    fn drop(&mut self) {
        assert!(self.pad.iter().all(|&p| p as usize == N), "a value of another type is dropped");
        DROPS.with(|d| d.borrow_mut()[self.id] += 1);
    }
}
struct Z;
impl Z {
    fn new() -> Z {
        ZST.with(|z| z.borrow_mut().0 += 1);
        Z
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        ZST.with(|z| z.borrow_mut().1 += 1);
    }
}
#[repr(align(64))]
struct Aligned(usize);
impl Drop for Aligned {
    fn drop(&mut self) {
        DROPS.with(|d| d.borrow_mut()[self.0] += 1);
    }
}

/// Every type that takes part, by number.
trait Kind: Any + Send + Sync {
    fn make() -> (usize, Self);
    fn number(&self) -> usize;
}
impl<const N: usize> Kind for D<N> {
    fn make() -> (usize, Self) {
        let v = D::new();
        (v.id, v)
    }
    fn number(&self) -> usize {
        assert!(self.pad.iter().all(|&p| p as usize == N), "not a value of this type");
        self.id
    }
}
impl Kind for Z {
    fn make() -> (usize, Self) {
        (0, Z::new())
    }
    fn number(&self) -> usize {
        0
    }
}
impl Kind for Aligned {
    fn make() -> (usize, Self) {
        let i = fresh();
        (i, Aligned(i))
    }
    fn number(&self) -> usize {
        assert!(self as *const _ as usize % 64 == 0, "misaligned");
        self.0
    }
}
impl Kind for u32 {
    fn make() -> (usize, Self) {
        let i = fresh();
        DROPS.with(|d| d.borrow_mut()[i] = 1);
        (i, i as u32)
    }
    fn number(&self) -> usize {
        *self as usize
    }
}
impl Kind for i32 {
    fn make() -> (usize, Self) {
        let i = fresh();
        DROPS.with(|d| d.borrow_mut()[i] = 1);
        (i, i as i32)
    }
    fn number(&self) -> usize {
        *self as usize
    }
}
impl Kind for Box<D<1>> {
    fn make() -> (usize, Self) {
        let v = Box::new(D::new());
        (v.id, v)
    }
    fn number(&self) -> usize {
        self.id
    }
}

const TYPES: usize = 8;
macro_rules! by_type {
    ($k:expr, $f:ident($($a:expr),*)) => {
        match $k {
            0 => $f::<D<0>>($($a),*),
            1 => $f::<D<1>>($($a),*),
            2 => $f::<Z>($($a),*),
            3 => $f::<D<5>>($($a),*),
            4 => $f::<Box<D<1>>>($($a),*),
            5 => $f::<Aligned>($($a),*),
            6 => $f::<u32>($($a),*),
            _ => $f::<i32>($($a),*),
        }
    };
}

fn insert<T: Kind>(g: &mut Global) -> (usize, Option<usize>) {
    let (id, v) = T::make();
    let old = g.insert(v);
    let n = old.as_ref().map(|o| o.number());
    (id, n)
}
fn get<T: Kind>(g: &Global) -> Option<usize> {
    g.get::<T>().map(|v| v.number())
}
fn boxed<T: Kind>() -> (usize, Global) {
    let (id, v) = T::make();
    (id, Box::new(v).into())
}
fn single<T: Kind>() -> (usize, Global) {
    let (id, v) = T::make();
    (id, (v,).into())
}
fn pair<A: Kind>(b: usize) -> (usize, usize, Global) {
    fn go<A: Kind, B: Kind>() -> (usize, usize, Global) {
        let (i, a) = A::make();
        let (j, b) = B::make();
        (i, j, (a, b).into())
    }
    match b {
        0 => go::<A, D<0>>(),
        1 => go::<A, D<1>>(),
        2 => go::<A, Z>(),
        3 => go::<A, D<5>>(),
        4 => go::<A, Box<D<1>>>(),
        5 => go::<A, Aligned>(),
        6 => go::<A, u32>(),
        _ => go::<A, i32>(),
    }
}

fn start(k: usize, m: &mut BTreeMap<usize, usize>) -> Global {
    match k {
        0 => Global::default(),
        1 => ().into(),
        k if k < 2 + TYPES => {
            let (i, g) = by_type!(k - 2, boxed());
            m.insert(k - 2, i);
            g
        }
        k if k < 2 + 2 * TYPES => {
            let (i, g) = by_type!(k - 2 - TYPES, single());
            m.insert(k - 2 - TYPES, i);
            g
        }
        k => {
            let k = k - 2 - 2 * TYPES;
            let (a, b) = (k / TYPES, k % TYPES);
            let (i, j, g) = by_type!(a, pair(b));
            m.insert(a, i);
            m.insert(b, j);
            g
        }
    }
}
const STARTS: usize = 2 + 2 * TYPES + TYPES * TYPES;

fn agrees(g: &Global, m: &BTreeMap<usize, usize>) -> Result<(), String> {
    for k in 0..TYPES {
        let got = by_type!(k, get(g));
        if got != m.get(&k).cloned() {
            return Err(format!("type {} is {:?} instead of {:?}", k, got, m.get(&k)));
        }
        if let Some(&i) = m.get(&k) {
            if k != 2 && k < 6 && dropped(i) {
                return Err(format!("the stored value of type {} was dropped", k));
            }
        }
    }
    if g.get::<D<40>>().is_some() || g.get::<String>().is_some() || g.get::<()>().is_some() || g.get::<Box<dyn Any + Send + Sync>>().is_some() || g.get::<D<2>>().is_some() {
        return Err("there is a value of a type that was never stored".into());
    }
    Ok(())
}

macro_rules! tuple_fns {
    ($([$($n:literal)+])+) => {
        fn tuples() -> Vec<(&'static [usize], fn() -> (Vec<usize>, Global))> {
            vec![$({
                fn f() -> (Vec<usize>, Global) {
                    let mut ids = vec![];
                    let t = ($({ let v = D::<$n>::new(); ids.push(v.id); v },)+);
                    let g: Global = t.into();
                    (ids, g)
                }
                (&[$($n),+][..], f as fn() -> (Vec<usize>, Global))
            }),+]
        }
    };
}
mc::all_tuples!(tuple_fns);

fn get12(k: usize, g: &Global) -> Option<usize> {
    macro_rules! m { ($($n:literal)+) => { match k { $($n => get::<D<$n>>(g),)+ _ => None } } }
    m!(0 1 2 3 4 5 6 7 8 9 10 11 12)
}
fn insert12(k: usize, g: &mut Global) -> (usize, Option<usize>) {
    macro_rules! m { ($($n:literal)+) => { match k { $($n => insert::<D<$n>>(g),)+ _ => unreachable!() } } }
    m!(0 1 2 3 4 5 6 7 8 9 10 11 12)
}

/// As many types as one likes.
fn crowd() -> Vec<(fn(&mut Global) -> (usize, Option<usize>), fn(&Global) -> Option<usize>)> {
    macro_rules! m { ($($n:literal)+) => { vec![$((insert::<D<$n>> as fn(&mut Global) -> (usize, Option<usize>), get::<D<$n>> as fn(&Global) -> Option<usize>)),+] } }
    m!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149)
}

type SizedType = (fn(&mut Global) -> (usize, Option<usize>), fn(&Global) -> Option<usize>, fn() -> (usize, Global), usize);
fn sized() -> Vec<SizedType> {
    macro_rules! m { ($($n:literal)+) => { vec![$((insert::<D<$n>> as fn(&mut Global) -> (usize, Option<usize>), get::<D<$n>> as fn(&Global) -> Option<usize>, single::<D<$n>> as fn() -> (usize, Global), $n)),+] } }
    m!(0 1 3 4 7 8 12 16 28 31 32 60 63 64 100 124 127 128 252 255 256 257 500 508 511 512 1000 1020 1024 2044 2048 4092 4096 8192 16380 16384 32768)
}

fn main() {
    check_main(
        "C20",
        Level::ModelChecking,
        "every construction and every sequence of insertions up to a depth over types of different size, alignment and drop behaviour, and every shape of tuple up to twelve values with repeated types, against a map from type to value with drop accounting",
        |ctx| {
            let depth = ctx.pick(4, 6);
            let total = strings_upto(TYPES, depth);
            ctx.par("histories", total * STARTS, |i, sh| {
                let ops = string_at(TYPES, i / STARTS);
                sh.trans(ops.len() as u64 + 1);
                sh.trace();
                reset();
                let r = catch(|| {
                    let mut m = BTreeMap::new();
                    let mut g = start(i % STARTS, &mut m);
                    agrees(&g, &m)?;
                    for &k in &ops {
                        let (id, old) = by_type!(k, insert(&mut g));
                        let want = m.insert(k, id);
                        if old != want {
                            return Err(format!("inserting type {} returned {:?} instead of {:?}", k, old, want));
                        }
                        if let Some(o) = old {
                            if k != 2 && !dropped(o) {
                                return Err(format!("the replaced value of type {} lives on", k));
                            }
                        }
                        agrees(&g, &m)?;
                    }
                    let key: Vec<usize> = m.keys().cloned().collect();
                    if i % 2 == 0 {
                        // moved to another place and dropped there
                        let b = Box::new(g);
                        agrees(&b, &m)?;
                        drop(b);
                    } else {
                        drop(g);
                    }
                    all_dropped_once()?;
                    Ok((key, i % STARTS))
                })
                .and_then(|r: Result<_, String>| r);
                match r {
                    Ok(k) => {
                        sh.state(&k);
                    }
                    Err(e) => sh.violation(format!("histories:{}", norm(&e)), format!("start {}, insertions {:?}: {}", i % STARTS, ops, e)),
                }
            });
            // of all sizes
            let sizes = sized();
            ctx.par("sizes", sizes.len() * sizes.len(), |i, sh| {
                let (a, b) = (sizes[i % sizes.len()], sizes[i / sizes.len()]);
                reset();
                sh.add_states(1);
                sh.trans(6);
                sh.trace();
                let r = catch(|| {
                    for from_tuple in [false, true] {
                        let (mut g, first) = if from_tuple {
                            let (id, g) = (a.2)();
                            (g, id)
                        } else {
                            let mut g = Global::default();
                            let (id, old) = (a.0)(&mut g);
                            if old.is_some() {
                                return Err("something was there before".to_string());
                            }
                            (g, id)
                        };
                        let (second, old) = (b.0)(&mut g);
                        if old != if a.3 == b.3 { Some(first) } else { None } {
                            return Err(format!("inserting the second returned {:?}", old));
                        }
                        let (third, old) = (a.0)(&mut g);
                        if old != Some(if a.3 == b.3 { second } else { first }) {
                            return Err(format!("inserting the third returned {:?}", old));
                        }
                        if (a.1)(&g) != Some(third) || (b.1)(&g) != Some(if a.3 == b.3 { third } else { second }) {
                            return Err("not the last ones".to_string());
                        }
                    }
                    all_dropped_once()
                })
                .and_then(|r: Result<(), String>| r);
                if let Err(e) = r {
                    sh.violation(format!("sizes:{}", norm(&e)), format!("types of {} and {} numbers: {}", a.3, b.3, e));
                }
            });
            let ts = tuples();
            ctx.par("tuples", ts.len() * 14, |i, sh| {
                let (shape, f) = ts[i / 14];
                reset();
                sh.add_states(1);
                sh.trans(1);
                sh.trace();
                sh.sample(|| format!("{:?}", shape));
                let r = catch(|| {
                    let (ids, mut g) = f();
                    let mut m: BTreeMap<usize, usize> = shape.iter().cloned().zip(ids).collect();
                    let look = |g: &Global, m: &BTreeMap<usize, usize>| {
                        for k in 0..=12 {
                            if get12(k, g) != m.get(&k).cloned() {
                                return Err(format!("type {} is {:?} instead of {:?}", k, get12(k, g), m.get(&k)));
                            }
                            if m.get(&k).map_or(false, |&i| dropped(i)) {
                                return Err(format!("the value of type {} was dropped", k));
                            }
                        }
                        Ok(())
                    };
                    look(&g, &m)?;
                    if i % 14 > 0 {
                        let k = i % 14 - 1;
                        let (id, old) = insert12(k, &mut g);
                        if old != m.insert(k, id) {
                            return Err(format!("inserting type {} returned {:?}", k, old));
                        }
                        look(&g, &m)?;
                    }
                    drop(g);
                    all_dropped_once()
                })
                .and_then(|r: Result<_, String>| r);
                if let Err(e) = r {
                    sh.violation(format!("tuples:{}", norm(&e)), format!("tuple of types {:?}, then {}: {}", shape, i % 14, e));
                }
            });
            // many types at once, in every rotation, each inserted twice
            ctx.par("many", 13 * 13, |i, sh| {
                let (rot, step) = (i % 13, i / 13);
                reset();
                sh.add_states(1);
                sh.trans(26);
                sh.trace();
                let r = catch(|| {
                    let mut g = Global::default();
                    let mut m = BTreeMap::new();
                    for n in 0..26 {
                        let k = (rot + n * (step.max(1))) % 13;
                        let (id, old) = insert12(k, &mut g);
                        if old != m.insert(k, id) {
                            return Err(format!("inserting type {} returned {:?}", k, old));
                        }
                        for k in 0..=12 {
                            if get12(k, &g) != m.get(&k).cloned() {
                                return Err(format!("type {} is {:?} instead of {:?}", k, get12(k, &g), m.get(&k)));
                            }
                        }
                    }
                    drop(g);
                    all_dropped_once()
                })
                .and_then(|r: Result<_, String>| r);
                if let Err(e) = r {
                    sh.violation(format!("many:{}", norm(&e)), format!("rotation {} step {}: {}", rot, step, e));
                }
            });
            // any number of types, in several orders, then everything once more
            let crowd = crowd();
            ctx.par("crowd", crowd.len() * 4, |i, sh| {
                let (n, how) = (1 + i / 4, i % 4);
                let place = |j: usize| match how {
                    0 => j,
                    1 => n - 1 - j,
                    2 => if j % 2 == 0 { j / 2 } else { n - 1 - j / 2 },
                    _ => (0..n).min_by_key(|&x| (x * 7919 + j * 0) % 10007 * 1000 + x).map_or(0, |f| (f + j) % n),
                };
                reset();
                sh.add_states(1);
                sh.trans(2 * n as u64);
                sh.trace();
                let r = catch(|| {
                    let mut g = Global::default();
                    let mut m: BTreeMap<usize, usize> = BTreeMap::new();
                    for round in 0..2 {
                        for j in 0..n {
                            let k = place(j);
                            let (id, old) = crowd[k].0(&mut g);
                            if old != m.insert(k, id) {
                                return Err(format!("inserting type {} in round {} returned {:?}", k, round, old));
                            }
                        }
                        for (k, c) in crowd.iter().enumerate() {
                            if c.1(&g) != m.get(&k).cloned() {
                                return Err(format!("type {} is {:?} instead of {:?}", k, c.1(&g), m.get(&k)));
                            }
                        }
                    }
                    drop(g);
                    all_dropped_once()
                })
                .and_then(|r: Result<_, String>| r);
                if let Err(e) = r {
                    sh.violation(format!("crowd:{}", norm(&e)), format!("{} types in order {}: {}", n, how, e));
                }
            });
            // what handlers and filters see of it in a running server
            ctx.seq("in-a-server", STARTS, |i, sh| {
                reset();
                sh.add_states(1);
                sh.trans(1);
                sh.trace();
                let r = catch(|| {
                    let mut m = BTreeMap::new();
                    let g = start(i, &mut m);
                    let seen = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
                    let s2 = seen.clone();
                    let mut cfg = mc::srv::config(move |c: rustful::Context, _r: rustful::Response| {
                        let v: Vec<Option<usize>> = (0..TYPES).map(|k| by_type!(k, get(c.global))).collect();
                        s2.lock().unwrap().push(v);
                    });
                    cfg.global = g;
                    struct F(std::sync::Arc<std::sync::Mutex<Vec<Vec<Option<usize>>>>>);
                    impl rustful::filter::ContextFilter for F {
                        fn modify(&self, f: rustful::filter::FilterContext, c: &mut rustful::Context) -> rustful::filter::ContextAction {
                            self.0.lock().unwrap().push((0..TYPES).map(|k| by_type!(k, get(f.global))).collect());
                            self.0.lock().unwrap().push((0..TYPES).map(|k| by_type!(k, get(c.global))).collect());
                            rustful::filter::ContextAction::next()
                        }
                    }
                    impl rustful::filter::ResponseFilter for F {
                        fn begin(&self, f: rustful::filter::FilterContext, s: rustful::StatusCode, _: &mut rustful::header::Headers) -> (rustful::StatusCode, rustful::filter::ResponseAction) {
                            self.0.lock().unwrap().push((0..TYPES).map(|k| by_type!(k, get(f.global))).collect());
                            (s, rustful::filter::ResponseAction::Next(None))
                        }
                        fn write<'a>(&'a self, f: rustful::filter::FilterContext, c: Option<rustful::response::Data<'a>>) -> rustful::filter::ResponseAction<'a> {
                            self.0.lock().unwrap().push((0..TYPES).map(|k| by_type!(k, get(f.global))).collect());
                            rustful::filter::ResponseAction::next(c)
                        }
                        fn end(&self, f: rustful::filter::FilterContext) -> rustful::filter::ResponseAction {
                            self.0.lock().unwrap().push((0..TYPES).map(|k| by_type!(k, get(f.global))).collect());
                            rustful::filter::ResponseAction::Next(None)
                        }
                    }
                    cfg.context_filters.push(Box::new(F(seen.clone())));
                    cfg.response_filters.push(Box::new(F(seen.clone())));
                    let inst = cfg.build();
                    mc::srv::talk(&inst, b"GET / HTTP/1.1\r\nHost: x\r\n\r\nGET / HTTP/1.1\r\nHost: x\r\n\r\n");
                    drop(inst);
                    all_dropped_once()?;
                    let want: Vec<Option<usize>> = (0..TYPES).map(|k| m.get(&k).cloned()).collect();
                    let seen = seen.lock().unwrap();
                    if seen.len() < 10 {
                        return Err(format!("only {} looks", seen.len()));
                    }
                    match seen.iter().position(|s| *s != want) {
                        Some(n) => Err(format!("look {} saw {:?} instead of {:?}", n, seen[n], want)),
                        None => Ok(()),
                    }
                })
                .and_then(|r: Result<_, String>| r);
                if let Err(e) = r {
                    sh.violation(format!("in-a-server:{}", norm(&e)), format!("start {}: {}", i, e));
                }
            });
        },
    )
}

//! C05: composed routers fall back with the request intact.
use mc::compose::*;
use mc::composed::*;
use mc::gen::*;
use mc::routes::*;
use mc::*;


fn main() {
    check_main(
        "C05",
        Level::ModelChecking,
        "every router composition of the grammar up to the bound x every request; state = one composition",
        |ctx| {
            ctx.assume("where one tree has several matches rejecting with different statuses other than 404, any of those is accepted");
            ctx.assume("a variables router directly inside another one is not explored (the inner has no names)");
            let leaves = vec![T::H(0), T::None, T::Rej(403), T::Keep];
            let d1 = grow(&leaves, true);
            let mut d2 = d1.clone();
            d2.extend(ors(&leaves, &leaves));
            ctx.par("depth2", d2.len(), |i, sh| {
                everywhere(sh, &d2[i]);
                server(sh, &d2[i]);
            });
            let some: Vec<T> = grow(&leaves[..1], true).into_iter().chain(grow(&leaves[2..3], false)).chain(leaves.clone()).collect();
            let d3 = grow(&d2, false);
            ctx.par("depth3", d3.len(), |i, sh| everywhere(sh, &d3[i]));
            let n = d2.len();
            ctx.par("or", n * n, |i, sh| everywhere(sh, &T::Or(b(&d2[i % n]), b(&d2[i / n]))));
            let k = some.len();
            ctx.par("or-deep-left", d3.len() * k, |i, sh| direct(sh, &T::Or(b(&d3[i / k]), b(&some[i % k]))));
            let n1 = ctx.pick(some.len(), d2.len());
            ctx.par("or-or", n1 * k * k, |i, sh| {
                let mut d = Digits(i);
                let (x, y, z) = (d.take(n1), d.take(k), d.take(k));
                let x = if sh.thorough() { &d2[x] } else { &some[x] };
                direct(sh, &T::Or(b(&T::Or(b(x), b(&some[y]))), b(&some[z])));
                if sh.thorough() {
                    direct(sh, &T::Or(b(x), b(&T::Or(b(&some[y]), b(&some[z])))));
                }
            });
            // inside one node: alternatives of alternatives, under variables
            let small = small();
            let inner = ors(&small, &small);
            let m = inner.len();
            ctx.par("node-alternatives", m * m * 4 * 2, |i, sh| {
                let mut d = Digits(i);
                let (x, y, p, links) = (d.take(m), d.take(m), d.take(4), d.take(2) == 1);
                let (p, q) = [(":x", "a"), ("*y", ":x"), ("*y", "a/:z"), ("a", "*y")][p];
                direct(sh, &T::Tree(links, vec![(p, T::Vars(b(&inner[x]))), (q, T::Vars(b(&inner[y])))]));
            });
            // every status a router may be registered for, and every one it may find
            let statuses: Vec<u16> = (100..=103).chain(200..=208).chain([226, 227]).chain(300..=308).chain(400..=431).chain([451, 498, 499]).chain(500..=511).chain([599]).collect();
            let ns = statuses.len();
            ctx.par("statuses", ns * ns, |i, sh| {
                DEEP.with(|d| d.set(true));
                let (a, x) = (statuses[i / ns], statuses[i % ns]);
                let start = |s| Start { status: Some(s), ..Start::default() };
                let reqs = [("GET", "/")];
                direct_with(sh, &T::Status(vec![(a, T::H(1))]), &start(x), &reqs);
                // found after an alternative
                direct_with(sh, &T::Or(b(&T::Rej(x)), b(&T::Status(vec![(a, T::H(1)), (405, T::H(2))]))), &Start::default(), &reqs);
                direct_with(sh, &T::Or(b(&T::Method(vec![("POST", T::H(3))])), b(&T::Or(b(&T::Status(vec![(405, T::Rej(x)), (a, T::H(4))])), b(&T::Status(vec![(400, T::H(1)), (a, T::H(2)), (500, T::H(5))]))))), &Start::default(), &reqs);
                for y in [400, 404, 500, 599, 200] {
                    direct_with(sh, &T::Status(vec![(a, T::H(1)), (y, T::H(2))]), &start(x), &reqs);
                }
            });
            // every method a router may be registered for, and every one it may be asked for
            let methods = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "CONNECT", "TRACE", "PROPFIND", "get", "G", "GETS"];
            let nm = methods.len();
            ctx.par("methods", nm * nm * nm, |i, sh| {
                DEEP.with(|d| d.set(true));
                let mut d = Digits(i);
                let (x, y, m) = (methods[d.take(nm)], methods[d.take(nm)], methods[d.take(nm)]);
                let reqs = [(m, "/")];
                let both = T::Method(vec![(x, T::H(1)), (y, T::H(2))]);
                direct_with(sh, &both, &Start::default(), &reqs);
                for second in [T::Method(vec![(y, T::H(3))]), T::Status(vec![(405, T::H(4))]), T::Keep] {
                    direct_with(sh, &T::Or(b(&T::Method(vec![(x, T::H(1))])), b(&second)), &Start::default(), &reqs);
                    direct_with(sh, &T::Tree(true, vec![("", T::Or(b(&both), b(&second)))]), &Start::default(), &reqs);
                }
            });
            // methods of other names
            let names = dict::methods();
            ctx.par("method-words", names.len(), |i, sh| {
                DEEP.with(|d| d.set(true));
                let x: &'static str = Box::leak(names[i].clone().into_boxed_str());
                for m in [x, "GET", "X"] {
                    let reqs = [(m, "/")];
                    for second in [T::Method(vec![(x, T::H(3))]), T::Status(vec![(405, T::H(4))]), T::Keep] {
                        for first in ["GET", x] {
                            direct_with(sh, &T::Or(b(&T::Method(vec![(first, T::H(1))])), b(&second)), &Start::default(), &reqs);
                        }
                    }
                }
            });
            // long chains of alternatives
            ctx.par("chains", 80, |i, sh| {
                DEEP.with(|d| d.set(true));
                let n = i + 1;
                for last in [T::H(9), T::Keep, T::Status(vec![(403, T::H(8))]), T::Status(vec![(404, T::H(8))])] {
                    for link in [T::Rej(403), T::Keep, T::None, T::Method(vec![("POST", T::H(7))])] {
                        let mut right = last.clone();
                        for _ in 0..n {
                            right = T::Or(b(&link), b(&right));
                        }
                        let mut left = link.clone();
                        for _ in 1..n {
                            left = T::Or(b(&left), b(&link));
                        }
                        left = T::Or(b(&left), b(&last));
                        let mut opt = T::Or(b(&link), b(&last));
                        for _ in 0..n {
                            opt = T::Opt(b(&opt));
                        }
                        for t in [right, left, opt] {
                            direct_with(sh, &t, &Start::default(), &[("GET", "/"), ("POST", "/")]);
                        }
                    }
                }
            });
            // conformance with the whole server
            ctx.par("server", ctx.pick(k * k, n * k), |i, sh| {
                let x = if sh.thorough() { &d2[i / k] } else { &some[i / k] };
                server(sh, &T::Or(b(x), b(&some[i % k])))
            });
        },
    )
}

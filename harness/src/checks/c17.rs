//! Comparing two file texts: layout is ignored, content isn't.
use super::common::*;
use crate::core::*;
use crate::edit;
use crate::ensure;
use crate::gen::{self, Opt};
use crate::render::*;
use crate::rng::Rng;
use crate::sut;
use osu_file_parser as lib;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const C17: Check = Check {
    id: "C17",
    cases: (450_000, 5_000_000),
    rule: "a pair of texts given to the comparison: two layouts of the same content, two contents that differ in one place, or a file and what it's written as; distinct by the pair, non-trivial if the texts differ",
    assumptions: &[
        "sections keep their order, as the comparison is documented by lines",
        "byte order marks are at the start of the text, or inside of values where both texts have them",
        "the order of lines is only claimed to matter in sections that have a line without a colon",
    ],
    need: &[
        ("a key more than once", 1000),
        ("a bracket in a line", 1000),
        ("nothing before a colon", 1000),
        ("keys after lines without", 1000),
        ("same content", 24_000),
        ("written back", 10_000),
        ("other: value", 5000),
        ("other: lines swapped", 1500),
        ("other: order where a line has no colon", 50),
        ("other: line removed", 4000),
        ("other: line twice", 4000),
        ("other: values swapped", 1000),
        ("other: section renamed", 4000),
        ("other: space in a value", 4000),
        ("other: version", 2000),
        ("arbitrary texts", 12_000),
        ("assertion that failed", 20_000),
        ("assertion that held", 20_000),
    ],
    run,
    known: None,
    exhaustive: false,
};

fn asserted(cx: &mut Cx, a: &str, b: &str, equal: bool) -> Res {
    let ok = catch_unwind(AssertUnwindSafe(|| lib::assert_eq_osu_str(a, b))).is_ok();
    ensure!(ok == equal, "the assertion {}, but the texts {}", if ok { "holds" } else { "fails" }, if equal { "are equal" } else { "differ" });
    cx.count(if ok { "assertion that held" } else { "assertion that failed" });
    Ok(())
}

/// What has to hold of every pair; gives whether they are equal.
fn pair(cx: &mut Cx, a: &str, b: &str, idempotent: bool) -> Result<bool, Fail> {
    let eq = lib::osu_str_eq(a, b);
    ensure!(eq == lib::osu_str_eq(b, a), "the comparison isn't symmetric");
    ensure!(lib::osu_str_eq(a, a) && lib::osu_str_eq(b, b), "a text isn't equal to itself");
    let (ta, tb) = (lib::osu_str_trimmer(a), lib::osu_str_trimmer(b));
    ensure!(eq == (ta == tb), "the comparison says {eq}, the trimmed texts {}", ta == tb);
    if idempotent {
        ensure!(lib::osu_str_trimmer(&ta) == ta, "trimming again changes the text:\n{ta}\n/\n{}", lib::osu_str_trimmer(&ta));
        ensure!(lib::osu_str_eq(a, &ta), "a text isn't equal to itself trimmed");
    }
    asserted(cx, a, b, eq)?;
    Ok(eq)
}

fn layout(r: &mut Rng) -> Layout {
    if r.chance(25) {
        return Layout::writer();
    }
    Layout { shuffle_sections: false, underscore: false, ..Layout::random(r) }
}

fn plain_chars(s: &str) -> String {
    s.chars().filter(char::is_ascii_alphanumeric).collect()
}

/// Changes the content in one place; gives what was done.
fn change(r: &mut Rng, s: &mut Vec<Sect>) -> Option<&'static str> {
    if s.is_empty() {
        return None;
    }
    let si = r.below(s.len());
    let n = s[si].lines.len();
    let solid = |l: &str| !plain_chars(l).is_empty();
    match r.below(6) {
        0 => {
            // one line without a colon is enough for the order to count
            let free: Vec<usize> = (0..n).filter(|i| solid(&s[si].lines[*i])).collect();
            if free.len() < 2 || !s[si].lines.iter().any(|l| !l.contains(':') && solid(l)) {
                return None;
            }
            let (a, b) = (*r.pick(&free), *r.pick(&free));
            if plain_chars(&s[si].lines[a]) == plain_chars(&s[si].lines[b]) {
                return None;
            }
            s[si].lines.swap(a, b);
            Some("lines swapped")
        }
        1 if n > 0 => {
            let i = r.below(n);
            if !solid(&s[si].lines[i]) {
                return None;
            }
            s[si].lines.remove(i);
            Some("line removed")
        }
        2 if n > 0 => {
            let i = r.below(n);
            if !solid(&s[si].lines[i]) {
                return None;
            }
            let l = s[si].lines[i].clone();
            s[si].lines.insert(i, l);
            Some("line twice")
        }
        3 => {
            if !s[si].kv || n < 2 {
                return None;
            }
            let (a, b) = (r.below(n), r.below(n));
            let (la, lb) = (s[si].lines[a].clone(), s[si].lines[b].clone());
            let (ka, va) = la.split_once(':')?;
            let (kb, vb) = lb.split_once(':')?;
            if plain_chars(va) == plain_chars(vb) || ka == kb {
                return None;
            }
            s[si].lines[a] = format!("{ka}:{vb}");
            s[si].lines[b] = format!("{kb}:{va}");
            Some("values swapped")
        }
        4 => {
            s[si].name = format!("{}x", s[si].name).into();
            Some("section renamed")
        }
        5 if n > 0 => {
            let i = r.below(n);
            let l = s[si].lines[i].clone();
            let from = match l.split_once(':') {
                // spaces after the first colon are layout
                Some((k, v)) => k.len() + 1 + v.find(|c: char| c.is_ascii_alphanumeric())? + 1,
                None => 1,
            };
            let b = l.as_bytes();
            let at: Vec<usize> = (from..l.len())
                .filter(|p| b[p - 1].is_ascii_alphanumeric() && b[*p].is_ascii_alphanumeric())
                .collect();
            if at.is_empty() {
                return None;
            }
            let p = *r.pick(&at);
            s[si].lines[i].insert_str(p, *r.pick(&[" ", "\t", "  "]));
            Some("space in a value")
        }
        _ => None,
    }
}

fn run(cx: &mut Cx) -> Res {
    let k = cx.r.below(20);
    if k < 4 {
        // any two texts
        let osb = cx.r.chance(20);
        let (_, a) = any_text(cx, osb);
        let b = match cx.r.below(3) {
            0 => crate::mutate::one(&mut cx.r, &a, &a),
            1 => any_text(cx, osb).1,
            _ => a.clone(),
        };
        cx.note("first", a.as_str());
        cx.note("second", b.as_str());
        let odd = |s: &str| s.contains(['\u{feff}', '\r']);
        let idempotent = !odd(&a) && !odd(&b);
        let eq = pair(cx, &a, &b, idempotent)?;
        ensure!(eq || a != b, "a text isn't equal to itself");
        cx.count("arbitrary texts");
        cx.count(if eq { "arbitrary texts: equal" } else { "arbitrary texts: unequal" });
        cx.eval(&(&a, &b), a != b);
        return Ok(());
    }
    let o = Opt::usual(&mut cx.r);
    let v = gen::version(&mut cx.r);
    if k < 7 {
        // a file and what it's written as
        let o = Opt { spell: false, gated: false, ..o };
        let l = layout(&mut cx.r);
        let (a, b, c) = if cx.r.chance(25) {
            let mut doc = gen::osb(&mut cx.r, &o);
            doc.vars = None;
            doc.events.get_or_insert(vec![]);
            let a = lay(None, &osb_sections(&doc), &l, &mut cx.r).text;
            let b = sut::osb_text(&sut::accept_osb(&a, "a well-formed .osb")?)?;
            (a, b, plain(None, &osb_sections(&doc)))
        } else {
            let doc = gen::doc(&mut cx.r, v, &o);
            let a = lay(Some(&version_line(v)), &sections(&doc), &l, &mut cx.r).text;
            let b = sut::accept(&a, "a well-formed file")?.to_string();
            (a, b, canonical(&doc, v))
        };
        cx.note("first", a.as_str());
        cx.note("second", b.as_str());
        // only where the writer has nothing to leave out
        if normal_form(&c) == normal_form(&b) {
            let d = c.lines().map(str::trim).filter(|l| !l.is_empty()).count();
            let e = a.lines().map(str::trim).filter(|l| !l.is_empty() && !l.starts_with("//") && !l.starts_with("\u{feff}//")).count();
            let same_lines = d == e || c.contains("//");
            let eq = pair(cx, &c, &b, true)?;
            ensure!(eq, "a written file isn't equal to the text it has to be");
            if same_lines {
                cx.count("written back");
            }
            cx.eval(&(&a, &b), a != b);
        }
        return Ok(());
    }
    let osb = cx.r.chance(20);
    let version = if osb { None } else { Some(version_line(v)) };
    let mut doc = gen::doc(&mut cx.r, v, &o);
    let mut sects = if osb { osb_sections(&gen::osb(&mut cx.r, &o)) } else { sections(&doc) };
    // sections in another order than the writer's, the same in both
    if !(11..14).contains(&k) && cx.r.chance(50) {
        cx.r.shuffle(&mut sects);
        if sects.windows(2).any(|s| !s[0].kv && s[1].kv && s[1].lines.len() > 1) {
            cx.count("keys after lines without");
        }
    }
    // a key more than once, which is for the reader to refuse
    if k < 11 && cx.r.chance(20) {
        for s in &mut sects {
            let keys: Vec<String> = s.lines.iter().filter(|l| s.kv && !l.starts_with("//")).filter_map(|l| l.split_once(':')).map(|l| l.0.to_string()).collect();
            if !keys.is_empty() {
                for _ in 0..=cx.r.below(3) {
                    let l = format!("{}: {}", cx.r.pick(&keys).trim_end(), gen::word(&mut cx.r, false));
                    let at = cx.r.below(s.lines.len() + 1);
                    s.lines.insert(at, l);
                }
                cx.count("a key more than once");
            }
        }
    }
    // keys or values of nothing
    if !(11..14).contains(&k) && cx.r.chance(10) {
        for s in &mut sects {
            if s.kv && cx.r.bool() {
                for _ in 0..1 + cx.r.below(2) {
                    let at = cx.r.below(s.lines.len() + 1);
                    s.lines.insert(at, (*cx.r.pick(&[":1", ":", "::", ":x:y", "x:", "a:b:c", ":[x", "é:1", "1:", "x::", ",:,"])).to_string());
                }
                cx.count("nothing before a colon");
            }
        }
    }
    // what looks nearly like the start of a section
    if !(11..14).contains(&k) && cx.r.chance(15) {
        for s in &mut sects {
            if !s.kv && cx.r.bool() {
                let at = cx.r.below(s.lines.len() + 1);
                s.lines.insert(at, (*cx.r.pick(&["[x", "[General", "x]", "[a] b", "b [a]", "[a]:1", "[a,1:2", "(a)", "[a}", "//[x"])).to_string());
                cx.count("a bracket in a line");
            }
        }
    }
    let (l1, l2) = (layout(&mut cx.r), layout(&mut cx.r));
    let a = lay(version.as_deref(), &sects, &l1, &mut cx.r).text;
    cx.note("first", a.as_str());
    if k < 11 {
        let b = lay(version.as_deref(), &sects, &l2, &mut cx.r).text;
        cx.note("second", b.as_str());
        let eq = pair(cx, &a, &b, true)?;
        ensure!(eq, "two layouts of the same content aren't equal");
        cx.count("same content");
        cx.sample(|| format!("{a}\n=====\n{b}"));
        cx.eval(&(&a, &b), a != b);
        return Ok(());
    }
    let mut other = sects.clone();
    let mut version2 = version.clone();
    let what = if k < 14 && !osb {
        let Some((w, d)) = edit::another(&mut cx.r, &doc) else { return Ok(()) };
        doc = d;
        other = sections(&doc);
        if w.starts_with("order of") {
            // the order of lines doesn't count in a section where each looks like a key and a value
            let plain = |s: &[Sect]| s.iter().any(|s| s.lines.iter().any(|l| !l.contains(':') && !l.trim().is_empty()));
            let changed: Vec<Sect> = sects.iter().zip(&other).filter(|(a, b)| a.lines != b.lines).map(|(a, _)| a.clone()).collect();
            if !plain(&changed) {
                return Ok(());
            }
            cx.count("other: order where a line has no colon");
        }
        cx.note("changed", w);
        "value"
    } else if k == 14 && !osb {
        version2 = Some(version_line(if v == 14 { 13 } else { v + 1 }));
        "version"
    } else {
        let Some(w) = change(&mut cx.r, &mut other) else { return Ok(()) };
        cx.note("changed", w);
        w
    };
    let b = lay(version2.as_deref(), &other, &l2, &mut cx.r).text;
    cx.note("second", b.as_str());
    let eq = pair(cx, &a, &b, true)?;
    ensure!(!eq, "two contents are equal: {what}");
    cx.count(&format!("other: {what}"));
    cx.eval(&(&a, &b), true);
    Ok(())
}

//! Layout doesn't matter, content does.
use crate::core::*;
use crate::edit;
use crate::ext;
use crate::gen::{self, Opt};
use crate::model::*;
use crate::render::*;
use crate::sut;
use crate::ensure;
use crate::rng::Rng;
use osu_file_parser::VersionedFromStr;

pub const C11: Check = Check {
    id: "C11",
    cases: (500_000, 2_500_000),
    rule: "two layouts of the same content (line ends, byte order mark, blank lines, comments before the sections, order of sections and of keys, spacing after keys, indentation characters) of which the values were compared, or two contents that differ in one value; distinct by text",
    assumptions: &[],
    need: &[
        ("same content", 20_000),
        ("other content", 8000),
        ("storyboard file", 4000),
        ("other storyboard file", 2000),
        ("changed: file name", 1000),
        ("layout: CRLF", 5000),
        ("layout: byte order mark", 3000),
        ("layout: sections in another order", 5000),
        ("layout: underscores", 2000),
        ("equal values of two spellings", 20_000),
    ],
    run,
    known: None,
    exhaustive: false,
};

/// A number with other zeros, so that it has the same value.
fn respelled(r: &mut Rng, line: &str) -> String {
    line.split(',')
        .map(|f| {
            if r.bool() || f.is_empty() || !f.trim_start_matches('-').chars().all(|c| c.is_ascii_digit() || c == '.') {
                return f.to_string();
            }
            let zeros = "0".repeat(1 + r.below(3));
            if f.contains('.') { format!("{f}{zeros}") } else { format!("{f}.{zeros}") }
        })
        .collect::<Vec<_>>()
        .join(",")
}

/// equal values have equal hashes, also when they are spelled differently
fn hashes(cx: &mut Cx) -> Res {
    let v = gen::version(&mut cx.r);
    let o = Opt::usual(&mut cx.r);
    macro_rules! pairs {
        ($t:ty, $line:expr, $name:literal) => {{
            let a: String = $line;
            let b = respelled(&mut cx.r, &a);
            if let (Ok(x), Ok(y)) = (<$t>::from_str(&a, v), <$t>::from_str(&b, v)) {
                if x == y {
                    ensure!(hash_of(&x) == hash_of(&y), "equal values of {} have different hashes: {a:?} {b:?}", $name);
                    cx.count(if a == b { "same line" } else { "equal values of two spellings" });
                    cx.eval(&(&b, v), a != b);
                }
            }
        }};
    }
    for _ in 0..10 {
        let t = gen::tp(&mut cx.r, v, &o);
        pairs!(osu_file_parser::timingpoints::TimingPoint, tp_line(&t, v), "timing points");
        let h = gen::ho(&mut cx.r, v, &o);
        pairs!(osu_file_parser::hitobjects::HitObject, ho_line(&h, v), "hit objects");
        let c = gen::cmd(&mut cx.r, true, 0);
        pairs!(osu_file_parser::events::storyboard::cmds::Command, cmd_text(&c), "commands");
    }
    Ok(())
}

fn run(cx: &mut Cx) -> Res {
    if cx.r.chance(15) {
        return hashes(cx);
    }
    let v = gen::version(&mut cx.r);
    let mut o = Opt::usual(&mut cx.r);
    let l1 = if cx.r.bool() { Layout::writer() } else { Layout::random(&mut cx.r) };
    let l2 = Layout::random(&mut cx.r);
    for (on, name) in [
        (l2.crlf, "CRLF"),
        (l2.bom, "byte order mark"),
        (l2.shuffle_sections, "sections in another order"),
        (l2.underscore, "underscores"),
    ] {
        if on {
            cx.count(&format!("layout: {name}"));
        }
    }
    let k = cx.r.below(10);
    if k < 2 {
        let doc = gen::osb(&mut cx.r, &o);
        let mut s = osb_sections(&doc);
        let a = lay(None, &s, &Layout { shuffle_sections: false, ..l1 }, &mut cx.r).text;
        if doc.vars.as_ref().is_some_and(|v| !v.is_empty()) {
            // variables go before their use
        } else {
            s.reverse();
        }
        let b = lay(None, &s, &Layout { shuffle_sections: false, ..l2 }, &mut cx.r).text;
        cx.note("first", a.as_str());
        cx.note("second", b.as_str());
        let f = sut::accept_osb(&a, "a well-formed .osb")?;
        let g = sut::accept_osb(&b, "another layout of a well-formed .osb")?;
        ensure!(f == g, "two layouts of an .osb: {}", diff(&ext::osb(&f), &ext::osb(&g)));
        ensure!(hash_of(&f) == hash_of(&g), "equal .osb values have different hashes");
        ensure!(sut::osb_text(&f)? == sut::osb_text(&g)?, "equal .osb values are written differently");
        cx.count("storyboard file");
        cx.eval(&b, a != b);
        let mut other = doc.clone();
        let n = other.vars.as_ref().map_or(0, Vec::len);
        let what = if n > 0 && cx.r.bool() {
            let vars = other.vars.as_mut().unwrap();
            let i = cx.r.below(n);
            let (x, name) = (cx.r.below(1000), cx.r.bool());
            match cx.r.below(5) {
                0 => drop(vars.remove(i)),
                1 if n > 1 => vars.swap(0, n - 1),
                _ if name => vars[i].0 += &format!("_{x}"),
                _ => vars[i].1 += &x.to_string(),
            }
            "a variable".to_string()
        } else {
            let d = Doc { events: other.events.take(), ..Doc::empty(14) };
            let Some((what, d)) = edit::another(&mut cx.r, &d) else { return Ok(()) };
            other.events = d.events;
            what
        };
        if other == doc {
            return Ok(());
        }
        let c = lay(None, &osb_sections(&other), &Layout { shuffle_sections: false, ..Layout::random(&mut cx.r) }, &mut cx.r).text;
        cx.note("changed", what.as_str());
        cx.note("third", c.as_str());
        // a name that begins with another isn't claimed
        let h = sut::accept_osb(&c, "another well-formed .osb")?;
        ensure!(f != h, "two .osb are equal, but for {what}");
        cx.count("other storyboard file");
        return Ok(());
    }
    if k < 5 {
        o.hostile = cx.r.chance(30);
        o.gated = false;
    }
    let doc = gen::doc(&mut cx.r, v, &o);
    let a = lay(Some(&version_line(v)), &sections(&doc), &l1, &mut cx.r).text;
    let f = sut::accept(&a, "a well-formed file")?;
    cx.note("first", a.as_str());
    if k < 5 {
        let Some((what, other)) = edit::another(&mut cx.r, &doc) else { return Ok(()) };
        let b = lay(Some(&version_line(v)), &sections(&other), &l2, &mut cx.r).text;
        cx.note("second", b.as_str());
        cx.note("changed", what.as_str());
        let g = sut::accept(&b, "another well-formed file")?;
        ensure!(f != g, "two files are equal, but for the {what}");
        // what isn't written at the version doesn't count
        let unwritten = norm(&after_write(&doc, v)) == norm(&after_write(&other, v)) && what != "hit sound, normal";
        ensure!(unwritten || f.to_string() != g.to_string(), "two files are written the same, but for the {what}");
        cx.count("other content");
        cx.count(&format!("changed: {what}"));
        cx.eval(&b, true);
        return Ok(());
    }
    let b = lay(Some(&version_line(v)), &sections(&doc), &l2, &mut cx.r).text;
    cx.note("second", b.as_str());
    let g = sut::accept(&b, "another layout of a well-formed file")?;
    ensure!(f == g, "two layouts: {}", diff(&ext::doc(&f), &ext::doc(&g)));
    ensure!(hash_of(&f) == hash_of(&g), "equal values have different hashes");
    ensure!(f.to_string() == g.to_string(), "equal values are written differently");
    cx.count("same content");
    cx.eval(&b, a != b);
    cx.sample(|| b.clone());
    Ok(())
}

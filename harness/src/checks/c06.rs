//! An error points at the line that's wrong, and shows it.
use crate::core::*;
use crate::faults;
use crate::gen::{self, Opt};
use crate::render::*;
use crate::rng::Rng;
use crate::structure;
use crate::sut;
use crate::{ensure, fail};
use osu_file_parser as lib;

pub const C06: Check = Check {
    id: "C06",
    cases: (1_400_000, 5_000_000),
    rule: "a text with exactly one wrong line, put there by the harness, of which the reported line was compared with the place it was put to; distinct by text",
    assumptions: &[
        "known finding C06-section-end: for a line after sections whose last line is exactly empty, the number reported may be too low by the number of those sections",
    ],
    need: &[
        ("far down", 8),
        ("exact place expected", 30_000),
        ("not the first section", 15_000),
        ("section parsed alone", 2000),
        ("storyboard file", 8000),
        ("structure", 10_000),
        ("error converted", 10_000),
        ("CRLF", 10_000),
        ("BOM", 5000),
    ],
    run,
    known: Some(known),
    exhaustive: false,
};

const LISTED: &str = "C06-section-end";

fn known(cx: &mut Cx) -> Res {
    // the first section ends with an empty line
    let text = "osu file format v14\n\n[General]\nMode: 0\n\n[Editor]\nCurrentTime: x\n";
    cx.note("text", text);
    let Err(e) = sut::parse(text) else {
        fail!("accepted");
    };
    if e.line_index() == 6 {
        return Ok(());
    }
    ensure!(e.line_index() == 5 && cx.is_listed(LISTED), "line index {} instead of 6", e.line_index());
    cx.known(
        LISTED,
        "an error after a section with an exactly empty last line is reported one line too early for each such section (\"[General]\\nMode: 0\\n\\n[Editor]\\nCurrentTime: x\" reports the header)",
    );
    Ok(())
}

fn check<E: std::fmt::Display + std::fmt::Debug>(cx: &mut Cx, e: &lib::Error<E>, laid: &Laid, at: usize) -> Res {
    let got = e.line_index();
    let k = laid.empty_boundaries(at);
    let off = k > 0 && got + k == at && cx.is_listed(LISTED);
    ensure!(
        got == at || off,
        "line index {got} is reported, the wrong line is {at} ({:?}); error {:?}",
        laid.lines[at],
        e.error()
    );
    let shown = e.display_error_with_line(&laid.text);
    let line = &laid.lines[got];
    let prefix = format!("Line {}: {}, ", got + 1, line);
    ensure!(shown.starts_with(&prefix), "shown as {shown:?}, should start with {prefix:?}");
    ensure!(shown[prefix.len()..] == e.error().to_string(), "shown as {shown:?} for {}", e.error());
    let short = e.to_string();
    ensure!(
        short == format!("Line {}, {}", got + 1, e.error()),
        "shown short as {short:?}, line index {got}"
    );
    if off {
        cx.count("off by the known finding");
    } else {
        cx.count("exact place expected");
    }
    Ok(())
}

#[derive(Debug)]
struct Inner(u32);

impl std::fmt::Display for Inner {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "inner {}", self.0)
    }
}

impl std::error::Error for Inner {}

#[derive(Debug)]
struct Outer(Inner);

impl std::fmt::Display for Outer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "outer {}", self.0)
    }
}

impl std::error::Error for Outer {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.0)
    }
}

impl From<Inner> for Outer {
    fn from(e: Inner) -> Outer {
        Outer(e)
    }
}

/// An error keeps its line and what it says when it's made into another.
fn converted(cx: &mut Cx) -> Res {
    use lib::Error;
    let line = |r: &mut Rng| match r.below(4) {
        0 => r.below(3),
        1 => r.below(70_000),
        2 => *r.pick(&[255, 256, 65_535, 65_536, u32::MAX as usize, u32::MAX as usize + 1]),
        _ => r.below(1 << 60),
    };
    let (n, more, k) = (line(&mut cx.r), line(&mut cx.r), cx.r.below(1000) as u32);
    cx.note("error", format!("{k} at {n}, moved by {more}"));
    fn outer(what: &str, e: &Error<Outer>, k: u32, n: usize) -> Res {
        ensure!(e.line_index() == n && e.error().0 .0 == k, "{what}: {e:?} instead of {k} at {n}");
        ensure!(e.to_string() == format!("Line {}, outer inner {k}", n + 1), "{what}: shown as {e}");
        let from = std::error::Error::source(e).map(ToString::to_string);
        ensure!(from == Some(format!("inner {k}")), "{what}: comes from {from:?}");
        Ok(())
    }
    fn inner(what: &str, e: &Error<Inner>, k: u32, n: usize) -> Res {
        ensure!(e.line_index() == n && e.error().0 == k, "{what}: {e:?} instead of {k} at {n}");
        ensure!(e.to_string() == format!("Line {}, inner {k}", n + 1), "{what}: shown as {e}");
        ensure!(std::error::Error::source(e).is_none(), "{what}: comes from something");
        Ok(())
    }
    let i = || Inner(k);
    inner("new", &Error::new(i(), n), k, n)?;
    inner("from", &Error::from(i()), k, 0)?;
    outer("new_into", &Error::<Inner>::new_into(i(), n), k, n)?;
    outer("error_into", &Error::new(i(), n).error_into(), k, n)?;
    let r: Result<(), Error<Inner>> = Error::new_from_result(Err(i()), n);
    inner("new_from_result", &r.unwrap_err(), k, n)?;
    let r: Result<(), Error<Outer>> = Error::<Inner>::new_from_result_into(Err(i()), n);
    outer("new_from_result_into", &r.unwrap_err(), k, n)?;
    let r: Result<(), Error<Outer>> = Error::error_result_into(Err(Error::new(i(), n)));
    outer("error_result_into", &r.unwrap_err(), k, n)?;
    let r: Result<(), Error<Outer>> = Error::processing_line(Err(Error::new(i(), n)), more);
    outer("processing_line", &r.unwrap_err(), k, n + more)?;
    let ok: [Option<u32>; 4] = [
        Error::<Inner>::new_from_result(Ok(k), n).ok(),
        Error::<Inner>::new_from_result_into::<_, Outer>(Ok(k), n).ok(),
        Error::<Inner>::error_result_into::<_, Outer>(Ok(k)).ok(),
        Error::<Inner>::processing_line::<_, Outer>(Ok(k), n).ok(),
    ];
    ensure!(ok == [Some(k); 4], "a value is changed: {ok:?} instead of {k}");
    cx.count("error converted");
    Ok(())
}

fn strict(r: &mut Rng, l: &mut Layout) {
    if r.chance(65) {
        l.boundary = *r.pick(&[0, 0, 2]);
    }
}

fn run(cx: &mut Cx) -> Res {
    if cx.r.chance(5) {
        converted(cx)?;
    }
    let v = gen::version(&mut cx.r);
    let mut o = Opt::small(&mut cx.r);
    o.gated = false;
    let laid;
    let at;
    match cx.r.below(10) {
        0 | 1 => {
            let doc = gen::doc(&mut cx.r, v, &o);
            let Some(mut b) = structure::breaking(&mut cx.r, Some(v), &sections(&doc)) else {
                return Ok(());
            };
            strict(&mut cx.r, &mut b.layout);
            (laid, at) = b.lay(&mut cx.r);
            cx.note("text", laid.text.as_str());
            let Err(e) = sut::parse(&laid.text) else {
                fail!("{} ({}) is accepted", b.class, b.kind);
            };
            check(cx, &e, &laid, at)?;
            cx.count("structure");
            cx.count(&format!("kind: {}", b.kind));
        }
        2 => {
            // .osb: structure, variables
            let doc = gen::osb(&mut cx.r, &o);
            let mut s = osb_sections(&doc);
            if cx.r.bool() {
                let Some(mut b) = structure::breaking(&mut cx.r, None, &s) else {
                    return Ok(());
                };
                strict(&mut cx.r, &mut b.layout);
                (laid, at) = b.lay(&mut cx.r);
                cx.count(&format!("kind: {}", b.kind));
            } else {
                let Some(i) = s.iter().position(|s| s.name == "Variables") else {
                    return Ok(());
                };
                let n = cx.r.below(s[i].lines.len() + 1);
                s[i].lines.insert(n, (*cx.r.pick(&["a=b", "$ab", "$", "=", "x"])).to_string());
                let mut l = Layout::random(&mut cx.r);
                strict(&mut cx.r, &mut l);
                laid = lay(None, &s, &l, &mut cx.r);
                at = laid.find(Loc::Line(i, n)).unwrap();
                cx.count("kind: variable");
            }
            cx.note("osb", laid.text.as_str());
            let mut f = lib::OsuFile::new(14);
            let Err(e) = f.append_osb(&laid.text) else {
                fail!("an .osb with a wrong line is accepted");
            };
            check(cx, &e, &laid, at)?;
            cx.count("storyboard file");
        }
        3 => {
            // .osb: events
            let doc = gen::osb(&mut cx.r, &o);
            let mut host = crate::model::Doc::empty(14);
            host.events = Some(doc.events.clone().unwrap_or_default());
            let f = loop {
                if let Some(f) = faults::any(&mut cx.r, &host) {
                    if f.section == "Events" {
                        break f;
                    }
                }
            };
            let (planted, _, li) = faults::plant(&mut cx.r, &host, &f).unwrap();
            let mut s = osb_sections(&doc);
            let i = s.iter().position(|s| s.name == "Events").unwrap_or(s.len());
            s.truncate(i);
            s.push(planted[0].clone());
            let mut l = Layout::random(&mut cx.r);
            l.blank_inside = 0;
            strict(&mut cx.r, &mut l);
            laid = lay(None, &s, &l, &mut cx.r);
            at = laid.find(Loc::Line(i, li)).unwrap();
            cx.note("osb", laid.text.as_str());
            let Err(e) = sut::osb(&laid.text) else {
                fail!("an .osb with a wrong line ({}) is accepted", f.kind);
            };
            check(cx, &e, &laid, at)?;
            cx.count("storyboard file");
            cx.count(&format!("kind: {}", f.kind));
        }
        4 => {
            // a section parsed on its own
            let doc = gen::doc(&mut cx.r, v, &o);
            let Some(f) = faults::any(&mut cx.r, &doc) else { return Ok(()) };
            let Some((s, si, li)) = faults::plant(&mut cx.r, &doc, &f) else { return Ok(()) };
            let mut lines = Vec::new();
            let mut line = 0;
            for (i, l) in s[si].lines.iter().enumerate() {
                // blank lines, but not at the start
                if i > 0 && !l.starts_with([' ', '_']) && cx.r.chance(15) {
                    for _ in 0..cx.r.run() {
                        lines.push(String::new());
                    }
                }
                if i == li {
                    line = lines.len();
                }
                let indent = if i > 0 && i != li && s[si].kv && l.contains(':') && cx.r.chance(15) { *cx.r.pick(&[" ", "  ", "\t"]) } else { "" };
                lines.push(format!("{indent}{l}"));
            }
            let nl = if cx.r.chance(30) { "\r\n" } else { "\n" };
            let text = lines.join(nl);
            cx.note("section", format!("{}\n{text}", f.section));
            macro_rules! index {
                ($t:ty) => {
                    match <$t>::from_str(&text, v) {
                        Ok(_) => fail!("a section with a wrong line ({}) is accepted", f.kind),
                        Err(e) => e.line_index(),
                    }
                };
            }
            use lib::VersionedFromStr;
            let got = match f.section {
                "General" => index!(lib::General),
                "Editor" => index!(lib::Editor),
                "Metadata" => index!(lib::Metadata),
                "Difficulty" => index!(lib::Difficulty),
                "Events" => index!(lib::Events),
                "TimingPoints" => index!(lib::TimingPoints),
                "Colours" => index!(lib::Colours),
                _ => index!(lib::HitObjects),
            };
            ensure!(got == line, "[{}] alone: line index {got} is reported, the wrong line is {line} ({:?})", f.section, lines[line]);
            cx.count("section parsed alone");
            cx.count(&format!("kind: {}", f.kind));
            cx.eval(&text, true);
            return Ok(());
        }
        _ => {
            let doc = gen::doc(&mut cx.r, v, &o);
            let Some(f) = faults::any(&mut cx.r, &doc) else { return Ok(()) };
            let Some((mut s, si, mut li)) = faults::plant(&mut cx.r, &doc, &f) else { return Ok(()) };
            let mut l = Layout::random(&mut cx.r);
            strict(&mut cx.r, &mut l);
            if cx.r.below(2000) == 0 && li > 0 && !s[si].lines[li].starts_with([' ', '_']) {
                // far down in the section
                let n = *cx.r.pick(&[255, 256, 4096, 32_767, 65_535, 65_536, 70_000, 131_072, 300_000]);
                let first = s[si].lines[0].clone();
                if !s[si].kv && cx.r.bool() {
                    s[si].lines.splice(0..0, vec![first; n]);
                } else {
                    s[si].lines.splice(li..li, vec![String::new(); n]);
                    l.shuffle_keys = false;
                }
                li += n;
                cx.count("far down");
            }
            if f.after_key {
                l.shuffle_keys = false;
            }
            if f.section == "Events" && f.lines.len() > 1 {
                l.blank_inside = 0;
            }
            if s[si].kv {
                // spacing would change the wrong line
                l.exact = Some((si, li));
            }
            laid = lay(Some(&version_line(v)), &s, &l, &mut cx.r);
            at = laid.find(Loc::Line(si, li)).unwrap();
            cx.note("text", laid.text.as_str());
            let Err(e) = sut::parse(&laid.text) else {
                fail!("a file with a wrong line ({}) is accepted", f.kind);
            };
            check(cx, &e, &laid, at)?;
            let first = laid.locs.iter().find_map(|l| match l {
                Loc::Header(i) => Some(*i),
                _ => None,
            });
            cx.count(if first == Some(si) { "the first section" } else { "not the first section" });
            cx.count(&format!("kind: {}", f.kind));
        }
    }
    if laid.text.contains('\r') {
        cx.count("CRLF");
    }
    if laid.text.contains('\u{feff}') {
        cx.count("BOM");
    }
    cx.eval(&laid.text, true);
    cx.sample(|| format!("line {at} of\n{}", laid.text));
    Ok(())
}

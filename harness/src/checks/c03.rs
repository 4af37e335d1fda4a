//! What is written is read back as the same value.
use super::common::*;
use crate::core::*;
use crate::ext;
use crate::gen::{self, Opt};
use crate::model::*;
use crate::render::*;
use crate::sut;
use crate::ensure;
use osu_file_parser as lib;

pub const C03: Check = Check {
    id: "C03",
    cases: (450_000, 2_500_000),
    rule: "an accepted text that was written at its own version, read back and compared, distinct by text",
    assumptions: &[
        "a hold note without hit sample means the same as one with the default hit sample",
        "what the version has no way to write (listed in the specification of versions) is left out of the comparison",
        "texts with carriage returns other than before line feeds are left out",
    ],
    need: &[
        ("well-formed", 10_000),
        ("real", 2000),
        ("damaged", 3000),
        ("storyboard well-formed", 3000),
        ("storyboard damaged", 800),
    ],
    run,
    known: None,
    exhaustive: false,
};


/// What reading back a written `f` has to give.
fn back(f: &lib::OsuFile) -> Doc {
    let d = ext::doc(f);
    norm(&after_write(&d, d.v))
}

/// Values out of damaged text that the format has no way to write: text in a number field that opens
/// a section header, or a version 3 slider's, of which the position is a curve point too; and
/// more digits than a decimal has once 24 ms are added.
fn unwritable(f: &lib::OsuFile) -> bool {
    let d = ext::doc(f);
    let opens = |x: &D| matches!(x, D::R(s) if s.starts_with('['));
    let splits = |x: &D| matches!(x, D::R(s) if s.contains(['|', ':']));
    let long = |x: &D| d.v <= 4 && matches!(x, D::N { m, s } if *s > 18 || m.unsigned_abs() > 1 << 90);
    d.tps.iter().flatten().any(|t| opens(&t.time) || long(&t.time))
        || d.hos.iter().flatten().any(|h| {
            let end = match &h.k {
                HoK::Spinner { end } | HoK::Hold { end } => long(end),
                HoK::Slider { .. } => d.v == 3 && (splits(&h.x) || splits(&h.y)),
                HoK::Circle => false,
            };
            end || opens(&h.x) || long(&h.time)
        })
}

pub fn file(f: &lib::OsuFile) -> Res {
    let text = f.to_string();
    let g = sut::accept(&text, "what was written")?;
    let mut e = back(f);
    let mut got = norm(&ext::doc(&g));
    // nothing tells from outside whether an uninherited point without effects wrote that field
    let hidden: Vec<bool> = ext::doc(f).tps.iter().flatten().map(|t| t.effects.is_none()).collect();
    for d in [&mut e, &mut got] {
        for (t, h) in d.tps.iter_mut().flatten().zip(&hidden) {
            if *h && t.effects == Some(0) {
                t.effects = None;
            }
        }
    }
    ensure!(e == got, "read back: {}", diff(&e, &got));
    let again = g.to_string();
    ensure!(again == text, "writing again gives something else: {}", first_diff(&text, &again));
    let h = sut::accept(&again, "what was written again")?;
    ensure!(h == g, "the value still changes the second time");
    Ok(())
}

pub fn first_diff(a: &str, b: &str) -> String {
    for (n, (x, y)) in a.split('\n').zip(b.split('\n')).enumerate() {
        if x != y {
            return format!("line {n}: {x:?} / {y:?}");
        }
    }
    format!("lengths {} / {}", a.len(), b.len())
}

pub fn osb(o: &lib::Osb) -> Res {
    let text = sut::osb_text(o)?;
    let p = sut::accept_osb(&text, "the written .osb")?;
    let mut e = ext::osb(o);
    if let Some(ev) = &mut e.events {
        *ev = events_after_write(ev, 14);
        norm_events(ev);
    }
    let mut got = ext::osb(&p);
    if let Some(ev) = &mut got.events {
        norm_events(ev);
    }
    ensure!(e == got, ".osb read back: {}", diff(&e, &got));
    let again = sut::osb_text(&p)?;
    ensure!(again == text, "writing the .osb again gives something else: {}", first_diff(&text, &again));
    Ok(())
}

fn run(cx: &mut Cx) -> Res {
    let kind = cx.r.below(10);
    if kind >= 7 {
        let damaged = kind == 9;
        let (name, text) = if damaged {
            ("damaged", any_text(cx, true).1)
        } else {
            ("well-formed", fine_osb(&mut cx.r).1)
        };
        cx.note("osb", text.as_str());
        if text.replace("\r\n", "\n").contains('\r') {
            return Ok(());
        }
        if let Ok(Some(o)) = sut::osb(&text) {
            osb(&o)?;
            cx.count(&format!("storyboard {name}"));
            cx.eval(&text, true);
        }
        return Ok(());
    }
    let (name, text) = match kind {
        0..=2 => {
            let v = gen::version(&mut cx.r);
            let o = Opt::usual(&mut cx.r);
            let doc = gen::doc(&mut cx.r, v, &o);
            let l = Layout::random(&mut cx.r);
            ("well-formed", lay(Some(&version_line(v)), &sections(&doc), &l, &mut cx.r).text)
        }
        3 => ("real", real_osu(&mut cx.r)),
        _ => ("damaged", any_text(cx, false).1),
    };
    cx.note("text", text.as_str());
    if text.replace("\r\n", "\n").contains('\r') {
        return Ok(());
    }
    if let Ok(f) = sut::parse(&text) {
        if unwritable(&f) {
            cx.count("left out: no way to write it");
            return Ok(());
        }
        file(&f)?;
        cx.count(name);
        cx.eval(&text, f != lib::OsuFile::new(f.version));
        cx.sample(|| text.clone());
    }
    Ok(())
}

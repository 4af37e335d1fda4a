//! What a version doesn't have is neither read nor written, and writing at another version gives a file of that version.
use super::c03::first_diff;
use crate::core::*;
use crate::ext;
use crate::gen::{self, Opt};
use crate::model::*;
use crate::render::*;
use crate::sut;
use crate::ensure;
use lib::VersionedToString;
use osu_file_parser as lib;

pub const C09: Check = Check {
    id: "C09",
    cases: (350_000, 2_500_000),
    rule: "a file of one version that was read, written at another version and read back there, compared with what the reference table of versions leaves of it; distinct by text and target version",
    assumptions: &[
        "a hold note without hit sample means the same as one with the default hit sample",
        "times within 24 ms of the end of the 32-bit range are left out when going to version 3 or 4",
    ],
    need: &[
        ("to an older version", 10_000),
        ("to a newer version", 10_000),
        ("gated key in the text", 8000),
        ("storyboard file", 1000),
        ("section alone", 20_000),
        ("content that isn't looked at", 1000),
    ],
    run,
    known: None,
    exhaustive: false,
};

pub fn edges(d: &Doc) -> bool {
    let low = |t: &i32| *t < i32::MIN + 24;
    d.events.iter().flatten().any(|e| match &e.k {
        EvK::Break { start, end, .. } => low(start) || low(end),
        EvK::Video { start, .. } | EvK::ColourTrans { start, .. } => low(start),
        _ => false,
    })
}

/// storyboard files exist from version 14 on
fn storyboard(cx: &mut Cx) -> Res {
    use lib::{VersionedFromStr, VersionedToString};
    let o = Opt::small(&mut cx.r);
    let doc = gen::osb(&mut cx.r, &o);
    let text = dressed(None, &osb_sections(&doc), true, &mut cx.r);
    cx.note("osb", text.as_str());
    let osb = sut::accept_osb(&text, "a well-formed storyboard file")?;
    let mut f = lib::OsuFile::new(14);
    f.osb = Some(osb.clone());
    for w in 3..=14u8 {
        f.version = w;
        let (a, b) = (VersionedToString::to_string(&osb, w), f.osb_to_string());
        ensure!(a == b, "the storyboard file is written as {a:?} alone and as {b:?} with the file at version {w}");
        ensure!(a.is_some() == (w == 14), "a storyboard file at version {w} is written as {a:?}");
        ensure!(f.to_string() == format!("osu file format v{w}\n\n"), "the storyboard file is in the file of version {w}");
        if w < 14 {
            match lib::Osb::from_str(&text, w) {
                Ok(None) => {}
                o => crate::fail!("a storyboard file is read at version {w} as {o:?}"),
            }
        }
    }
    ensure!(f.osb.as_ref() == Some(&osb), "writing changed the storyboard");
    cx.count("storyboard file");
    cx.eval(&text, true);
    Ok(())
}

/// what a version doesn't have isn't looked at, whatever it is
fn ignored(cx: &mut Cx) -> Res {
    let v = cx.r.range(3, 13) as u8;
    let o = Opt { gated: false, ..Opt::small(&mut cx.r) };
    let doc = project_read(&gen::doc(&mut cx.r, v, &o), v);
    let base = sections(&doc);
    let mut more = base.clone();
    let junk = ["x", "", "-1", "999", "1.5", "Nothing", "é", "0", "1", "None", "Below", "a:b", "1,2,3"];
    let mut n = 0;
    if let Some(s) = more.iter_mut().find(|s| s.name == "General") {
        for (key, first) in [("Countdown", 5), ("SampleSet", 4), ("OverlayPosition", 14)] {
            if v < first && cx.r.chance(70) {
                let at = cx.r.below(s.lines.len() + 1);
                s.lines.insert(at, format!("{key}: {}", cx.r.pick(&junk)));
                n += 1;
            }
        }
    }
    if v < 5 && cx.r.bool() {
        more.retain(|s| s.name != "Colours");
        let lines = (0..1 + cx.r.below(3)).map(|_| (*cx.r.pick(&["Combo1 : 1,2,x", "nothing", "Combo1 : 1,2,3", "X : 1"])).to_string());
        let s = Sect { name: "Colours".to_string(), kv: false, lines: lines.collect() };
        let at = cx.r.below(more.len() + 1);
        more.insert(at, s);
        n += 1;
    }
    if n == 0 {
        return Ok(());
    }
    let (a, b) = (plain(Some(v), &base), plain(Some(v), &more));
    cx.note("without", a.as_str());
    cx.note("with", b.as_str());
    let f = sut::accept(&a, "a well-formed file")?;
    let g = sut::accept(&b, "a file with something its version doesn't have")?;
    ensure!(
        f == g && ext::doc(&f) == ext::doc(&g),
        "what version {v} doesn't have is in the value: {}",
        diff(&ext::doc(&f), &ext::doc(&g))
    );
    cx.count("content that isn't looked at");
    cx.eval(&b, true);
    Ok(())
}

fn run(cx: &mut Cx) -> Res {
    if cx.r.chance(6) {
        return ignored(cx);
    }
    if cx.r.chance(6) {
        return storyboard(cx);
    }
    let v = gen::version(&mut cx.r);
    let w = gen::version(&mut cx.r);
    let o = Opt { gated: true, ..Opt::usual(&mut cx.r) };
    let raw = gen::doc(&mut cx.r, v, &o);
    let text = dressed(Some(v), &sections(&raw), true, &mut cx.r);
    cx.note("text", text.as_str());
    cx.note("written at", w.to_string());
    let mut f = sut::accept(&text, "a well-formed file")?;
    let mut doc = project_read(&raw, v);
    if doc.kv != raw.kv || doc.colours != raw.colours {
        cx.count("gated key in the text");
    }
    sut::same_doc(&norm(&doc), &f, "read")?;
    if edges(&doc) {
        return Ok(());
    }
    // a hold without sample reads as the default one
    for h in doc.hos.iter_mut().flatten() {
        if h.sample.is_none() && (matches!(h.k, HoK::Hold { .. }) || h.trail) {
            h.sample = Some(Hs::default());
            h.trail = false;
        }
    }
    let read = ext::doc(&f);
    f.version = w;
    let out = f.to_string();
    cx.note("output", out.as_str());
    let left = after_write(&doc, w);
    let expected = plain(Some(w), &sections(&left));
    ensure!(
        normal_form(&out) == normal_form(&expected),
        "version {v} written at {w}: {}",
        first_diff(&normal_form(&expected), &normal_form(&out))
    );
    let g = sut::accept(&out, &format!("what was written at version {w}"))?;
    sut::same_doc(&norm(&project_read(&left, w)), &g, &format!("version {v} written at {w} and read back"))?;
    // writing doesn't change the value
    f.version = v;
    ensure!(ext::doc(&f) == read, "writing changed the value");
    // the sections alone say the same as the whole
    let mut alone: Vec<(&str, Option<String>)> = Vec::new();
    macro_rules! part {
        ($($n:literal $f:ident),+) => {
            $(if let Some(s) = &f.$f {
                alone.push(($n, VersionedToString::to_string(s, w)));
            })+
        };
    }
    macro_rules! part_kv {
        ($($n:literal $f:ident),+) => {
            $(if let Some(s) = &f.$f {
                alone.push(($n, s.to_string(w)));
            })+
        };
    }
    part_kv!("General" general, "Editor" editor, "Metadata" metadata, "Difficulty" difficulty);
    part!("Events" events, "TimingPoints" timing_points, "Colours" colours, "HitObjects" hitobjects);
    for (n, s) in alone {
        let inside = out.contains(&format!("[{n}]\n"));
        ensure!(inside == s.is_some(), "[{n}] at version {w} is {} alone", if inside { "missing" } else { "there" });
        if let Some(s) = s {
            ensure!(out.contains(&format!("[{n}]\n{s}")), "[{n}] at version {w} is written differently alone: {s:?}");
            cx.count("section alone");
        }
    }
    cx.count(match w.cmp(&v) {
        std::cmp::Ordering::Less => "to an older version",
        std::cmp::Ordering::Equal => "to the same version",
        std::cmp::Ordering::Greater => "to a newer version",
    });
    cx.eval(&(&text, w), v != w);
    cx.sample(|| format!("{v} -> {w}\n{text}"));
    Ok(())
}

//! Sections are found, kept apart and required to be well-formed.
use crate::core::*;
use crate::ext;
use crate::gen::{self, Opt};
use crate::model::*;
use crate::render::*;
use crate::structure;
use crate::sut;
use crate::{ensure, fail};
use osu_file_parser as lib;

pub const C08: Check = Check {
    id: "C08",
    cases: (1_500_000, 5_000_000),
    rule: "a text built from a chosen set and order of sections, or with one fault in the structure around sections; distinct by text",
    assumptions: &["section headers stand at the start of a line", "the content of the sections is well-formed"],
    need: &[
        ("set of sections", 20_000),
        ("some section empty", 5000),
        ("no sections", 100),
        ("fault: section twice", 4000),
        ("fault: unknown section", 4000),
        ("fault: header not closed", 4000),
        ("fault: header not opened", 4000),
        ("fault: line before the sections", 4000),
        ("fault: version number", 2000),
        ("fault: version line", 2000),
        ("storyboard file", 10_000),
    ],
    run,
    known: None,
    exhaustive: false,
};

fn present(f: &lib::OsuFile) -> Vec<&'static str> {
    let all = [
        ("General", f.general.is_some()),
        ("Editor", f.editor.is_some()),
        ("Metadata", f.metadata.is_some()),
        ("Difficulty", f.difficulty.is_some()),
        ("Events", f.events.is_some()),
        ("TimingPoints", f.timing_points.is_some()),
        ("Colours", f.colours.is_some()),
        ("HitObjects", f.hitobjects.is_some()),
    ];
    all.into_iter().filter(|a| a.1).map(|a| a.0).collect()
}

fn well_formed(cx: &mut Cx) -> Res {
    let v = gen::version(&mut cx.r);
    let mut o = Opt::small(&mut cx.r);
    o.present = *cx.r.pick(&[100, 60, 30, 10]);
    let mut doc = gen::doc(&mut cx.r, v, &o);
    // empty sections
    let mut empty = 0;
    for s in &mut doc.kv {
        if s.is_some() && cx.r.chance(25) {
            *s = Some(vec![]);
            empty += 1;
        }
    }
    macro_rules! clear {
        ($($f:ident),+) => {
            $(if doc.$f.is_some() && cx.r.chance(25) {
                doc.$f = Some(vec![]);
                empty += 1;
            })+
        };
    }
    clear!(events, tps, colours, hos);
    let s = sections(&doc);
    let mut l = Layout::random(&mut cx.r);
    l.shuffle_sections = cx.r.chance(70);
    let laid = lay(Some(&version_line(v)), &s, &l, &mut cx.r);
    cx.note("text", laid.text.as_str());
    let f = sut::accept(&laid.text, "a well-formed file")?;
    ensure!(f.version == v, "version {} instead of {v}", f.version);
    let mut names: Vec<_> = s.iter().map(|s| s.name.as_str()).collect();
    if v <= 4 {
        names.retain(|n| *n != "Colours");
    }
    let got = present(&f);
    ensure!(got == names, "sections {got:?} instead of {names:?}");
    sut::same_doc(&norm(&project_read(&doc, v)), &f, "sections read")?;
    cx.count("set of sections");
    if empty > 0 {
        cx.count("some section empty");
    }
    if s.is_empty() {
        cx.count("no sections");
    }
    cx.eval(&laid.text, true);
    Ok(())
}

fn broken(cx: &mut Cx, osb: bool) -> Res {
    let v = gen::version(&mut cx.r);
    // sections that don't exist in the version, too
    let o = Opt { gated: cx.r.chance(40), ..Opt::small(&mut cx.r) };
    let s = if osb {
        osb_sections(&gen::osb(&mut cx.r, &o))
    } else {
        sections(&gen::doc(&mut cx.r, v, &o))
    };
    let Some(b) = structure::breaking(&mut cx.r, (!osb).then_some(v), &s) else {
        return Ok(());
    };
    let (laid, _) = b.lay(&mut cx.r);
    cx.note(if osb { "osb" } else { "text" }, laid.text.as_str());
    let (d, shown) = if osb {
        let mut f = lib::OsuFile::new(14);
        match f.append_osb(&laid.text) {
            Ok(()) => fail!(".osb: {} ({}) is accepted", b.class, b.kind),
            Err(e) => (format!("{:?}", e.error()), e.error().to_string()),
        }
    } else {
        match sut::parse(&laid.text) {
            Ok(_) => fail!("{} ({}) is accepted", b.class, b.kind),
            Err(e) => (format!("{:?}", e.error()), e.error().to_string()),
        }
    };
    ensure!(d.starts_with(b.kind), "{}: error {d} instead of {}", b.class, b.kind);
    // what the message tells, and what only another one does
    let (has, others): (&[&str], &[&str]) = match b.kind {
        "DuplicateSections" => (&["section"], &["unknown", "bracket", "version"]),
        "UnknownSection" => (&["unknown", "section"], &["bracket", "version"]),
        "SectionNameNoOpenBracket" => (&["open", "["], &["clos", "unknown"]),
        "SectionNameNoCloseBracket" => (&["clos", "]"], &["open", "unknown"]),
        "UnexpectedLine" => (&["line"], &["unknown", "bracket", "version"]),
        "InvalidFileVersion" => (&["version", "3", "14"], &["section", "bracket"]),
        _ => (&["version"], &["section", "bracket"]),
    };
    // without the name, which can be anything
    let plain = match d.split_once('"') {
        Some(_) if b.kind.starts_with("SectionName") => shown.split(" before ").next().and_then(|s| s.split(" after ").next()).unwrap_or(&shown).to_lowercase(),
        _ => shown.to_lowercase(),
    };
    ensure!(
        has.iter().all(|w| plain.contains(w)) && !others.iter().any(|w| plain.contains(w)),
        "the message of {} is {shown:?}",
        b.kind
    );
    if b.kind.starts_with("SectionName") {
        // the name that's shown is the one of the file
        let Loc::Header(i) = b.at else { unreachable!() };
        let raw = b.sections[i].name.trim_start_matches('\u{1}').trim_end();
        let name = raw.strip_prefix('[').unwrap_or(raw);
        ensure!(d == format!("{}({name:?})", b.kind), "{d} for the header {raw:?}");
        ensure!(shown.contains(name), "the message for the header {raw:?} is {shown:?}");
    }
    cx.count(&format!("fault: {}", b.class));
    if osb {
        cx.count("storyboard file");
    }
    cx.eval(&laid.text, true);
    cx.sample(|| format!("{}:\n{}", b.kind, laid.text));
    Ok(())
}

fn osb_fine(cx: &mut Cx) -> Res {
    let o = Opt::small(&mut cx.r);
    let mut doc = gen::osb(&mut cx.r, &o);
    if cx.r.chance(20) {
        doc.vars = doc.vars.map(|_| vec![]);
    }
    if cx.r.chance(20) {
        doc.events = doc.events.map(|_| vec![]);
    }
    let l = Layout::random(&mut cx.r);
    let laid = lay(None, &osb_sections(&doc), &l, &mut cx.r);
    cx.note("osb", laid.text.as_str());
    let f = sut::accept_osb(&laid.text, "a well-formed .osb")?;
    let mut e = doc.clone();
    if let Some(ev) = &mut e.events {
        norm_events(ev);
    }
    let mut got = ext::osb(&f);
    if let Some(ev) = &mut got.events {
        norm_events(ev);
    }
    ensure!(e == got, ".osb: {}", diff(&e, &got));
    // below version 14 there are none
    let v = cx.r.range(3, 13) as u8;
    let mut g = lib::OsuFile::new(v);
    ensure!(g.append_osb(&laid.text).is_ok() && g.osb.is_none(), "version {v} takes an .osb");
    ensure!(g.osb_to_string().is_none(), "version {v} writes an .osb");
    cx.count("storyboard file");
    cx.eval(&laid.text, true);
    Ok(())
}

fn run(cx: &mut Cx) -> Res {
    match cx.r.below(12) {
        0..=3 => well_formed(cx),
        4..=8 => broken(cx, false),
        9 | 10 => broken(cx, true),
        _ => osb_fine(cx),
    }
}

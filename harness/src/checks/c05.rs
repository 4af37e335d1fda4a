//! Every field of a well-formed file is read as the value the format gives it.
use crate::core::*;
use crate::ensure;
use crate::ext;
use crate::gen::{self, Opt};
use crate::model::*;
use crate::render::*;
use crate::sut;

pub const C05: Check = Check {
    id: "C05",
    cases: (900_000, 8_000_000),
    rule: "a well-formed generated file of which every field, as read back through the public interface, was compared with the document it was generated from; distinct by text, non-trivial if it has any item",
    assumptions: &[
        "the meaning of the text comes from a reference model written from the format and the repository's documentation",
        "decimal numbers of up to 28 digits",
        "what a hit object's hit sample is when it's missing or short is its default",
    ],
    need: &[
        ("version 3", 5000),
        ("version 14", 5000),
        ("storyboard file", 20_000),
        ("value: General", 100_000),
        ("value: Editor", 50_000),
        ("value: Metadata", 50_000),
        ("value: Difficulty", 50_000),
        ("event: background", 5000),
        ("event: video", 5000),
        ("event: break", 5000),
        ("event: sprite", 5000),
        ("event: animation", 5000),
        ("event: audio sample", 5000),
        ("command", 100_000),
        ("blanks in a command", 5000),
        ("timing point", 100_000),
        ("colour", 50_000),
        ("object: circle", 50_000),
        ("object: slider", 50_000),
        ("object: spinner", 20_000),
        ("object: hold", 20_000),
    ],
    run,
    known: None,
    exhaustive: false,
};

fn events(cx: &mut Cx, ev: &[Ev]) {
    for e in ev {
        cx.count(match &e.k {
            EvK::Comment(_) => "event: comment",
            EvK::Background { .. } => "event: background",
            EvK::Video { .. } => "event: video",
            EvK::Break { .. } => "event: break",
            EvK::ColourTrans { .. } => "event: colour transformation",
            EvK::Sprite { .. } => "event: sprite",
            EvK::Animation { .. } => "event: animation",
            EvK::Audio { .. } => "event: audio sample",
            _ => "event: legacy storyboard",
        });
        cx.add("command", count_cmds(&e.cmds) as u64);
    }
}

/// Blanks where a command's end time is left out, and around a trigger's type.
fn blanks(cx: &mut Cx, sects: &mut [Sect]) {
    if !cx.r.chance(20) {
        return;
    }
    let mut n = 0;
    for l in sects.iter_mut().filter(|s| s.name == "Events").flat_map(|s| &mut s.lines) {
        if !l.starts_with([' ', '_']) || cx.r.bool() {
            continue;
        }
        let mut p: Vec<String> = l.split(',').map(str::to_string).collect();
        match p[0].trim_start_matches([' ', '_']) {
            "L" => continue,
            "T" => p[1] = format!("{}{}{}", cx.r.pick(&["", " ", "\t"]), p[1], cx.r.pick(&["", " ", "\t"])),
            _ if !p[2].is_empty() && p[3].is_empty() => p[3] = (*cx.r.pick(&[" ", "  ", "\t"])).to_string(),
            _ => continue,
        }
        *l = p.join(",");
        n += 1;
    }
    cx.add("blanks in a command", n);
}

fn run(cx: &mut Cx) -> Res {
    if cx.r.chance(15) {
        let o = Opt::usual(&mut cx.r);
        let mut doc = gen::osb(&mut cx.r, &o);
        doc.vars = None;
        let mut s = osb_sections(&doc);
        blanks(cx, &mut s);
        let text = dressed(None, &s, true, &mut cx.r);
        cx.note("text", text.as_str());
        let f = sut::accept_osb(&text, "a well-formed storyboard file")?;
        let (mut e, mut got) = (doc.clone(), ext::osb(&f));
        for d in [&mut e, &mut got] {
            if let Some(ev) = &mut d.events {
                norm_events(ev);
            }
        }
        ensure!(e == got, "values read: {}", diff(&e, &got));
        events(cx, doc.events.as_deref().unwrap_or(&[]));
        cx.count("storyboard file");
        cx.eval(&text, doc.events.as_ref().is_some_and(|e| !e.is_empty()));
        return Ok(());
    }
    let v = gen::version(&mut cx.r);
    let o = Opt::usual(&mut cx.r);
    let doc = gen::doc(&mut cx.r, v, &o);
    let mut s = sections(&doc);
    blanks(cx, &mut s);
    let text = dressed(Some(v), &s, true, &mut cx.r);
    cx.note("text", text.as_str());
    let f = sut::accept(&text, "a well-formed file")?;
    let expected = norm(&project_read(&doc, v));
    sut::same_doc(&expected, &f, "values read")?;
    cx.eval(&text, doc.items() > 0);
    cx.count(&format!("version {v}"));
    for (kv, name) in doc.kv.iter().zip(KV_NAMES) {
        cx.add(&format!("value: {name}"), kv.as_ref().map_or(0, Vec::len) as u64);
    }
    events(cx, doc.events.as_deref().unwrap_or(&[]));
    cx.add("timing point", doc.tps.as_ref().map_or(0, Vec::len) as u64);
    cx.add("colour", doc.colours.as_ref().map_or(0, Vec::len) as u64);
    for h in doc.hos.iter().flatten() {
        cx.count(match h.k {
            HoK::Circle => "object: circle",
            HoK::Slider { .. } => "object: slider",
            HoK::Spinner { .. } => "object: spinner",
            HoK::Hold { .. } => "object: hold",
        });
    }
    cx.sample(|| text.clone());
    Ok(())
}

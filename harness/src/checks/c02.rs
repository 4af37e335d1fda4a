//! Every value can be written, read out and shown, at every version.
use super::common::*;
use crate::core::*;
use crate::exercise;
use crate::gen::{self, Opt};
use crate::mk;
use crate::sut;
use crate::ensure;
use osu_file_parser as lib;

pub const C02: Check = Check {
    id: "C02",
    cases: (240_000, 2_500_000),
    rule: "a value (parsed or built) whose writers at versions 3 to 14 and accessors all were called, distinct by its text; or an error that was rendered",
    assumptions: &["values come from accepted texts, well-formed or damaged, or from public constructors and fields"],
    need: &[
        ("large inputs", 50),
        ("parsed values", 5000),
        ("built values", 3000),
        ("errors shown", 5000),
        ("storyboard values", 1500),
        ("calls", 200_000),
    ],
    run,
    known: None,
    exhaustive: false,
};

fn show<E: std::error::Error + 'static>(cx: &mut Cx, e: &lib::Error<E>, text: &str) -> Res {
    let a = e.display_error_with_line(text);
    let b = e.to_string();
    ensure!(!a.is_empty() && !b.is_empty(), "an error is shown as nothing");
    let _ = format!("{e:?} {:?}", e.error());
    let mut s: Option<&dyn std::error::Error> = Some(e);
    let mut n = 0;
    while let Some(x) = s {
        let _ = x.to_string();
        s = x.source();
        n += 1;
        ensure!(n < 50, "the sources of an error don't end");
    }
    let _ = e.display_error_with_line("");
    cx.count("errors shown");
    cx.eval(&(text, 0), true);
    Ok(())
}

fn run(cx: &mut Cx) -> Res {
    let n;
    if cx.case % 1500 == 7 {
        let (text, osb) = super::c14::huge(cx, cx.case / 1500, 14);
        match (sut::parse(&text), sut::osb(&text)) {
            (Ok(f), _) => n = exercise::file(&f),
            (_, Ok(Some(o))) => n = exercise::osb(&o),
            (Err(e), _) if !osb => return show(cx, &e, &text),
            (_, Err(e)) => return show(cx, &e, &text),
            _ => return Ok(()),
        }
        cx.eval(&text, true);
        cx.add("calls", n);
        return Ok(());
    }
    match cx.r.below(10) {
        0..=4 => {
            let (_, text) = any_text(cx, false);
            cx.note("text", text.as_str());
            match sut::parse(&text) {
                Ok(mut f) => {
                    cx.count("parsed values");
                    let (_, o) = any_text(cx, true);
                    cx.note("osb", o.as_str());
                    if cx.r.chance(30) && f.append_osb(&o).is_ok() {
                        cx.count("parsed values with storyboard file");
                    }
                    n = exercise::file(&f);
                    cx.eval(&text, true);
                }
                Err(e) => return show(cx, &e, &text),
            }
        }
        5 | 6 => {
            let (_, text) = any_text(cx, true);
            cx.note("osb", text.as_str());
            match sut::osb(&text) {
                Ok(Some(o)) => {
                    cx.count("storyboard values");
                    n = exercise::osb(&o);
                    cx.eval(&text, true);
                }
                Ok(None) => return Ok(()),
                Err(e) => return show(cx, &e, &text),
            }
        }
        _ => {
            let v = gen::version(&mut cx.r);
            let o = Opt { gated: true, ..Opt::usual(&mut cx.r) };
            let doc = mk::buildable(&gen::doc(&mut cx.r, v, &o));
            cx.note("document", format!("{doc:?}"));
            let push = cx.r.bool();
            let mut f = mk::doc(&doc, push);
            if cx.r.chance(40) {
                f.osb = Some(mk::osb(&gen::osb(&mut cx.r, &o), push));
            }
            cx.count("built values");
            n = exercise::file(&f) + f.osb.as_ref().map_or(0, exercise::osb);
            cx.eval(&doc, doc.items() > 0);
        }
    }
    cx.add("calls", n);
    Ok(())
}

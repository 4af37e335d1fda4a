//! Text in the form the writer uses comes out of reading and writing as it went in.
use super::c03::first_diff;
use crate::core::*;
use crate::gen::{self, Opt};
use crate::model::*;
use crate::render::*;
use crate::sut;
use crate::ensure;
use osu_file_parser as lib;

pub const C04: Check = Check {
    id: "C04",
    cases: (400_000, 3_000_000),
    rule: "a text that was read and written at its version and compared character by character (key-value pairs in any order and spacing), distinct by text",
    assumptions: &["the expected text is rendered by the reference model, independently of the library's writers"],
    need: &[("exact", 20_000), ("other layout", 8000), ("storyboard", 8000), ("real", 1)],
    run,
    known: None,
    exhaustive: false,
};

fn run(cx: &mut Cx) -> Res {
    let k = cx.r.below(10);
    if k >= 7 {
        let o = Opt { spell: false, ..Opt::usual(&mut cx.r) };
        let doc = gen::osb(&mut cx.r, &o);
        // without variables there's no choice of where to put them
        let doc = OsbDoc {
            vars: if cx.r.bool() { None } else { doc.vars.map(|_| vec![]) },
            events: doc.events.map(|e| events_after_write(&e, 14)),
        };
        let text = plain(None, &osb_sections(&doc));
        cx.note("osb", text.as_str());
        let f = sut::accept_osb(&text, "a well-formed .osb")?;
        let got = sut::osb_text(&f)?;
        ensure!(got == text, "the .osb comes out changed: {}", first_diff(&text, &got));
        cx.count("storyboard");
        cx.eval(&text, true);
        return Ok(());
    }
    if k == 6 {
        let s = *cx.r.pick(crate::corpus::OSU);
        let s = s.replace("\r\n", "\n");
        if let Ok(f) = sut::parse(&s) {
            let got = f.to_string();
            if lib::osu_str_eq(&got, &s) {
                // the crate's own claim for its sample files
                cx.count("real");
                cx.eval(&s, true);
            } else {
                cx.count("real, not in the writer's form");
            }
        }
        return Ok(());
    }
    let v = gen::version(&mut cx.r);
    let o = Opt { spell: false, gated: false, ..Opt::usual(&mut cx.r) };
    let doc = project_read(&gen::doc(&mut cx.r, v, &o), v);
    let mut doc = doc;
    for h in doc.hos.iter_mut().flatten() {
        // an end time with nothing after it reads as the default hit sample, which is written out
        if matches!(h.k, HoK::Hold { .. }) && h.sample.is_none() {
            h.sample = Some(Hs::default());
        }
    }
    let doc = after_write(&doc, v);
    let expected = canonical(&doc, v);
    let other = k >= 4;
    let text = if other {
        let mut l = Layout::random(&mut cx.r);
        l.shuffle_sections = false;
        lay(Some(&version_line(v)), &sections(&doc), &l, &mut cx.r).text
    } else {
        expected.clone()
    };
    cx.note("text", text.as_str());
    let f = sut::accept(&text, "a well-formed file")?;
    let got = f.to_string();
    ensure!(
        normal_form(&got) == normal_form(&expected),
        "the text comes out changed: {}",
        first_diff(&normal_form(&expected), &normal_form(&got))
    );
    ensure!(lib::osu_str_eq(&got, &expected), "the crate's own comparison tells them apart");
    cx.count(if other { "other layout" } else { "exact" });
    cx.eval(&text, doc.items() > 0);
    cx.sample(|| text.clone());
    Ok(())
}

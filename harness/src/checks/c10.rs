//! Times of versions 3 and 4 are 24 ms later than their text says, and only those.
use crate::core::*;
use crate::ext;
use crate::gen::{self, Opt};
use crate::model::*;
use crate::render::*;
use crate::rng::Rng;
use crate::sut;
use crate::{ensure, fail};
use osu_file_parser as lib;

pub const C10: Check = Check {
    id: "C10",
    cases: (1_600_000, 5_000_000),
    rule: "the same lines read below version 5 and at a version from 5 on, with all times compared; or one time at the edge of the 32-bit range; distinct by text and version",
    assumptions: &["decimal times are within 10^18 and 15 digits, so that adding 24 is exact"],
    need: &[
        ("object times", 20_000),
        ("spinner and hold ends", 8000),
        ("timing point times", 10_000),
        ("break, video and colour times", 8000),
        ("times that stay", 10_000),
        ("out of range rejected", 2000),
        ("edge of range accepted", 2000),
        ("written back", 20_000),
        ("moved to another version", 10_000),
    ],
    run,
    known: None,
    exhaustive: false,
};

/// raw time text and its value
fn dec_time(r: &mut Rng) -> D {
    match r.below(6) {
        0 => D::int(r.range(-30, 30)),
        1 => D::int(r.range(i64::from(i32::MIN) - 100, i64::from(i32::MIN) + 100)),
        2 => D::int(r.range(i64::from(i32::MAX) - 100, i64::from(i32::MAX) + 100)),
        3 => D::N { m: i128::from(r.range(-1_000_000_000, 1_000_000_000)), s: r.below(7) as u32 },
        _ => gen::dec(r, true),
    }
}

fn int_time(r: &mut Rng) -> i32 {
    match r.below(6) {
        0 => r.range(-30, 30) as i32,
        1 => i32::MIN + r.below(60) as i32,
        2 => i32::MAX - 24 - r.below(60) as i32,
        _ => r.range(-1_000_000, 1_000_000) as i32,
    }
}

struct T {
    section: &'static str,
    line: String,
    what: &'static str,
    /// times in the line
    n: usize,
    shifted: bool,
}

fn line(r: &mut Rng, v: u8) -> T {
    let t = dec_time(r).text();
    let e = dec_time(r).text();
    let (a, b) = (int_time(r), int_time(r));
    let ho = "HitObjects";
    let ev = "Events";
    let (section, line, what, n, shifted) = match r.below(16) {
        0 => (ho, format!("256,192,{t},1,0"), "object", 1, true),
        1 => (ho, format!("256,192,{t},5,2,0:0:0"), "object", 1, true),
        2 => (ho, format!("1,2,{t},2,0,B|1:2|3:4,1,100"), "object", 1, true),
        3 | 4 => (ho, format!("256,192,{t},{},0,{e}", *r.pick(&[8, 12])), "end", 2, true),
        5 | 6 => (ho, format!("100,192,{t},128,0,{e}:0:0:0"), "end", 2, true),
        7 | 8 => (
            "TimingPoints",
            if v == 3 { format!("{t},500") } else { format!("{t},500,4,1,{}", r.below(5)) },
            "timing",
            1,
            true,
        ),
        9 => (ev, format!("{},{a},{b}", *r.pick(&["2", "Break"])), "break", 2, true),
        10 => (ev, format!("{},{a},\"v.avi\"{}", *r.pick(&["1", "Video"]), *r.pick(&["", ",0,0"])), "break", 1, true),
        11 => (ev, format!("3,{a},1,2,3"), "break", 1, true),
        12 => (ev, format!("0,{a},\"bg.png\",0,0"), "stay", 1, false),
        13 => (ev, format!("6,{t},0,\"s.wav\",50"), "stay", 1, false),
        14 => (ev, format!("Sample,{a},0,\"s.wav\",50"), "stay", 1, false),
        _ => (
            ev,
            format!("Sprite,Pass,Centre,\"a.png\",1,2\n F,0,{a},{b},1\n L,{a},5\n  M,0,{a},{b},1,2\n T,Passing,{a},{b}"),
            "stay",
            7,
            false,
        ),
    };
    T { section, line, what, n, shifted }
}

fn cmd_times(c: &[Cmd], out: &mut Vec<D>) {
    for c in c {
        out.extend(c.start.map(|t| D::int(i64::from(t))));
        let end = match &c.k {
            CmdK::Vals { end, .. } | CmdK::Colour { end, .. } | CmdK::Param { end, .. } | CmdK::Trigger { end, .. } => *end,
            CmdK::Loop { .. } => None,
        };
        out.extend(end.map(|t| D::int(i64::from(t))));
        if let Some(k) = c.children() {
            cmd_times(k, out);
        }
    }
}

fn times(d: &Doc) -> Vec<D> {
    let i = |t: i32| D::int(i64::from(t));
    let mut out = Vec::new();
    for e in d.events.iter().flatten() {
        match &e.k {
            EvK::Background { start, .. } | EvK::Video { start, .. } | EvK::ColourTrans { start, .. } => out.push(i(*start)),
            EvK::Break { start, end, .. } => out.extend([i(*start), i(*end)]),
            EvK::SampleLegacy { time, .. } => out.push(time.clone()),
            EvK::Audio { time, .. } => out.push(i(*time)),
            _ => (),
        }
        cmd_times(&e.cmds, &mut out);
    }
    for t in d.tps.iter().flatten() {
        out.push(t.time.clone());
    }
    for h in d.hos.iter().flatten() {
        out.push(h.time.clone());
        if let HoK::Spinner { end } | HoK::Hold { end } = &h.k {
            out.push(end.clone());
        }
    }
    out
}

fn compare(cx: &mut Cx) -> Res {
    let v = *cx.r.pick(&[3u8, 4]);
    let t = line(&mut cx.r, v);
    let w = cx.r.range(5, 13) as u8;
    // a timing point of version 3 isn't one of version 5
    let old = plain(Some(v), &[Sect { name: t.section.to_string(), kv: false, lines: vec![t.line.clone()] }]);
    let new_line = match (t.what, v) {
        ("timing", 3) => format!("{},4,1,1,100", t.line),
        ("timing", _) => format!("{},100", t.line),
        _ => t.line.clone(),
    };
    let new = plain(Some(w), &[Sect { name: t.section.to_string(), kv: false, lines: vec![new_line] }]);
    cx.note("text", old.as_str());
    cx.note("newer", new.as_str());
    let f = sut::accept(&old, "a file of an old version")?;
    let g = sut::accept(&new, "the same lines at a newer version")?;
    let (a, b) = (times(&ext::doc(&f)), times(&ext::doc(&g)));
    ensure!(a.len() == t.n && b.len() == t.n, "{} and {} times instead of {}", a.len(), b.len(), t.n);
    let by = if t.shifted { 24 } else { 0 };
    for (i, (a, b)) in a.iter().zip(&b).enumerate() {
        ensure!(
            *a == b.shift(by),
            "time {i} of {:?} is {a:?} at version {v} and {b:?} at version {w}; should be {by} ms apart",
            t.line
        );
        cx.count(match (t.what, i) {
            ("object", _) | ("end", 0) => "object times",
            ("end", _) => "spinner and hold ends",
            ("timing", _) => "timing point times",
            ("break", _) => "break, video and colour times",
            _ => "times that stay",
        });
    }
    // written back, the text has its times again
    let out = f.to_string();
    let line = out.split_once("]\n").map_or("", |l| l.1);
    let first = |s: &str| s.split(',').take(3).collect::<Vec<_>>().join(",");
    let same = match t.what {
        "object" | "end" => first(line) == first(&t.line),
        "timing" => line == t.line || line == format!("{},100", t.line),
        _ => line == t.line,
    };
    ensure!(same, "{:?} is written back as {line:?} at version {v}", t.line);
    if t.what == "end" {
        let end = |s: &str| s.split([',', ':']).nth(5).map(str::to_string);
        ensure!(end(line) == end(&t.line), "the end of {:?} is written back as {line:?}", t.line);
    }
    cx.count("written back");
    // and at another version the time it means
    let mut h = f.clone();
    h.version = w;
    let k = sut::accept(&h.to_string(), "an old file written at a newer version")?;
    if t.what != "break" || !t.line.starts_with('3') || w < 14 {
        ensure!(times(&ext::doc(&k)) == a, "times change from version {v} to {w}: {:?} to {:?}", a, times(&ext::doc(&k)));
    }
    let low = |d: &D| matches!(d, D::N { m, s: 0 } if *m < i128::from(i32::MIN) + 24);
    if !b.iter().any(low) {
        let mut h = g.clone();
        h.version = v;
        let k = sut::accept(&h.to_string(), "a newer file written at an old version")?;
        ensure!(times(&ext::doc(&k)) == b, "times change from version {w} to {v}: {:?} to {:?}", b, times(&ext::doc(&k)));
        cx.count("moved to another version");
    }
    cx.eval(&(&old, w), true);
    cx.sample(|| old.clone());
    Ok(())
}

/// times that can't be 24 ms later
fn edge(cx: &mut Cx) -> Res {
    let v = *cx.r.pick(&[3u8, 4]);
    let over = cx.r.bool();
    let t = if over { i32::MAX - cx.r.below(24) as i32 } else { i32::MAX - 24 - cx.r.below(4) as i32 };
    let (line, kind) = match cx.r.below(4) {
        0 => (format!("2,{t},100"), "InvalidStartTime"),
        1 => (format!("2,100,{t}"), "InvalidEndTime"),
        2 => (format!("1,{t},\"v.avi\",0,0"), "InvalidStartTime"),
        _ => (format!("3,{t},1,2,3"), "InvalidStartTime"),
    };
    let text = format!("osu file format v{v}\n\n[Events]\n{line}");
    cx.note("text", text.as_str());
    match (sut::parse(&text), over) {
        (Ok(f), false) => {
            let got = times(&ext::doc(&f));
            ensure!(got.contains(&D::int(i64::from(t) + 24)), "{line:?} has the times {got:?}");
            cx.count("edge of range accepted");
        }
        (Ok(f), true) => {
            fail!("{line:?} of version {v} has the times {:?}, 24 ms later there's no such number", times(&ext::doc(&f)))
        }
        (Err(e), true) => {
            let d = format!("{:?}", e.error());
            ensure!(d.contains(kind), "{line:?} of version {v} gives {d} instead of {kind}");
            cx.count("out of range rejected");
        }
        (Err(e), false) => fail!("{line:?} of version {v} is rejected: {:?}", e.error()),
    }
    // at other versions it's a time like any other
    let w = cx.r.range(5, 14) as u8;
    let f: lib::OsuFile = sut::accept(&format!("osu file format v{w}\n\n[Events]\n{line}"), "a time near the end of the range")?;
    ensure!(times(&ext::doc(&f)).contains(&D::int(i64::from(t))), "{line:?} at version {w}");
    cx.eval(&(&text, w), true);
    Ok(())
}

/// whole files of version 3 and 4, by the model
fn whole(cx: &mut Cx) -> Res {
    let v = *cx.r.pick(&[3u8, 4]);
    let o = Opt::usual(&mut cx.r);
    let doc = project_read(&gen::doc(&mut cx.r, v, &o), v);
    let text = dressed(Some(v), &sections(&doc), true, &mut cx.r);
    cx.note("text", text.as_str());
    let f = sut::accept(&text, "a well-formed file")?;
    let (a, b) = (times(&norm(&doc)), times(&norm(&ext::doc(&f))));
    ensure!(a == b, "times: {}", diff(&a, &b));
    cx.eval(&text, !a.is_empty());
    Ok(())
}

fn run(cx: &mut Cx) -> Res {
    match cx.r.below(10) {
        0 => whole(cx),
        1 => edge(cx),
        _ => compare(cx),
    }
}

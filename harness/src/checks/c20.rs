//! Names of an animation's frames, and paths of sprites.
use super::common::*;
use crate::core::*;
use crate::ensure;
use crate::gen;
use crate::rng::Rng;
use lib::events::storyboard::sprites as ls;
use lib::events::Event;
use osu_file_parser as lib;
use std::path::{Path, PathBuf};

pub const C20: Check = Check {
    id: "C20",
    cases: (2_000_000, 12_000_000),
    rule: "an animation, from a line or built, of which the frame names were compared with the definition, or a sprite built from a path; distinct by path and frame count, non-trivial if there is a frame",
    assumptions: &[
        "paths are separated with /, as on the system the check runs on",
        "a path without a file name in it has frames named by the number only",
        "frame counts up to 100,001, as the names are all made at once",
    ],
    need: &[
        ("from a line", 40_000),
        ("built", 40_000),
        ("in quotes", 30_000),
        ("in a folder", 30_000),
        ("several dots", 20_000),
        ("no extension", 20_000),
        ("dot first", 5000),
        ("dot last", 5000),
        ("no name", 3000),
        ("no frames", 2000),
        ("ten frames and more", 20_000),
        ("65535 frames and more", 20),
        ("edited", 10_000),
        ("absolute path", 5000),
        ("relative path", 10_000),
    ],
    run,
    known: None,
    exhaustive: false,
};

fn name(r: &mut Rng) -> String {
    let part = |r: &mut Rng| -> String {
        match r.below(6) {
            0 => (*r.pick(&["a", "sb", "png", "0", "1", "é", "日本", "🙂", "frame", "10"])).to_string(),
            1 => String::new(),
            _ => gen::word(r, false)
                .chars()
                .filter(|c| !matches!(c, '.' | '/' | ',' | '"' | '\\') && !c.is_control() && !c.is_whitespace())
                .collect(),
        }
    };
    let n = match r.below(10) {
        0..=5 => 2,
        6 => 1,
        7 | 8 => 3,
        _ => 1 + r.below(5),
    };
    let mut s = (0..n).map(|_| part(r)).collect::<Vec<_>>().join(".");
    if r.chance(10) {
        // the extension's text again in the name
        let e = s.rsplit('.').next().unwrap_or("").to_string();
        s = format!("{e}.{s}");
    }
    if r.chance(10) {
        s = s.replace('.', " .");
    }
    while r.chance(12) {
        let at: Vec<usize> = s.char_indices().map(|c| c.0).chain([s.len()]).collect();
        let c = *r.pick(&[' ', ' ', '\t', '\u{a0}', '\u{3000}', '\\', ',', ':', '$', '%', '\'', '{', '}', '[', '_', '-', '+', '0', '9', 'A', 'É', '\u{301}', '\n', '~', '*']);
        s.insert(*r.pick(&at), c);
    }
    if r.chance(4) {
        s = (*r.pick(&[".", "..", "", "...", "a..", "..a", ".a.b", ".a", "a.", "a.b.", " "])).to_string();
    }
    s
}

fn path(r: &mut Rng) -> String {
    let mut s = name(r);
    for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2, 4]) {
        let d = name(r);
        s = format!("{d}/{s}");
    }
    if r.chance(3) {
        s.push('/');
    }
    if r.chance(2) {
        s.push_str("/.");
    }
    s
}

/// The name before and after the frame's number.
fn halves(p: &str) -> (String, String) {
    let mut last = "";
    for c in p.split('/') {
        if !c.is_empty() && c != "." {
            last = c;
        }
    }
    if last == ".." {
        return (String::new(), String::new());
    }
    match last.rfind('.') {
        None | Some(0) => (last.to_string(), String::new()),
        Some(i) => (last[..i].to_string(), last[i..].to_string()),
    }
}

fn frames(cx: &mut Cx, a: &ls::Animation, p: &str) -> Res {
    let (before, after) = halves(p);
    let got = a.frame_file_names();
    ensure!(got.len() == a.frame_count as usize, "{} names of {} frames of {p:?}", got.len(), a.frame_count);
    for (i, g) in got.iter().enumerate() {
        let want = format!("{before}{i}{after}");
        ensure!(g.as_os_str() == want.as_str(), "frame {i} of {p:?} is {g:?} instead of {want:?}");
    }
    if before.is_empty() && after.is_empty() {
        cx.count("no name");
    } else {
        if after.is_empty() {
            cx.count("no extension");
        }
        if before.starts_with('.') {
            cx.count("dot first");
        }
        if after == "." {
            cx.count("dot last");
        }
        if before.contains('.') {
            cx.count("several dots");
        }
        if p.contains('/') {
            cx.count("in a folder");
        }
    }
    match got.len() {
        0 => cx.count("no frames"),
        1..=9 => (),
        65_535.. => cx.count("65535 frames and more"),
        _ => cx.count("ten frames and more"),
    }
    Ok(())
}

fn run(cx: &mut Cx) -> Res {
    let mut p = path(&mut cx.r);
    if cx.r.chance(10) {
        if cx.r.chance(40) {
            p = format!("/{p}");
        }
        cx.note("path", p.as_str());
        let got = ls::Sprite::new(Path::new(&p));
        if p.starts_with('/') {
            ensure!(got.is_err(), "a sprite is built from the absolute path {p:?}");
            cx.count("absolute path");
        } else {
            match &got {
                Ok(s) => ensure!(s.filepath.get().as_os_str() == p.as_str(), "a sprite of {p:?} has the path {:?}", s.filepath),
                Err(e) => crate::fail!("no sprite is built from the relative path {p:?}: {e}"),
            }
            cx.count("relative path");
        }
        cx.eval(&("sprite", &p), true);
        return Ok(());
    }
    let n = match cx.r.below(40) {
        0 => 0,
        1..=20 => 1 + cx.r.below(9),
        21..=38 => cx.r.below(60),
        _ if cx.r.chance(1) => *cx.r.pick(&[32_767, 32_768, 65_535, 65_536, 65_537, 100_001]),
        _ => *cx.r.pick(&[99, 100, 101, 255, 256, 257, 999, 1000, 1001, 5000]),
    } as u32;
    cx.note("path", p.as_str());
    cx.note("frames", n.to_string());
    // a comma separates fields, also between quotes
    let line_ok = !p.is_empty() && p.trim() == p && !p.contains([',', '\n']);
    let mut a = if cx.r.bool() && line_ok {
        let q = if p.contains(' ') || cx.r.bool() { "\"" } else { "" };
        let line = format!("Animation,Pass,Centre,{q}{p}{q},320,240,{n},500,LoopForever");
        cx.note("line", line.as_str());
        let ev = match lib::events::Events::from_str(&line, 14) {
            Ok(Some(e)) => e,
            e => crate::fail!("{line:?} gives {e:?}"),
        };
        let a = match ev.0.as_slice() {
            [Event::StoryboardObject(ls::Object { object_type: ls::ObjectType::Animation(a), .. })] => a.clone(),
            e => crate::fail!("{line:?} gives {e:?}"),
        };
        let kept = format!("{q}{p}{q}");
        ensure!(a.filepath.get().as_os_str() == kept.as_str() && a.frame_count == n, "{line:?} is read as {a:?}");
        cx.count("from a line");
        if !q.is_empty() {
            cx.count("in quotes");
        }
        a
    } else {
        cx.count("built");
        let filepath = if cx.r.bool() { p.as_str().into() } else { PathBuf::from(&p).into() };
        ls::Animation { frame_count: n, frame_delay: rust_decimal::Decimal::ONE, loop_type: ls::LoopType::LoopOnce, filepath }
    };
    frames(cx, &a, &p)?;
    if cx.r.chance(15) {
        // the names follow the value
        let q = path(&mut cx.r);
        a.frame_count = cx.r.below(20) as u32;
        a.filepath.set(&q);
        cx.note("path afterwards", q.as_str());
        frames(cx, &a, &q)?;
        cx.count("edited");
    }
    cx.eval(&("animation", &p, n), n > 0);
    cx.sample(|| format!("{p:?}, {n} frames: {:?}", a.frame_file_names().first()));
    Ok(())
}

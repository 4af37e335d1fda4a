//! Commands belong where their indentation says.
use crate::core::*;
use crate::ext;
use crate::gen::{self, Opt};
use crate::mk;
use crate::model::*;
use crate::render::*;
use crate::rng::Rng;
use crate::sut;
use crate::{ensure, fail};
use lib::events::{Event, EventWithCommands};
use lib::VersionedToString;
use osu_file_parser as lib;

pub const C12: Check = Check {
    id: "C12",
    cases: (1_500_000, 5_000_000),
    rule: "a sequence of commands with chosen indentations, put under an object by text or by calls, compared with a reference stack machine; distinct by text",
    assumptions: &["indentation is spaces and underscores", "nesting up to some dozen levels"],
    need: &[
        ("long lists", 10),
        ("sequences by text", 20_000),
        ("sequences by calls", 10_000),
        ("accepted sequences", 10_000),
        ("rejected sequences", 10_000),
        ("refused calls", 10_000),
        ("three or more levels", 4000),
        ("back by several levels", 3000),
        ("written", 10_000),
        ("commands without an object", 1000),
    ],
    run,
    known: None,
    exhaustive: false,
};

/// The reference: where a command with `depth` levels of indentation goes, if anywhere.
fn push(tree: &mut Vec<Cmd>, c: &Cmd, depth: usize) -> bool {
    match depth {
        0 => false,
        1 => {
            tree.push(c.clone());
            true
        }
        _ => match tree.last_mut().and_then(Cmd::children_mut) {
            Some(k) => push(k, c, depth - 1),
            None => false,
        },
    }
}

fn deepest(tree: &[Cmd]) -> usize {
    tree.iter().map(|c| 1 + c.children().map_or(0, |c| deepest(c))).max().unwrap_or(0)
}

fn longest(tree: &[Cmd]) -> usize {
    tree.iter().map(|c| c.children().map_or(0, |c| longest(c))).max().unwrap_or(0).max(tree.len())
}

fn single(r: &mut Rng, nest: u32) -> Cmd {
    if r.chance(nest) {
        loop {
            let mut c = gen::cmd(r, false, 1);
            if let Some(k) = c.children_mut() {
                k.clear();
                return c;
            }
        }
    }
    gen::cmd(r, false, 0)
}

fn sequence(r: &mut Rng) -> Vec<(usize, Cmd)> {
    let n = 1 + r.below(12);
    let n = r.many(n, 500);
    let mut nest = *r.pick(&[30, 60, 95]);
    let mut wild = *r.pick(&[0, 0, 10, 40]);
    let mut again = 8;
    if n > 40 {
        // long lists, not only deep ones
        nest = *r.pick(&[0, 2, 30, 95]);
        wild = *r.pick(&[0, 0, 0, 10]);
        again = *r.pick(&[8, 50, 95]);
    }
    // the depth that's possible next
    let mut open = 1;
    let mut out = Vec::new();
    for _ in 0..n {
        let depth = if r.chance(wild) {
            match r.below(40) {
                // one that's too deep, but would be possible with fewer bits
                0 => 256 + r.below(open + 3),
                1 if r.chance(4) => 65_536 + r.below(open + 3),
                _ => r.below(open + 3),
            }
        } else if r.chance(60) {
            open
        } else {
            1 + r.below(open)
        };
        let c = match out.last() {
            Some((_, c)) if r.chance(again) => Cmd::clone(c),
            _ => single(r, nest),
        };
        if depth >= 1 && depth <= open {
            open = depth + usize::from(c.children().is_some());
        }
        out.push((depth, c));
    }
    out
}

fn host(r: &mut Rng, with: bool) -> Ev {
    loop {
        let mut e = gen::event(
            r,
            &Opt { max: 4, hostile: false, spell: false, gated: false, present: 100 },
        );
        e.cmds.clear();
        if e.k.takes_cmds() == with {
            return e;
        }
    }
}

pub fn commands(e: &mut Event) -> Option<&mut dyn EventWithCommands> {
    Some(match e {
        Event::Background(o) => o,
        Event::Video(o) => o,
        Event::SpriteLegacy(o) => o,
        Event::AnimationLegacy(o) => o,
        Event::SampleLegacy(o) => o,
        Event::StoryboardObject(o) => o,
        _ => return None,
    })
}

fn written(cx: &mut Cx, f: &lib::OsuFile, e: &Ev, v: u8) -> Res {
    let out = f.to_string();
    let expected: Vec<String> = event_lines(&events_after_write(&[e.clone()], v)[0], v);
    let got: Vec<&str> = out.lines().skip_while(|l| *l != "[Events]").skip(1).collect();
    ensure!(got == expected, "written as {got:?} instead of {expected:?}");
    cx.count("written");
    Ok(())
}

/// The error tells the deepest indentation that's possible, or the least one, and the one that was given.
fn indentation_error(d: &str, depth: usize, deepest: usize) -> bool {
    let deepest = if depth == 0 { 1 } else { deepest };
    d.contains(&format!("InvalidIndentation({deepest}, {depth})"))
}

/// The deepest indentation the next command can have.
fn possible(cmds: &[Cmd]) -> usize {
    let mut depth = 1;
    let mut last = cmds.last();
    while let Some(children) = last.and_then(|c| c.children()) {
        depth += 1;
        last = children.last();
    }
    depth
}

fn by_text(cx: &mut Cx) -> Res {
    let v = gen::version(&mut cx.r);
    let mut e = host(&mut cx.r, true);
    let seq = sequence(&mut cx.r);
    let mut lines = vec![event_head(&e.k, v)];
    let mut bad = None;
    let mut last = 0;
    for (depth, c) in &seq {
        if *depth == 0 {
            continue;
        }
        let ind: String = (0..*depth).map(|_| if cx.r.chance(25) { '_' } else { ' ' }).collect();
        if cx.r.chance(5) {
            lines.push(String::new());
        }
        lines.push(format!("{ind}{}", cmd_text(c)));
        if bad.is_none() {
            if !push(&mut e.cmds, c, *depth) {
                bad = Some((lines.len() - 1, *depth, possible(&e.cmds)));
            } else {
                if last > depth + 1 {
                    cx.count("back by several levels");
                }
                last = *depth;
            }
        }
    }
    // something after it that isn't part of it
    let mut after = host(&mut cx.r, false);
    if let EvK::ColourTrans { .. } = after.k {
        after.k = EvK::Break { long: false, start: 1, end: 2 };
    }
    lines.push(event_head(&after.k, v));
    let text = format!("osu file format v{v}\n\n[Events]\n{}", lines.join("\n"));
    cx.note("text", text.as_str());
    cx.count("sequences by text");
    cx.eval(&text, seq.len() > 1);
    match (sut::parse(&text), bad) {
        (Ok(f), None) => {
            let mut want = vec![e.clone(), after.clone()];
            let mut got = ext::events(f.events.as_ref().expect("MONITOR: no events"));
            norm_events(&mut want);
            norm_events(&mut got);
            ensure!(want == got, "nesting: {}", diff(&want, &got));
            let mut f = f;
            f.events.as_mut().expect("MONITOR: no events").0.truncate(1);
            written(cx, &f, &e, v)?;
            cx.count("accepted sequences");
            if longest(&e.cmds) > 100 {
                cx.count("long lists");
            }
            if deepest(&e.cmds) >= 3 {
                cx.count("three or more levels");
            }
            cx.sample(|| text.clone());
            Ok(())
        }
        (Ok(_), Some((l, ..))) => fail!("{:?} has nothing to belong to, but is accepted", lines[l]),
        (Err(err), None) => fail!("rejected: {} {:?}", err.display_error_with_line(&text), err.error()),
        (Err(err), Some((l, depth, deepest))) => {
            let d = format!("{:?}", err.error());
            ensure!(indentation_error(&d, depth, deepest), "{:?} gives {d}", lines[l]);
            ensure!(err.line_index() == l + 3, "line index {} instead of {}", err.line_index(), l + 3);
            cx.count("rejected sequences");
            Ok(())
        }
    }
}

fn by_calls(cx: &mut Cx) -> Res {
    let v = gen::version(&mut cx.r);
    let mut e = host(&mut cx.r, true);
    if let EvK::Video { long, .. } = &mut e.k {
        *long = false;
    }
    let mut event = mk::event(&e, false);
    let seq = sequence(&mut cx.r);
    cx.note("calls", format!("{:?}", seq.iter().map(|(d, c)| format!("{d}: {}", cmd_text(c))).collect::<Vec<_>>()));
    for (depth, c) in &seq {
        let before = event.clone();
        let ok = push(&mut e.cmds, c, *depth);
        let got = commands(&mut event).expect("MONITOR: an event lost its commands").try_push_cmd(mk::cmd(c), *depth);
        ensure!(ok == got.is_ok(), "pushing {:?} at {depth} gives {got:?}", cmd_text(c));
        if !ok {
            ensure!(event == before, "a refused command changed the object");
            let d = format!("{got:?}");
            let shown = got.unwrap_err().to_string();
            let numbers: Vec<&str> = shown.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).collect();
            ensure!(
                numbers.contains(&&depth.to_string()[..]) && (*depth == 0 || numbers.contains(&&possible(&e.cmds).to_string()[..])),
                "pushing at {depth} tells {shown:?}"
            );
            ensure!(indentation_error(&d, *depth, possible(&e.cmds)), "pushing {:?} at {depth} gives {d}", cmd_text(c));
            cx.count("refused calls");
        }
        let have = ext::cmds(commands(&mut event).expect("MONITOR: an event lost its commands").commands());
        ensure!(have == e.cmds, "after pushing {:?} at {depth}: {}", cmd_text(c), diff(&e.cmds, &have));
    }
    cx.count("sequences by calls");
    if deepest(&e.cmds) >= 3 {
        cx.count("three or more levels");
    }
    let want = event_lines(&events_after_write(&[e.clone()], v).pop().unwrap(), v).join("\n");
    let got = VersionedToString::to_string(&event, v).unwrap_or_default();
    ensure!(got == want, "written as {got:?} instead of {want:?}");
    cx.count("written");
    cx.eval(&got, seq.len() > 1);
    Ok(())
}

fn without(cx: &mut Cx) -> Res {
    let v = gen::version(&mut cx.r);
    let c = cmd_text(&gen::cmd(&mut cx.r, false, 0));
    let depth = 1 + cx.r.below(3);
    let ind = " ".repeat(depth);
    let mut lines = vec![];
    let first = cx.r.chance(30);
    if !first {
        // an object whose commands are over
        if cx.r.bool() {
            lines.push(event_head(&host(&mut cx.r, true).k, v));
        }
        lines.push(event_head(&host(&mut cx.r, false).k, v));
    } else {
        // at the section's start the indentation isn't seen, after a comment it is
        lines.push("// nothing".to_string());
    }
    lines.push(format!("{ind}{c}"));
    let text = format!("osu file format v{v}\n\n[Events]\n{}", lines.join("\n"));
    cx.note("text", text.as_str());
    match sut::parse(&text) {
        Ok(_) => fail!("a command that has no object is accepted"),
        Err(e) => {
            let d = format!("{:?}", e.error());
            ensure!(d.contains("StoryboardCmdWithNoSprite"), "a command that has no object gives {d}");
            ensure!(e.line_index() == lines.len() + 2, "line index {}", e.line_index());
        }
    }
    cx.count("commands without an object");
    cx.eval(&text, true);
    Ok(())
}

fn run(cx: &mut Cx) -> Res {
    match cx.r.below(10) {
        0 => without(cx),
        1..=6 => by_text(cx),
        _ => by_calls(cx),
    }
}

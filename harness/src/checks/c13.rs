//! Variables of an .osb stand for their values, in commands and nowhere else.
use super::c03::first_diff;
use crate::core::*;
use crate::ext;
use crate::gen::{self, Opt};
use crate::model::*;
use crate::render::*;
use crate::rng::Rng;
use crate::sut;
use crate::ensure;
use osu_file_parser as lib;

pub const C13: Check = Check {
    id: "C13",
    cases: (500_000, 3_000_000),
    rule: "an .osb in which values inside of commands were replaced by variables, compared with the one without; distinct by text",
    assumptions: &[
        "no variable's name starts with another's, and values have no `$`",
        "[Variables] comes before [Events]",
    ],
    need: &[
        ("variables used", 10_000),
        ("two variables in a line", 3000),
        ("variable inside of a field", 3000),
        ("variable outside of commands", 2000),
        ("written with the variable", 3000),
        ("written with several variables", 1000),
        ("unknown variable", 2000),
        ("other storyboard later", 1000),
        ("variable as a type", 1000),
        ("variable as a type and a value", 100),
        ("many variables", 1000),
        ("parts on their own", 2000),
        ("name defined twice", 2000),
    ],
    run,
    known: None,
    exhaustive: false,
};

/// Replaces some occurrences of values after the first comma of the command.
fn hide(r: &mut Rng, line: &str, vars: &[(String, String)], used: &mut Vec<(usize, bool)>) -> String {
    let Some(comma) = line.find(',') else { return line.to_string() };
    let (head, rest) = line.split_at(comma + 1);
    let mut out = head.to_string();
    let mut i = 0;
    'outer: while i < rest.len() {
        let mut order: Vec<usize> = (0..vars.len()).collect();
        r.shuffle(&mut order);
        for n in order {
            let (name, value) = &vars[n];
            if !value.is_empty() && rest[i..].starts_with(value.as_str()) && r.chance(45) {
                let end = i + value.len();
                let whole = (i == 0 || rest[..i].ends_with(',')) && (end == rest.len() || rest[end..].starts_with(','));
                out.push('$');
                out.push_str(name);
                used.push((n, whole));
                i = end;
                continue 'outer;
            }
        }
        let c = rest[i..].chars().next().unwrap();
        out.push(c);
        i += c.len_utf8();
    }
    out
}

/// What a command is written as with the variables, if it doesn't depend on the
/// order in which they are put in.
fn named(text: &str, vars: &[(String, String)], different: &mut Vec<usize>) -> Option<String> {
    let here: Vec<usize> = (0..vars.len()).filter(|&i| !vars[i].1.is_empty() && text.contains(&vars[i].1)).collect();
    let put = |order: &[usize]| {
        let mut s = text.to_string();
        for &i in order {
            let (n, v) = &vars[i];
            let new = s.replace(v.as_str(), &format!("${n}"));
            let mut back = new.clone();
            for (n, v) in vars {
                back = back.replace(&format!("${n}"), v);
            }
            // the name may have swallowed the text of one that isn't defined
            if back == text {
                s = new;
            }
        }
        s
    };
    let want = put(&here);
    let mut order = here.clone();
    // all of the rotations, both ways
    for _ in 0..2 {
        for _ in 0..order.len() {
            if put(&order) != want {
                return None;
            }
            order.rotate_left(1);
        }
        order.reverse();
    }
    // a value that only comes up in what stands for another one
    let all: Vec<usize> = (0..vars.len()).collect();
    if put(&all) != want {
        return None;
    }
    for i in here {
        if want.contains(&format!("${}", vars[i].0)) && !different.contains(&i) {
            different.push(i);
        }
    }
    Some(want)
}

/// variables out of what's in the commands
fn variables(r: &mut Rng, lines: &[String]) -> Vec<(String, String)> {
    let mut vars: Vec<(String, String)> = Vec::new();
    let n = 1 + r.below(4);
    for i in 0..n {
        let name = match r.below(7) {
            0 => format!("v{i}_"),
            1 => format!("{i}fade"),
            2 => format!("ü{i}x"),
            3 => format!("a b{i} c"),
            4 => format!("{}{i}", *r.pick(gen::LONG_NAMES)),
            5 => format!("{i}{}{}", *r.pick(gen::LONG_NAMES), r.below(1000)),
            _ => format!("{}{i}z", gen::word(r, false)),
        };
        let value = if r.chance(80) && !lines.is_empty() {
            let l = r.pick(lines).clone();
            let f: Vec<&str> = l.split(',').skip(1).collect();
            if f.is_empty() {
                continue;
            }
            let a = r.below(f.len());
            let b = a + 1 + if r.chance(25) { r.below(f.len() - a) } else { 0 };
            let mut v = f[a..b].join(",");
            if f.get(b).is_some_and(|f| f.starts_with(' ')) && r.bool() {
                // a blank at its end
                v += ", ";
            }
            if v.len() > 2 && v.is_ascii() && r.chance(25) {
                v = v[1..].to_string();
            }
            v
        } else {
            (*r.pick(&["1", "0", "100", "0.5", "x", "H", "", "0,0", "a=b", "=", "1=", "a:b", "//x", "[x]"])).to_string()
        };
        let clash = vars.iter().any(|(o, _)| o.starts_with(&name) || name.starts_with(o.as_str()));
        if !clash && !value.contains('$') && (value.is_empty() || !value.trim().is_empty()) {
            if n == 1 && r.chance(8) {
                return vec![(String::new(), value)];
            }
            vars.push((name, value));
        }
    }
    vars
}

fn run(cx: &mut Cx) -> Res {
    let o = Opt { max: 5, ..Opt::usual(&mut cx.r) };
    let mut doc = gen::osb(&mut cx.r, &o);
    doc.vars = None;
    let Some(events) = doc.events.clone() else { return Ok(()) };
    let plain_lines: Vec<String> = events.iter().flat_map(|e| event_lines(e, 14)).collect();
    let is_cmd = |l: &String| l.starts_with(' ');
    let cmd_lines: Vec<String> = plain_lines.iter().filter(|l| is_cmd(l)).cloned().collect();
    if plain_lines.iter().any(|l| l.contains('$')) {
        return Ok(());
    }
    let mut vars = variables(&mut cx.r, &cmd_lines);
    if vars.is_empty() {
        return Ok(());
    }
    // many that aren't used
    let many = cx.r.chance(4);
    if many {
        for i in 0..cx.r.range(8, 40) {
            let (name, value) = (format!("~{i}~"), format!("~~{i}~~"));
            let clash = vars.iter().any(|(o, _)| o.starts_with('~') || name.starts_with(o.as_str()));
            if !clash || i > 0 && vars.iter().any(|v| v.0 == "~0~") {
                let at = if cx.r.chance(80) { 0 } else { cx.r.below(vars.len() + 1) };
                vars.insert(at, (name, value));
            }
        }
    }
    let mut used = Vec::new();
    let mut two = false;
    let mut lines: Vec<String> = Vec::new();
    for l in &plain_lines {
        if is_cmd(l) {
            let mut u = Vec::new();
            lines.push(hide(&mut cx.r, l, &vars, &mut u));
            two |= u.len() > 1;
            used.extend(u);
        } else {
            lines.push(l.clone());
        }
    }
    let defs: Vec<String> = vars.iter().map(|(n, v)| format!("${n}={v}")).collect();
    let sect = |name: &str, lines: Vec<String>| Sect { name: name.to_string(), kv: false, lines };
    let l = Layout { shuffle_sections: false, ..Layout::random(&mut cx.r) };
    let mut expected = events.clone();

    // a variable in an object's line is just text
    let mut outside = false;
    if cx.r.chance(20) {
        let name = format!("${}.png", cx.r.pick(&vars).0);
        if !name.contains(' ') {
            let mut at = 0;
            for e in &mut expected {
                if let Some(f) = e.k.file_mut() {
                    *f = name.clone();
                    lines[at] = event_head(&e.k, 14);
                    outside = true;
                    break;
                }
                at += event_lines(e, 14).len();
            }
        }
    }
    // one that isn't defined is text, too
    let mut unknown = false;
    if cx.r.chance(20) && vars.iter().all(|v| !v.0.is_empty()) {
        if let Some(e) = expected.iter_mut().find(|e| e.k.takes_cmds()) {
            let name = "$~none~".to_string();
            e.cmds.push(Cmd {
                start: Some(0),
                k: CmdK::Vals { op: "F", easing: 0, end: None, vals: vec![D::R(name)] },
            });
            let mut at = 0;
            for e in &events {
                at += event_lines(e, 14).len();
                if e.k.takes_cmds() {
                    break;
                }
            }
            lines.insert(at, " F,0,0,,$~none~".to_string());
            unknown = true;
        }
    }
    let body = lines.join("\n");
    let text = lay(None, &[sect("Variables", defs.clone()), sect("Events", lines)], &l, &mut cx.r).text;
    cx.note("osb", text.as_str());
    let mut file = lib::OsuFile::new(14);
    if let Err(e) = file.append_osb(&text) {
        crate::fail!("an .osb with variables is rejected: {} {:?}", e.display_error_with_line(&text), e.error());
    }
    let f = file.osb.clone().expect("MONITOR: no storyboard");
    let mut got = ext::osb(&f);
    ensure!(got.vars.as_ref() == Some(&vars), "variables {:?} instead of {vars:?}", got.vars);
    let mut want = expected.clone();
    norm_events(&mut want);
    if let Some(ev) = &mut got.events {
        norm_events(ev);
    }
    ensure!(got.events.as_ref() == Some(&want), "values of variables: {}", diff(&Some(want), &got.events));

    // a name that's defined twice: both definitions are kept, and what they stand for here doesn't depend on reading it again
    if cx.r.chance(10) {
        let mut twice = vars.clone();
        let (n, x) = cx.r.pick(&vars).clone();
        let other = if cx.r.chance(30) { x } else { (*cx.r.pick(&["1", "7", "0.25", "22"])).to_string() };
        let at = cx.r.below(twice.len() + 1);
        twice.insert(at, (n, other));
        let defs: Vec<String> = twice.iter().map(|(n, v)| format!("${n}={v}")).collect();
        let text = plain(None, &[sect("Variables", defs), sect("Events", body.lines().map(str::to_string).collect())]);
        if let Ok(f) = sut::accept_osb(&text, "a name that's defined twice") {
            let got = ext::osb(&f).vars;
            ensure!(got.as_ref() == Some(&twice), "variables {got:?} instead of {twice:?}");
            let again = sut::accept_osb(&sut::osb_text(&f)?, "what was written")?;
            let (mut a, mut b) = (ext::osb(&f), ext::osb(&again));
            if let Some(ev) = &mut a.events {
                *ev = events_after_write(ev, 14);
            }
            for d in [&mut a, &mut b] {
                if let Some(ev) = &mut d.events {
                    norm_events(ev);
                }
            }
            ensure!(a == b, "a storyboard with a name that's defined twice changes: {}", diff(&a, &b));
            cx.count("name defined twice");
        }
    }

    // the parts on their own
    if cx.r.chance(20) {
        use lib::{VersionedFromStr, VersionedToString};
        let (Some(lv), Some(le)) = (&f.variables, &f.events) else { crate::fail!("a section is missing") };
        let alone = lib::Events::from_str_variables(&body, 14, lv).map_err(|e| format!("[Events] alone is rejected: {e:?}"))?;
        ensure!(alone.as_ref() == Some(le), "[Events] read with the variables isn't what it is in the file: {alone:?}");
        let names = lib::Events::from_str_variables(&body, 14, &[]).map(|e| e.map(|e| e.to_string(14))).map_err(|e| format!("{e:?}"));
        let named = lib::Events::from_str(&body, 14).map(|e| e.map(|e| e.to_string(14))).map_err(|e| format!("{e:?}"));
        ensure!(names == named, "[Events] read with no variables is {names:?}, without them {named:?}");
        let whole = le.to_string_variables(14, lv).unwrap_or_default();
        let each: Vec<String> = le.0.iter().filter_map(|e| e.to_string_variables(14, lv)).collect();
        ensure!(whole == each.join("\n"), "events on their own are written differently: {}", first_diff(&whole, &each.join("\n")));
        ensure!(le.to_string_variables(14, &[]) == le.to_string(14), "written with no variables isn't the same as without");
        let vs: Vec<String> = lv.iter().filter_map(|v| v.to_string(14)).collect();
        let own = format!("[Variables]\n{}\n\n[Events]\n{whole}", vs.join("\n"));
        ensure!(file.osb_to_string().as_ref() == Some(&own), "the storyboard file isn't its sections: {own:?}");
        for (v, (n, x)) in lv.iter().zip(&vars) {
            let d = format!("${n}={x}");
            ensure!(lib::osb::Variable::from_str(&d, 14).ok().flatten().as_ref() == Some(v), "{d:?} alone isn't {v:?}");
        }
        cx.count("parts on their own");
    }

    // writing
    let out = file.osb_to_string().unwrap_or_default();
    let again = sut::accept_osb(&out, "the written .osb")?;
    let mut a = ext::osb(&again);
    let mut want = OsbDoc { vars: Some(vars.clone()), events: Some(events_after_write(&expected, 14)) };
    for d in [&mut a, &mut want] {
        if let Some(ev) = &mut d.events {
            norm_events(ev);
        }
    }
    ensure!(a == want, "read back: {}", diff(&want, &a));
    if !outside {
        // it's clear what the text is, unless a variable's place depends on the others
        let mut lines: Vec<String> = Vec::new();
        let mut any = false;
        let mut clear = true;
        let mut different: Vec<usize> = Vec::new();
        // backgrounds and videos are written without
        let without = |e: &Ev| matches!(e.k, EvK::Background { .. } | EvK::Video { .. });
        for (keep, l) in events_after_write(&expected, 14)
            .iter()
            .flat_map(|e| event_lines(e, 14).into_iter().map(|l| (without(e), l)).collect::<Vec<_>>())
        {
            match l.find(',') {
                Some(c) if is_cmd(&l) && !keep => {
                    match named(&l[c + 1..], &vars, &mut different) {
                        Some(new) => {
                            any |= new != l[c + 1..];
                            lines.push(format!("{}{new}", &l[..=c]));
                        }
                        None => {
                            clear = false;
                            break;
                        }
                    }
                }
                _ => lines.push(l),
            }
        }
        if clear {
            let want = plain(None, &[sect("Variables", defs), sect("Events", lines)]);
            ensure!(out == want, "written with a variable: {}", first_diff(&want, &out));
            if any {
                cx.count("written with the variable");
            }
            if different.len() > 1 {
                cx.count("written with several variables");
            }
        }
    }
    // the type of a command isn't one
    if cx.r.chance(5) {
        let types = ["F,0,0,,1", "M,0,0,,1,2", "S,0,0,,1", "MX,0,0,,1", "P,0,0,,H", "C,0,0,,1,2,3", "L,0,1", "T,Passing,0,1", "F,0,0,,", "V,0,0,5,1,2,"];
        let line = *cx.r.pick(&types);
        let (op, fields) = line.split_once(',').unwrap();
        let mut defs: Vec<String> = vec![format!("$t={op}")];
        let mut line = format!("$t,{fields}");
        if cx.r.chance(30) {
            defs.push("$u=0".to_string());
            line = line.replacen(",0,", ",$u,", 1);
        }
        if matches!(op, "F" | "S" | "MX") && !line.ends_with(',') && cx.r.chance(40) {
            line += ",$t";
            cx.count("variable as a type and a value");
        }
        if cx.r.chance(50) {
            defs.reverse();
        }
        let t = format!("[Variables]\n{}\n[Events]\nSprite,Pass,Centre,a.png,0,0\n {line}\n", defs.join("\n"));
        match lib::OsuFile::new(14).append_osb(&t) {
            Ok(()) => crate::fail!("a variable stands for the type of a command: {t:?}"),
            Err(e) => ensure!(e.line_index() == t.lines().count() - 1, "the error of {t:?} is at {}", e.line_index()),
        }
        let known = t.replacen(" $t,", &format!(" {op},"), 1);
        if let Err(e) = lib::OsuFile::new(14).append_osb(&known) {
            crate::fail!("{known:?} is rejected: {:?}", e.error());
        }
        cx.count("variable as a type");
    }
    // the next storyboard doesn't have them
    if cx.r.chance(10) {
        if let Some((name, _)) = vars.iter().find(|v| !v.0.contains(' ')) {
            let t = format!("[Events]\nSprite,Pass,Centre,a.png,0,0\n F,0,0,,${name}\n");
            if let Err(e) = file.append_osb(&t) {
                crate::fail!("an .osb without variables is rejected: {:?}", e.error());
            }
            let o = ext::osb(file.osb.as_ref().expect("MONITOR: no storyboard"));
            ensure!(o.vars.is_none(), "the variables of another .osb are still there");
            let kept = matches!(o.events.iter().flatten().flat_map(|e| &e.cmds).map(|c| &c.k).next(), Some(CmdK::Vals { vals, .. }) if vals.first() == Some(&D::R(format!("${name}"))));
            ensure!(kept, "the variables of another .osb are used: {:?}", o.events);
            cx.count("other storyboard later");
        }
    }
    if !used.is_empty() {
        cx.count("variables used");
        cx.sample(|| text.clone());
    }
    if many {
        cx.count("many variables");
    }
    if two {
        cx.count("two variables in a line");
    }
    if used.iter().any(|u| !u.1) {
        cx.count("variable inside of a field");
    }
    if outside {
        cx.count("variable outside of commands");
    }
    if unknown {
        cx.count("unknown variable");
    }
    cx.eval(&text, !used.is_empty());
    Ok(())
}

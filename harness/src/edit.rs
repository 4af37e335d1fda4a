//! Changes of a single value of a document, that change its meaning.
use crate::gen;
use crate::model::*;
use crate::rng::Rng;

fn other_int(r: &mut Rng, x: i32) -> i32 {
    loop {
        let n = match r.below(4) {
            // close in value or in bits
            0 => x.saturating_add(if r.bool() { 1 } else { -1 }),
            1 => x ^ (1 << r.below(31)),
            2 => x.saturating_neg(),
            _ => gen::int(r, false),
        };
        // old versions move times by 24
        let n = n.clamp(i32::MIN + 24, i32::MAX - 24);
        if n != x {
            return n;
        }
    }
}

/// One character in another case, left out, twice or another, if there's one that can be.
fn near_text(r: &mut Rng, t: &str) -> Option<String> {
    let letters: Vec<(usize, char)> = t.char_indices().filter(|c| c.1.is_alphanumeric()).collect();
    if letters.is_empty() {
        return None;
    }
    let (i, c) = *r.pick(&letters);
    let new: String = match r.below(4) {
        0 if c.is_lowercase() => c.to_uppercase().collect(),
        0 => c.to_lowercase().collect(),
        1 => String::new(),
        2 => format!("{c}{c}"),
        _ => (*r.pick(&["x", "é", "0", "7", "Ω"])).to_string(),
    };
    let n = format!("{}{new}{}", &t[..i], &t[i + c.len_utf8()..]);
    (n != t).then_some(n)
}

/// another path next to the old one: a letter of it, or the folder it is in
pub fn near_file(r: &mut Rng, f: &str) -> Option<String> {
    if r.chance(60) {
        return near_text(r, f);
    }
    let inner = match f.strip_prefix('"') {
        Some(f) => f.strip_suffix('"')?,
        None => f,
    };
    let quote = &f[..(f.len() - inner.len()) / 2];
    let n = match inner.rsplit_once('/') {
        Some((_, name)) if r.bool() && !name.is_empty() => name.to_string(),
        _ => format!("d{}/{inner}", r.below(10)),
    };
    (!inner.is_empty()).then(|| format!("{quote}{n}{quote}"))
}

/// a different number
fn other_dec(r: &mut Rng, x: &D) -> D {
    if r.bool() {
        match x {
            // the last digit, a digit somewhere or the sign
            D::N { m, s } => {
                let m = match r.below(3) {
                    0 => m + if r.bool() { 1 } else { -1 },
                    1 => m + 10i128.pow(r.below(9) as u32),
                    _ => -m,
                };
                let d = D::N { m, s: *s };
                if d != *x {
                    return d;
                }
            }
            D::R(t) => {
                if let Some(n) = near_text(r, t) {
                    if n.contains(|c| !"0123456789.+-_".contains(c)) && !n.contains(['|', ':', ',']) {
                        return D::R(n);
                    }
                }
            }
        }
    }
    loop {
        let n = r.range(-5000, 50_000);
        let same = match x {
            D::N { m, s } => *m == i128::from(n) * 10i128.checked_pow(*s).unwrap_or(0),
            D::R(_) => false,
        };
        if !same {
            return D::int(n);
        }
    }
}

fn other_val(r: &mut Rng, kind: Kind, v: &V) -> V {
    match v {
        V::Dec(d) => V::Dec(other_dec(r, d)),
        V::Bool(b) => V::Bool(!b),
        V::Text(t) if r.bool() => match near_text(r, t) {
            Some(n) => V::Text(n),
            None => V::Text(format!("{t}x")),
        },
        _ => loop {
            let n = gen::val(r, kind, false);
            if n != *v {
                return n;
            }
        },
    }
}

fn cmd(r: &mut Rng, c: &mut [Cmd]) -> Option<String> {
    if c.is_empty() {
        return None;
    }
    let i = r.below(c.len());
    let c = &mut c[i];
    if let Some(k) = c.children_mut() {
        if r.bool() {
            if let Some(s) = cmd(r, k) {
                return Some(s);
            }
        }
    }
    Some(match &mut c.k {
        CmdK::Vals { vals, .. } if r.bool() => {
            let i = r.below(vals.len());
            vals[i] = other_dec(r, &vals[i]);
            "command value"
        }
        CmdK::Colour { vals, .. } if r.bool() => {
            let i = r.below(vals.len());
            vals[i] ^= 1 << r.below(8);
            "command colour"
        }
        CmdK::Loop { count, .. } if r.bool() => {
            *count ^= 1;
            "loop count"
        }
        _ => {
            let s = c.start?;
            c.start = Some(other_int(r, s));
            "command start"
        }
    }
    .to_string())
}

/// The document with one thing changed, and what it is.
pub fn another(r: &mut Rng, d: &Doc) -> Option<(String, Doc)> {
    (0..12).find_map(|_| {
        let mut other = d.clone();
        one(r, &mut other).map(|what| (what, other))
    })
}

/// What was changed; `None` when the draw doesn't fit.
pub fn one(r: &mut Rng, d: &mut Doc) -> Option<String> {
    if r.chance(60) {
        let before = d.clone();
        let what = if r.chance(70) { field(r, d)? } else { order(r, d)? };
        // spelling isn't content; no flag is the normal sound, but it's another value
        let same = norm(&project_read(&before, d.v)) == norm(&project_read(d, d.v));
        if same && what != "hit sound, normal" {
            return None;
        }
        return Some(what.to_string());
    }
    basic(r, d)
}

/// Elements of a list moved, left out, twice or new.
fn order(r: &mut Rng, d: &mut Doc) -> Option<&'static str> {
    fn list<T: Clone + PartialEq>(r: &mut Rng, l: &mut Vec<T>, new: Option<T>) -> Option<()> {
        if l.is_empty() {
            l.push(new?);
            return Some(());
        }
        let (i, j) = (r.below(l.len()), r.below(l.len()));
        match r.below(4) {
            0 => drop(l.remove(i)),
            1 => l.swap(i, j),
            2 => {
                let x = l[i].clone();
                l.insert(j, x);
            }
            _ => l.insert(i, new?),
        }
        Some(())
    }
    fn inner<'a>(r: &mut Rng, c: &'a mut Vec<Cmd>) -> &'a mut Vec<Cmd> {
        let n = c.len();
        if n > 0 && r.chance(60) {
            let i = r.below(n);
            if c[i].children().is_some() {
                return inner(r, c[i].children_mut().unwrap());
            }
        }
        c
    }
    let o = gen::Opt { max: 4, hostile: false, spell: false, gated: false, present: 100 };
    Some(match r.below(5) {
        0 => {
            let new = gen::ho(r, d.v, &o);
            list(r, d.hos.as_mut()?, Some(new))?;
            "order of objects"
        }
        1 => {
            let new = gen::tp(r, d.v, &o);
            list(r, d.tps.as_mut()?, Some(new))?;
            "order of timing points"
        }
        2 if d.v > 4 => {
            let new = gen::colour(r, &o);
            list(r, d.colours.as_mut()?, Some(new))?;
            "order of colours"
        }
        3 => {
            let new = gen::event(r, &o);
            list(r, d.events.as_mut()?, Some(new))?;
            "order of events"
        }
        4 => {
            let e = d.events.as_mut()?;
            if e.is_empty() {
                return None;
            }
            let i = r.below(e.len());
            if !e[i].k.takes_cmds() {
                return None;
            }
            let new = gen::cmd(r, false, 0);
            let at = inner(r, &mut e[i].cmds);
            list(r, at, Some(new))?;
            "order of commands"
        }
        _ => return None,
    })
}

fn toggle<T>(r: &mut Rng, x: &mut Option<T>, new: impl FnOnce(&mut Rng) -> T) {
    *x = if x.is_some() { None } else { Some(new(r)) };
}

fn cmd_field(r: &mut Rng, c: &mut [Cmd]) -> Option<&'static str> {
    if c.is_empty() {
        return None;
    }
    let i = r.below(c.len());
    let c = &mut c[i];
    if let Some(k) = c.children_mut() {
        if r.chance(60) {
            if let Some(s) = cmd_field(r, k) {
                return Some(s);
            }
        }
    }
    let start = c.start;
    Some(match &mut c.k {
        CmdK::Vals { easing, end, .. } | CmdK::Colour { easing, end, .. } | CmdK::Param { easing, end, .. } if r.chance(40) => {
            if r.bool() {
                *easing = easing.wrapping_add(1 + r.below(34) as i32).rem_euclid(35);
                "easing"
            } else {
                if start.is_some() {
                    match end {
                        Some(e) if r.bool() => *e = other_int(r, *e),
                        _ => toggle(r, end, |r| gen::int(r, false)),
                    }
                } else {
                    return None;
                }
                "command end"
            }
        }
        CmdK::Vals { op, vals, .. } => match r.below(3) {
            0 => {
                let other: &[&'static str] = if vals.len() > 1 && vals.len() % 2 == 0 {
                    &["F", "MX", "MY", "S", "R", "M", "V"]
                } else {
                    &["F", "MX", "MY", "S", "R"]
                };
                *op = r.pick(other);
                "command kind"
            }
            1 if vals.len() > 2 => {
                vals.truncate(vals.len() - 1);
                if (*op == "M" || *op == "V") && vals.len() < 2 {
                    return None;
                }
                "number of values"
            }
            _ => {
                let i = r.below(vals.len());
                vals[i] = other_dec(r, &vals[i]);
                "value"
            }
        },
        CmdK::Colour { vals, .. } => {
            if r.chance(30) {
                vals.push(r.below(256) as u8);
                "number of colours"
            } else {
                let i = r.below(vals.len());
                vals[i] ^= 1 << r.below(8);
                "colour"
            }
        }
        CmdK::Param { vals, .. } => {
            let i = r.below(vals.len());
            vals[i] = (vals[i] + 1 + r.below(2) as u8) % 3;
            "parameter"
        }
        CmdK::Loop { count, .. } => {
            *count ^= 1 << r.below(20);
            "loop count"
        }
        CmdK::Trigger { tt, end, group, .. } => match r.below(3) {
            0 => {
                *tt = gen::trigger_type(r, false);
                "trigger type"
            }
            1 => {
                match end {
                    Some(e) if r.bool() => *e = other_int(r, *e),
                    _ => toggle(r, end, |r| gen::int(r, false)),
                }
                "trigger end"
            }
            _ => {
                match group {
                    Some(e) if r.bool() => *e = other_int(r, *e),
                    _ => toggle(r, group, |r| gen::int(r, false)),
                }
                "trigger group"
            }
        },
    })
}

/// A single field of an element.
fn field(r: &mut Rng, d: &mut Doc) -> Option<&'static str> {
    let v = d.v;
    let p = |r: &mut Rng| (D::int(r.range(-9, 900)), D::int(r.range(-9, 900)));
    match *r.pick(&[0, 0, 0, 0, 0, 1, 2, 3, 3, 3, 3, 3]) {
        0 => {
            let e = d.events.as_mut()?;
            if e.is_empty() {
                return None;
            }
            let i = r.below(e.len());
            let e = &mut e[i];
            if r.bool() {
                return cmd_field(r, &mut e.cmds);
            }
            Some(match &mut e.k {
                EvK::Background { pos, .. }
                | EvK::Video { pos, .. }
                | EvK::SpriteLegacy { pos, .. }
                | EvK::AnimationLegacy { pos, .. }
                    if r.bool() =>
                {
                    match pos {
                        Some(q) if r.bool() => {
                            let q = if r.bool() { &mut q.0 } else { &mut q.1 };
                            *q = other_dec(r, q);
                        }
                        _ => toggle(r, pos, p),
                    }
                    "place"
                }
                EvK::SpriteLegacy { origin, .. } | EvK::AnimationLegacy { origin, .. } => {
                    *origin = origin.wrapping_add(1 + r.below(9) as u8) % 10;
                    "legacy origin"
                }
                EvK::SampleLegacy { time, vol, .. } => {
                    if r.bool() {
                        *time = other_dec(r, time);
                    } else {
                        match vol {
                            Some(x) if r.bool() => *x = (*x + 1 + r.below(100) as u8) % 101,
                            _ => toggle(r, vol, |r| r.below(101) as u8),
                        }
                    }
                    "legacy sample"
                }
                EvK::Sprite { layer, origin, .. } | EvK::Animation { layer, origin, .. } if r.bool() => {
                    if r.bool() {
                        *layer = (*layer + 1 + r.below(4) as u8) % 5;
                    } else {
                        *origin = (origin.wrapping_add(1 + r.below(9) as i32)).rem_euclid(10);
                    }
                    "layer or origin"
                }
                EvK::Animation { frames, delay, once, omit_loop, .. } => {
                    *omit_loop = false;
                    match r.below(3) {
                        0 => *frames ^= 1 << r.below(32),
                        1 => *delay = other_dec(r, delay),
                        _ => *once = !*once,
                    }
                    "frames"
                }
                EvK::Audio { layer, vol, omit_vol, .. } => {
                    *omit_vol = false;
                    if r.bool() {
                        *layer = (*layer + 1 + r.below(3) as u8) % 4;
                    } else {
                        *vol = (*vol + 1 + r.below(100) as u8) % 101;
                    }
                    "audio sample"
                }
                EvK::ColourTrans { start, .. } => {
                    *start = other_int(r, *start);
                    "colour transformation"
                }
                _ => return None,
            })
        }
        1 => {
            let t = d.tps.as_mut()?;
            if t.is_empty() {
                return None;
            }
            let i = r.below(t.len());
            let t = &mut t[i];
            if let (Some(u), true) = (&mut t.uninh, r.bool()) {
                *u = !*u;
                return Some("uninherited");
            }
            // half a step, or the other sign
            let x = if r.bool() { &mut t.time } else { &mut t.beat };
            nudge(r, x)?;
            Some("time or beat length, a bit")
        }
        2 => {
            let c = d.colours.as_mut()?;
            if c.is_empty() || v <= 4 {
                return None;
            }
            let i = r.below(c.len());
            c[i].k = match r.below(4) {
                0 => ColK::SliderTrack,
                1 => ColK::SliderBorder,
                _ => ColK::Combo(r.range(1, 9) as i32),
            };
            Some("kind of colour")
        }
        _ => {
            let h = d.hos.as_mut()?;
            if h.is_empty() {
                return None;
            }
            let i = r.below(h.len());
            let h = &mut h[i];
            if r.chance(10) {
                h.sound ^= 1;
                return Some("hit sound, normal");
            }
            if r.chance(20) {
                let x = match r.below(3) {
                    0 => &mut h.x,
                    1 => &mut h.y,
                    _ => &mut h.time,
                };
                nudge(r, x)?;
                return Some("object, a bit");
            }
            if let (Some(s), true) = (&mut h.sample, v >= 10 && r.bool()) {
                let n = if v < 12 { 3 } else { 5 };
                s.fields = 5;
                match r.below(n) {
                    0 => s.normal = s.normal.wrapping_add(1 + r.below(3)) % 4,
                    1 => s.addition = s.addition.wrapping_add(1 + r.below(3)) % 4,
                    2 => s.index = if s.index == 0 { 1 + r.below(9) } else { 0 },
                    3 => match s.volume {
                        Some(_) if r.bool() => s.volume = None,
                        Some(x) => s.volume = Some(x % 100 + 1),
                        None => s.volume = Some(1 + r.below(100) as u8),
                    },
                    _ => match near_text(r, &s.file) {
                        Some(f) if r.bool() => s.file = f,
                        _ => s.file.push_str("x.wav"),
                    },
                }
                return Some("hit sample");
            }
            if let HoK::Slider { curve, points, length, sounds, sets, .. } = &mut h.k {
                return Some(match r.below(6) {
                    0 => {
                        *curve = (*curve + 1 + r.below(3) as u8) % 4;
                        "curve type"
                    }
                    1 => {
                        points.push(p(r));
                        "curve points"
                    }
                    2 if !points.is_empty() => {
                        let i = r.below(points.len());
                        nudge(r, &mut points[i].1)?;
                        "curve point's y"
                    }
                    3 if !sounds.is_empty() => {
                        let i = r.below(sounds.len());
                        sounds[i] ^= 1 << r.below(4);
                        "edge sound"
                    }
                    4 if !sets.is_empty() => {
                        let i = r.below(sets.len());
                        if r.bool() {
                            sets[i].0 = sets[i].0.wrapping_add(1) % 4;
                        } else {
                            sets[i].1 = sets[i].1.wrapping_add(1) % 4;
                        }
                        "edge set"
                    }
                    _ => {
                        nudge(r, length)?;
                        "length, a bit"
                    }
                });
            }
            None
        }
    }
}

/// a number that's hardly another one
fn nudge(r: &mut Rng, x: &mut D) -> Option<()> {
    let D::N { m, s } = x else { return None };
    match r.below(3) {
        0 => *m += 1,
        1 => *m = -*m,
        _ if *s < 12 && m.abs() < 1_000_000_000_000 => {
            *m = *m * 10 + 1;
            *s += 1;
        }
        _ => *m -= 1,
    }
    Some(())
}

fn basic(r: &mut Rng, d: &mut Doc) -> Option<String> {
    match r.below(8) {
        s @ 0..=3 => {
            let kv = d.kv[s].as_mut()?;
            if kv.is_empty() {
                return None;
            }
            let i = r.below(kv.len());
            let kv = &mut kv[i];
            let kind = KV_SCHEMAS[s].iter().find(|(k, _)| *k == kv.key)?.1;
            let v = other_val(r, kind, &kv.val);
            if !kv_reads(s, kv.key, &v, d.v) || !kv_reads(s, kv.key, &kv.val, d.v) {
                return None;
            }
            kv.val = v;
            Some(format!("key {}", kv.key))
        }
        4 => {
            let e = d.events.as_mut()?;
            if e.is_empty() {
                return None;
            }
            let i = r.below(e.len());
            let e = &mut e[i];
            if r.bool() {
                return cmd(r, &mut e.cmds);
            }
            if r.chance(50) {
                if let Some(f) = e.k.file_mut() {
                    *f = match near_file(r, f) {
                        Some(f) if r.chance(80) => f,
                        _ => format!("edited{}.png", r.below(100_000)),
                    };
                    return Some("file name".to_string());
                }
            }
            Some(
                match &mut e.k {
                    EvK::Comment(s) => {
                        match near_text(r, s) {
                            Some(t) if r.bool() => *s = t,
                            _ => s.push('x'),
                        }
                        "comment"
                    }
                    EvK::Background { start, .. } | EvK::Video { start, .. } => {
                        *start = other_int(r, *start);
                        "start"
                    }
                    EvK::Break { start, end, .. } => {
                        let t = if r.bool() { start } else { end };
                        *t = other_int(r, *t);
                        "break time"
                    }
                    EvK::ColourTrans { rgb, .. } => {
                        rgb[r.below(3)] ^= 1 << r.below(8);
                        "colour transformation"
                    }
                    EvK::SpriteLegacy { layer, .. }
                    | EvK::AnimationLegacy { layer, .. }
                    | EvK::SampleLegacy { layer, .. } => {
                        *layer = (*layer + 1 + r.below(3) as u8) % 4;
                        "legacy layer"
                    }
                    EvK::Sprite { pos, .. } | EvK::Animation { pos, .. } => {
                        let p = if r.bool() { &mut pos.0 } else { &mut pos.1 };
                        *p = other_dec(r, p);
                        "position"
                    }
                    EvK::Audio { time, .. } => {
                        *time = other_int(r, *time);
                        "sample time"
                    }
                }
                .to_string(),
            )
        }
        5 => {
            let v = d.v;
            let t = d.tps.as_mut()?;
            if t.is_empty() {
                return None;
            }
            let i = r.below(t.len());
            let t = &mut t[i];
            let n = if v == 3 { 2 } else if v == 4 { 5 } else { 7 };
            Some(
                match r.below(n) {
                    0 => {
                        t.time = other_dec(r, &t.time);
                        "time"
                    }
                    1 => {
                        t.beat = other_dec(r, &t.beat);
                        "beat"
                    }
                    2 => {
                        t.meter = other_int(r, t.meter);
                        "meter"
                    }
                    3 => {
                        t.index = if t.index == 7 { 8 } else { 7 };
                        "index"
                    }
                    4 => {
                        t.set = if t.set == 2 { 3 } else { 2 };
                        "sample set"
                    }
                    5 => {
                        t.volume = other_int(r, t.volume);
                        "volume"
                    }
                    _ => {
                        let e = t.effects.as_mut()?;
                        *e ^= 1 << r.below(32);
                        "effects"
                    }
                }
                .to_string(),
            )
        }
        6 => {
            if d.v <= 4 {
                return None;
            }
            let c = d.colours.as_mut()?;
            if c.is_empty() {
                return None;
            }
            let i = r.below(c.len());
            c[i].rgb[r.below(3)] ^= 1 << r.below(8);
            Some("colour".to_string())
        }
        _ => {
            let h = d.hos.as_mut()?;
            if h.is_empty() {
                return None;
            }
            let i = r.below(h.len());
            let h = &mut h[i];
            Some(
                match r.below(7) {
                    0 => {
                        h.x = other_dec(r, &h.x);
                        "x"
                    }
                    1 => {
                        h.y = other_dec(r, &h.y);
                        "y"
                    }
                    2 => {
                        h.time = other_dec(r, &h.time);
                        "object time"
                    }
                    3 => {
                        h.new_combo = !h.new_combo;
                        "new combo"
                    }
                    4 => {
                        h.skip = (h.skip + 1 + r.below(7) as u8) % 8;
                        "combo skip"
                    }
                    5 => {
                        h.sound ^= 2 << r.below(3);
                        "hit sound"
                    }
                    _ => match &mut h.k {
                        HoK::Circle => return None,
                        HoK::Slider { slides, length, points, .. } => match r.below(3) {
                            0 => {
                                *slides = other_int(r, *slides);
                                "slides"
                            }
                            1 => {
                                *length = other_dec(r, length);
                                "length"
                            }
                            _ => {
                                if points.is_empty() {
                                    return None;
                                }
                                let i = r.below(points.len());
                                points[i].0 = other_dec(r, &points[i].0);
                                "curve point"
                            }
                        },
                        HoK::Spinner { end } | HoK::Hold { end } => {
                            *end = other_dec(r, end);
                            "end time"
                        }
                    },
                }
                .to_string(),
            )
        }
    }
}

//! Arithmetic of timing points.
use crate::core::*;
use crate::gen;
use crate::mk;
use crate::model::D;
use crate::rng::Rng;
use crate::{ensure, ext};
use lib::timingpoints as tp;
use lib::{VersionedFrom, VersionedFromStr, VersionedToString};
use osu_file_parser as lib;
use rust_decimal::prelude::ToPrimitive;
use rust_decimal::Decimal;

pub const C16: Check = Check {
    id: "C16",
    cases: (5_000_000, 12_000_000),
    rule: "a timing point, from text or built, of which BPM and slider velocity were compared with a calculation in binary floating point (and exactly, where the quotient is short); distinct by kind and value",
    assumptions: &[
        "relative errors up to 1e-9 for beat lengths from 10^-22 to 10^15 in size, only no crash and no wrong kind of result outside of that",
        "a BPM of 0 or a multiplier of 0 as an argument isn't covered, they are documented as divisors",
    ],
    need: &[
        ("unused bits cleared", 1000),
        ("uninherited", 20_000),
        ("inherited", 20_000),
        ("no uninherited field", 5000),
        ("zero", 2000),
        ("not a number", 2000),
        ("extreme", 5000),
        ("far", 20_000),
        ("exact", 5000),
        ("conversion and back", 20_000),
        ("built from a multiplier", 10_000),
        ("other fields set", 50_000),
    ],
    run,
    known: None,
    exhaustive: false,
};

fn close(a: Decimal, b: f64) -> bool {
    let a = a.to_f64().unwrap_or(f64::NAN);
    (a - b).abs() <= b.abs() * 1e-9
}

/// a number of ordinary size, never zero
fn ordinary(r: &mut Rng) -> Decimal {
    let d = match r.below(4) {
        0 => Decimal::new(r.range(1, 10_000_000), 0),
        1 => Decimal::new(r.range(1, 1_000_000_000), 3),
        2 => Decimal::new(r.range(100_000_000_000, 900_000_000_000_000_000), 12),
        _ => *r.pick(&[
            Decimal::new(500, 0),
            Decimal::new(100, 0),
            Decimal::new(50, 0),
            Decimal::new(25, 0),
            Decimal::new(125, 0),
            Decimal::new(4, 0),
            Decimal::new(1, 0),
            Decimal::new(375, 0),
            Decimal::new(5, 1),
            Decimal::new(80, 0),
        ]),
    };
    if r.chance(30) {
        -d
    } else {
        d
    }
}

/// `n / d` as a number with few digits, if it's one
fn exact(n: i64, d: Decimal) -> Option<Decimal> {
    let q = Decimal::from(n).checked_div(d)?.normalize();
    (q.scale() <= 8 && q.checked_mul(d)? == Decimal::from(n) && Decimal::ONE.checked_div(d)?.normalize().scale() < 15).then_some(q)
}

fn run(cx: &mut Cx) -> Res {
    if cx.r.chance(15) {
        // conversions between the two
        let x = ordinary(&mut cx.r);
        cx.note("number", x.to_string());
        let b = tp::TimingPoint::beat_duration_ms_to_bpm(x);
        let d = tp::TimingPoint::bpm_to_beat_duration_ms(x);
        let f = x.to_f64().unwrap();
        ensure!(close(b, 60000.0 / f), "{x} ms are {b} BPM");
        ensure!(close(d, 60000.0 / f), "{x} BPM are {d} ms");
        let back = tp::TimingPoint::bpm_to_beat_duration_ms(b);
        ensure!(close(back, f), "{x} ms are {b} BPM are {back} ms");
        let back = tp::TimingPoint::beat_duration_ms_to_bpm(d);
        ensure!(close(back, f), "{x} BPM are {d} ms are {back} BPM");
        cx.count("conversion and back");
        cx.eval(&("conversion", x), true);
        return Ok(());
    }
    let set = <tp::SampleSet as VersionedFrom<i32>>::from(cx.r.below(4) as i32, 14).expect("MONITOR: refused");
    let index = <tp::SampleIndex as VersionedFrom<u32>>::from(cx.r.below(3) as u32, 14).expect("MONITOR: refused");
    let volume = tp::Volume::new(50, 14).expect("MONITOR: refused");
    let bits = cx.r.u64() as u32;
    let eff = <tp::Effects as VersionedFrom<u32>>::from(bits, 14).expect("MONITOR: refused");
    if cx.r.chance(15) {
        let m = ordinary(&mut cx.r);
        let time = gen::int(&mut cx.r, true);
        cx.note("multiplier", m.to_string());
        let mut t = tp::TimingPoint::new_inherited(time, m, 4, set, index, volume, eff);
        ensure!(!t.uninherited() && t.calc_bpm().is_none(), "an inherited point has BPM {:?}", t.calc_bpm());
        let got = t.calc_slider_velocity_multiplier();
        ensure!(got.is_some_and(|g| close(g, m.to_f64().unwrap())), "multiplier {m} is {got:?} afterwards");
        ensure!(ext::d(t.time()) == D::int(time.into()) && t.meter() == 4, "the other fields: {t:?}");
        let line = t.to_string(14).unwrap_or_default();
        let beat = line.split(',').nth(1).unwrap_or("").to_string();
        let want = -100.0 / m.to_f64().unwrap();
        ensure!(beat.parse::<Decimal>().is_ok_and(|b| close(b, want)), "multiplier {m} has beat length {beat} instead of {want}");
        let back = tp::TimingPoint::from_str(&line, 14);
        ensure!(matches!(&back, Ok(Some(b)) if *b == t), "{line:?} is read as {back:?}");
        t.set_uninherited(true);
        ensure!(t.calc_slider_velocity_multiplier().is_none(), "an uninherited point has a multiplier");
        cx.count("built from a multiplier");
        cx.eval(&("multiplier", m), true);
        return Ok(());
    }
    // a beat length of any kind
    let (beat, kind) = match cx.r.below(10) {
        0 => (gen::word(&mut cx.r, true).replace([',', '\r', '\n'], ""), "text"),
        1 => ((*cx.r.pick(&["0", "0.0", "-0", "0.000"])).to_string(), "zero"),
        2 => (
            (*cx.r.pick(&[
                "79228162514264337593543950335",
                "-79228162514264337593543950335",
                "0.0000000000000000000000000001",
                "-0.0000000000000000000000000001",
                "0.00000000000000000000000001",
                "1000000000000000000000000000",
                "NaN",
                "1e3",
                "Infinity",
                "-1E-7",
            ]))
            .to_string(),
            "extreme",
        ),
        3 => {
            // far from the usual, where the quotient still has enough digits
            let m = cx.r.range(1, 1_000_000_000);
            let d = if cx.r.bool() {
                Decimal::new(m, 4 + cx.r.below(19) as u32)
            } else {
                Decimal::new(m, 0) * Decimal::from(10i64.pow(cx.r.below(7) as u32))
            };
            cx.count("far");
            (if cx.r.chance(30) { -d } else { d }.to_string(), "far")
        }
        _ => (ordinary(&mut cx.r).to_string(), "ordinary"),
    };
    let version = gen::version(&mut cx.r);
    let uninh = cx.r.bool();
    let build = cx.r.chance(40);
    let (t, field) = if build {
        let d = if cx.r.chance(20) { lib::Decimal::new_from_str(&beat) } else { lib::Decimal::from(beat.as_str()) };
        let mut t = tp::TimingPoint::new_uninherited(0, d, 4, set, index, volume, eff);
        if !uninh {
            t.set_uninherited(false);
        }
        (t, Some(uninh))
    } else {
        let line = match version {
            3 => format!("10,{beat}"),
            4 => format!("10,{beat},4,1,1"),
            5 | 6 if cx.r.chance(60) => format!("10,{beat},4,1,1,100"),
            _ => format!("10,{beat},4,1,1,100,{},{bits}", uninh as u8),
        };
        cx.note("line", line.as_str());
        let field = (line.split(',').count() > 6).then_some(uninh);
        match tp::TimingPoint::from_str(&line, version) {
            Ok(Some(t)) => (t, field),
            r => crate::fail!("{line:?} at version {version} gives {r:?}"),
        }
    };
    cx.note("beat length", beat.as_str());
    cx.note("uninherited", format!("{field:?}"));
    let line = t.to_string(14).unwrap_or_default();
    // is it held as a number?
    let number = match build && format!("{t:?}").contains(&format!("Right({beat:?})")) {
        true => None,
        false => beat.parse::<Decimal>().ok(),
    };
    let (bpm, mult) = (t.calc_bpm(), t.calc_slider_velocity_multiplier());
    let un = field.unwrap_or(true);
    ensure!(t.uninherited() == un, "uninherited is {} of {line:?}", t.uninherited());
    let (yes, no, n) = if un { (bpm, mult, 60000) } else { (mult, bpm, -100) };
    ensure!(no.is_none(), "{line:?} (uninherited: {un}) has a BPM of {bpm:?} and a multiplier of {mult:?}");
    match number {
        None => {
            ensure!(yes.is_none(), "{beat:?} isn't a number, and gives {yes:?}");
            cx.count("not a number");
        }
        Some(x) if x.is_zero() => {
            ensure!(yes.is_none(), "a beat length of 0 gives {yes:?}");
            cx.count("zero");
        }
        Some(x) if matches!(kind, "ordinary" | "far") => {
            let want = f64::from(n) / x.to_f64().unwrap();
            ensure!(yes.is_some_and(|y| close(y, want)), "a beat length of {x} gives {yes:?} instead of {want} (uninherited: {un})");
            if let Some(q) = exact(n.into(), x).filter(|_| kind == "ordinary") {
                ensure!(yes == Some(q), "a beat length of {x} gives {yes:?} instead of {q}");
                cx.count("exact");
            }
        }
        Some(_) => cx.count("extreme"),
    }
    if matches!(kind, "ordinary" | "far") {
        cx.count(if un { "uninherited" } else { "inherited" });
    }
    if field.is_none() {
        cx.count("no uninherited field");
    }
    // effect bits, wherever they came from
    if field.is_some() {
        let e = t.effects().copied();
        let want = (bits & 1 != 0, bits & 8 != 0);
        let got = e.map(|e| (e.kiai_time_enabled(), e.no_first_barline_in_taiko_mania()));
        ensure!(got == Some(want), "effects {bits} read as {got:?}");
        ensure!(line.ends_with(&format!(",{bits}")), "effects {bits} written as {line:?}");
    }
    {
        // made of the two flags
        let (kiai, bar) = (bits & 1 != 0, bits & 8 != 0);
        let e = tp::Effects::new(kiai, bar);
        let got = (e.kiai_time_enabled(), e.no_first_barline_in_taiko_mania(), <u32 as VersionedFrom<tp::Effects>>::from(e, 14));
        ensure!(got == (kiai, bar, Some(bits & 9)), "effects of {kiai} and {bar} are {got:?}");
    }
    let _ = mk::rd(0, 0);
    if cx.r.chance(30) {
        // the other fields have nothing to do with it
        let mut t = t;
        let mut bits = field.map(|_| bits);
        for _ in 0..1 + cx.r.below(5) {
            match cx.r.below(8) {
                0 => t.set_time(gen::int(&mut cx.r, true)),
                1 => t.set_meter(cx.r.range(-2, 9) as i32),
                2 => t.set_volume(tp::Volume::new(*cx.r.pick(&[0, 0, 1, 100, -5, 101]), 14).expect("MONITOR: refused")),
                3 => t.set_sample_set(<tp::SampleSet as VersionedFrom<i32>>::from(cx.r.below(4) as i32, 14).expect("MONITOR: refused")),
                4 => *t.sample_index_mut() = <tp::SampleIndex as VersionedFrom<u32>>::from(cx.r.below(3) as u32, 14).expect("MONITOR: refused"),
                5 => {
                    let b = *cx.r.pick(&[0, 1, 8, 9, 0xffff_ffff, 0x8000_0008, 6]);
                    *t.effects_mut() = <tp::Effects as VersionedFrom<u32>>::from(b, 14);
                    bits = Some(b);
                }
                6 => {
                    // the flags stay as they are
                    if let (Some(e), Some(b)) = (t.effects_mut().as_mut(), bits.as_mut()) {
                        e.clear_unused_bits();
                        *b &= 9;
                        cx.count("unused bits cleared");
                    }
                }
                _ => {
                    let on = cx.r.bool();
                    let bit = *cx.r.pick(&[0, 3]);
                    if let (Some(e), Some(b)) = (t.effects_mut().as_mut(), bits.as_mut()) {
                        if bit == 0 {
                            e.set_kiai_time_enabled(on);
                        } else {
                            e.set_no_first_barline_in_taiko_mania(on);
                        }
                        *b = if on { *b | 1 << bit } else { *b & !(1 << bit) };
                    }
                }
            }
            let now = (t.uninherited(), t.calc_bpm(), t.calc_slider_velocity_multiplier());
            ensure!(now == (un, bpm, mult), "setting other fields changes {:?} to {now:?}: {t:?}", (un, bpm, mult));
            if let (Some(e), Some(b)) = (t.effects(), bits) {
                let now = (e.kiai_time_enabled(), e.no_first_barline_in_taiko_mania());
                ensure!(now == (b & 1 != 0, b & 8 != 0), "effects {b} are {now:?}");
                ensure!(e.to_string(14).as_deref() == Some(&*b.to_string()), "effects {b} are written as {:?}", e.to_string(14));
            }
        }
        cx.count("other fields set");
    }
    cx.eval(&(&beat, field, build), true);
    cx.sample(|| format!("{line} bpm {bpm:?} multiplier {mult:?}"));
    Ok(())
}

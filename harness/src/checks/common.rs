//! Workload pieces several checks use.
use crate::core::Cx;
use crate::corpus;
use crate::gen::{self, Opt};
use crate::model::*;
use crate::mutate;
use crate::render::*;
use crate::rng::Rng;
use osu_file_parser as lib;

/// A corpus file, shortened now and then so that a case stays small.
pub fn real_osu(r: &mut Rng) -> String {
    thin(r, corpus::OSU)
}
pub fn real_osb(r: &mut Rng) -> String {
    thin(r, corpus::OSB)
}
fn thin(r: &mut Rng, from: &[&str]) -> String {
    let s = *r.pick(from);
    if s.len() < 6000 || r.chance(4) {
        return s.to_string();
    }
    // keep headers and a stretch of lines of each section
    let keep = 3 + r.below(12);
    let skip = r.below(30);
    let mut n = 0usize;
    s.split('\n')
        .filter(|l| {
            let t = l.trim();
            if t.starts_with('[') || t.starts_with("osu file") {
                n = 0;
                return true;
            }
            n += 1;
            // commands need the line they belong to
            n <= keep || (n > keep + skip && n <= 2 * keep + skip && !l.starts_with([' ', '_']))
        })
        .collect::<Vec<_>>()
        .join("\n")
}

/// A well-formed file in a random layout.
pub fn fine_osu(r: &mut Rng) -> (Doc, String) {
    let v = gen::version(r);
    let o = Opt::usual(r);
    let doc = gen::doc(r, v, &o);
    let l = Layout::random(r);
    let text = lay(Some(&version_line(v)), &sections(&doc), &l, r).text;
    (doc, text)
}
pub fn fine_osb(r: &mut Rng) -> (OsbDoc, String) {
    let o = Opt::usual(r);
    let doc = gen::osb(r, &o);
    let l = Layout::random(r);
    let text = lay(None, &osb_sections(&doc), &l, r).text;
    (doc, text)
}

/// Anything that is or was a file once, and things that never were; and its kind.
pub fn any_text(cx: &mut Cx, osb: bool) -> (&'static str, String) {
    let r = &mut cx.r;
    let base = |r: &mut Rng| {
        if osb {
            if r.chance(70) {
                fine_osb(r).1
            } else {
                real_osb(r)
            }
        } else if r.chance(75) {
            fine_osu(r).1
        } else {
            real_osu(r)
        }
    };
    match r.below(20) {
        0 | 1 => ("well-formed", base(r)),
        2..=15 => {
            let a = base(r);
            let b = if r.chance(20) { fine_osb(r).1 } else { base(r) };
            ("damaged", mutate::many(r, &a, &b))
        }
        16 => {
            let a = base(r);
            let b = base(r);
            let mut s = mutate::many(r, &a, &b);
            for _ in 0..20 {
                s = mutate::one(r, &s, &b);
            }
            ("damaged a lot", s)
        }
        _ => ("noise", mutate::noise(r)),
    }
}

/// The text between a header and the next one.
pub fn bodies(text: &str) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = Vec::new();
    for l in text.split('\n') {
        let t = l.trim_end();
        if let Some(n) = t.strip_prefix('[').and_then(|t| t.strip_suffix(']')) {
            out.push((n.to_string(), String::new()));
        } else if let Some((_, b)) = out.last_mut() {
            if !b.is_empty() {
                b.push('\n');
            }
            b.push_str(l);
        }
    }
    out
}

pub fn is_ok<T, E>(r: &Result<T, E>) -> &'static str {
    if r.is_ok() {
        "accepted"
    } else {
        "rejected"
    }
}

pub fn section_of(d: &str) -> &'static str {
    for s in ["General", "Editor", "Metadata", "Difficulty", "Events", "TimingPoints", "Colours", "HitObjects"] {
        if d.starts_with(&format!("Parse{s}Error")) {
            return s;
        }
    }
    "file"
}

pub use lib::{VersionedFromStr, VersionedToString};

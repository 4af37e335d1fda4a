//! Damage to well-formed text.
use crate::rng::Rng;

pub const TOKENS: &[&str] = &[
    "", "0", "-1", "1", "2", "3", "4", "5", "6", "7", "8", "12", "100", "101", "128", "255", "256", "65536",
    "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
    "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
    "79228162514264337593543950335", "79228162514264337593543950336", "-79228162514264337593543950335",
    "0.0000000000000000000000000001", "1e10", "1E400", "NaN", "inf", "-0", "+5", ".5", "5.", "1_000", "0x1F",
    "abc", "é", "日", "🎵", "\u{feff}", "\u{3000}", "\u{0}", " ", "\t", "\"", "\"a b\"", "[", "]", "[Events]",
    "[x", "x]", "//", "// x", "$", "$v", "$=", "=", "B|", "|", "||", ":", "::", "0:0:0:0:", "1:2:3:4:x.wav", ",",
    ",,", "_", "__", "L", "T", "C", "P", "HitSound", "HitSoundAll", "HitSoundNormalSoftClap9", "Passing",
    "Sprite", "Animation", "Sample", "Video", "Break", "LoopForever", "LoopOnce", "Combo1", "SliderBorder",
    "\r", "\u{85}", "\u{2028}", "\u{b}", "\u{c}", "A", "H", "V", "M", "osu file format v14", "Centre", "Overlay",
    "-2147483625", "2147483624", "36893488147419103232", "99999999999999999999999999999999999999",
];

pub const LINES: &[&str] = &[
    "[General]", "[Editor]", "[Metadata]", "[Difficulty]", "[Events]", "[TimingPoints]", "[Colours]",
    "[HitObjects]", "[Variables]", "[Fonts]", "[]", "[", "]", "[[General]]", "[General]x", "x[General]",
    " [General]", "[General", "General]", "// comment", "//", "", " ", "\t", "osu file format v14",
    "osu file format v", "key:value", "key", ":", ":x", "Title:a", "Mode: 3", "Combo1 : 1,2,3", "$a=1", "$=",
    "$a=$a", "a=b", " F,0,0,1000,1", "  F,0,0,1000,1", " L,0,5", "  M,0,0,,1,2,3", " T,HitSound,0,1", "_C,0,,,1,2,3,4",
    "__P,0,,,A", "   S,0,0,,1", "       R,0,0,,1", " C,0,0,,1", " V,0,0,,1", "0,0,\"bg.png\"", "1,5,v.avi", "2,1,2",
    "3,1,2,3,4", "4,0,1,a.png", "5,0,1,a.png,3,4", "6,100,0,a.wav,50", "Sprite,Pass,Centre,\"a.png\",1,2",
    "Animation,Fail,TopLeft,a.png,1,2,3,4", "Sample,1,2,a.wav,100", "256,192,1000,1,0,0:0:0:0:",
    "1,2,3,2,0,B|1:2|3:4,1,100", "1,2,3,2,0,L,1,100,2|0,0:0|1:1,0:0:0:0:", "1,2,3,8,0,100", "1,2,3,128,0,5:0:0:0:0:",
    "0,500,4,1,0,100,1,0", "100,-50,4,1,0,100,0,1", "100,-50", "0,0,0,0,0,0,0,0",
];

fn boundary(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

fn lines(s: &str) -> Vec<String> {
    s.split('\n').map(str::to_string).collect()
}

/// where the fields of a line are
pub fn fields(line: &str) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut start = 0;
    for (i, c) in line.char_indices() {
        if matches!(c, ',' | ':' | '|') {
            out.push((start, i));
            start = i + c.len_utf8();
        }
    }
    out.push((start, line.len()));
    out
}

/// One random change. `other` is text to take pieces from.
pub fn one(r: &mut Rng, s: &str, other: &str) -> String {
    if s.is_empty() {
        return (*r.pick(LINES)).to_string();
    }
    match r.below(17) {
        0 => {
            // delete a character
            let i = boundary(s, r.below(s.len()));
            let n = s[i..].chars().next().map_or(0, char::len_utf8);
            format!("{}{}", &s[..i], &s[i + n..])
        }
        1 => {
            // insert a token
            let i = boundary(s, r.below(s.len() + 1));
            format!("{}{}{}", &s[..i], r.pick(TOKENS), &s[i..])
        }
        2 => {
            let i = boundary(s, r.below(s.len() + 1));
            s[..i].to_string()
        }
        3 => {
            let mut l = lines(s);
            let i = r.below(l.len());
            let x = l[i].clone();
            let j = r.below(l.len() + 1);
            l.insert(j, x);
            l.join("\n")
        }
        4 => {
            let mut l = lines(s);
            let i = r.below(l.len());
            l.remove(i);
            l.join("\n")
        }
        5 => {
            let mut l = lines(s);
            let (i, j) = (r.below(l.len()), r.below(l.len()));
            l.swap(i, j);
            l.join("\n")
        }
        6 => {
            let mut l = lines(s);
            let i = r.below(l.len() + 1);
            l.insert(i, (*r.pick(LINES)).to_string());
            l.join("\n")
        }
        7..=10 => {
            // replace a field
            let mut l = lines(s);
            let i = r.below(l.len());
            let f = fields(&l[i]);
            let (a, b) = *r.pick(&f);
            l[i] = format!("{}{}{}", &l[i][..a], r.pick(TOKENS), &l[i][b..]);
            l.join("\n")
        }
        11 => {
            // drop fields from a line's end
            let mut l = lines(s);
            let i = r.below(l.len());
            let f = fields(&l[i]);
            let (_, b) = *r.pick(&f);
            l[i].truncate(b);
            l.join("\n")
        }
        12 => {
            // indentation
            let mut l = lines(s);
            let i = r.below(l.len());
            let n = r.below(5);
            let t = l[i].trim_start_matches([' ', '_']).to_string();
            let c = if r.chance(80) { " " } else { "_" };
            l[i] = format!("{}{t}", c.repeat(n));
            l.join("\n")
        }
        13 => {
            // splice
            let i = boundary(s, r.below(s.len() + 1));
            let j = boundary(other, r.below(other.len() + 1));
            format!("{}{}", &s[..i], &other[j..])
        }
        14 => {
            // repeat a piece
            let i = boundary(s, r.below(s.len()));
            let j = boundary(s, (i + 1 + r.below(12)).min(s.len()));
            let n = 2 + r.below(6);
            format!("{}{}{}", &s[..i], s[i..j].repeat(n), &s[j..])
        }
        15 => {
            // a long run of one character, or of two
            let i = boundary(s, r.below(s.len() + 1));
            let n = *r.pick(&[20usize, 60, 130, 260, 520, 1030, 2100]) + r.below(9);
            let c = *r.pick(&["x", "é", "日", "🎵", "0", "9", "1é", " ", "a日", ",", "|", ":"]);
            format!("{}{}{}", &s[..i], c.repeat(n), &s[i..])
        }
        _ => {
            // another version
            let v = *r.pick(&[
                "2", "3", "4", "5", "6", "9", "10", "11", "12", "13", "14", "15", "128", "255", "256", "-1", "x", "",
                " 14", "14 ", "014", "+14", "14x",
            ]);
            match s.find("format v") {
                Some(i) => {
                    let end = s[i..].find('\n').map_or(s.len(), |e| i + e);
                    format!("{}format v{v}{}", &s[..i], &s[end..])
                }
                None => format!("osu file format v{v}\n{s}"),
            }
        }
    }
}

pub fn many(r: &mut Rng, s: &str, other: &str) -> String {
    let n = *r.pick(&[1usize, 1, 1, 2, 3, 6]);
    let mut s = s.to_string();
    for _ in 0..n {
        s = one(r, &s, other);
    }
    s
}

/// Text out of tokens, not derived from anything.
pub fn noise(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(60) {
        s.push_str(&format!("osu file format v{}\n", r.range(3, 14)));
    }
    for _ in 0..r.below(20) {
        if r.chance(60) {
            s.push_str(r.pick(LINES));
        } else {
            for _ in 0..r.below(8) {
                s.push_str(r.pick(TOKENS));
                s.push_str(*r.pick(&[",", ":", "|", " ", "", ","]));
            }
        }
        s.push_str(*r.pick(&["\n", "\n", "\n", "\r\n", "\n\n", "\r"]));
    }
    s
}

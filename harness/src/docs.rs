//! Generator of vCard source text: well-formed lines, faulty lines and
//! mutated documents.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Holds {
    Text,
    Uri,
    TextUri,
    Semi,
    Comma,
    Kind,
    Photo,
    Dt,
    Gender,
    Adr,
    Lang,
    Tz,
    Ts,
    PidMap,
    Private,
}
use Holds::*;

pub const SLOTS: &[(&str, Holds)] = &[
    ("SOURCE", Uri),
    ("KIND", Kind),
    ("XML", Text),
    ("FN", Text),
    ("N", Semi),
    ("NICKNAME", Text),
    ("PHOTO", Photo),
    ("BDAY", Dt),
    ("ANNIVERSARY", Dt),
    ("GENDER", Gender),
    ("URL", Uri),
    ("ADR", Adr),
    ("TITLE", Text),
    ("ROLE", Text),
    ("LOGO", Uri),
    ("ORG", Semi),
    ("MEMBER", Uri),
    ("RELATED", TextUri),
    ("TEL", TextUri),
    ("EMAIL", Text),
    ("IMPP", Uri),
    ("LANG", Lang),
    ("TZ", Tz),
    ("GEO", Uri),
    ("CATEGORIES", Comma),
    ("NOTE", Text),
    ("PRODID", Text),
    ("REV", Ts),
    ("SOUND", Uri),
    ("UID", TextUri),
    ("CLIENTPIDMAP", PidMap),
    ("KEY", TextUri),
    ("FBURL", Uri),
    ("CALADRURI", Uri),
    ("CALURI", Uri),
    ("X-FOO", Private),
];
pub const ONCE: &[&str] =
    &["KIND", "N", "BDAY", "ANNIVERSARY", "GENDER", "PRODID", "REV", "UID"];
pub const TYPED: &[&str] = &[
    "FN", "NICKNAME", "PHOTO", "ADR", "TEL", "EMAIL", "IMPP", "LANG", "TZ", "GEO", "TITLE", "ROLE",
    "LOGO", "ORG", "RELATED", "CATEGORIES", "NOTE", "SOUND", "URL", "KEY", "FBURL", "CALADRURI",
    "CALURI", "X-FOO",
];

pub const GROUPS: &[&str] = &[
    "item1", "Item1", "g", "A-1", "x-y", "HOME", "WORK", "9", "0", "a1b2", "ITEM1", "tel", "fn", "tz", "geo", "X-A",
    "end", "version", "begin", "-", "VCARD",
];
pub const NAMES_X: &[&str] = &[
    "X-FOO", "x-foo", "X-foo-Bar", "X-ABLabel", "X-9", "X--", "x-PHONETIC-LAST-NAME", "X-TZ", "X-GEO",
    "X-N", "X-BEGIN", "X-END-VCARD", "X-a",
];

pub fn cased(r: &mut Rng, s: &str) -> String {
    match r.below(6) {
        0 => s.to_ascii_lowercase(),
        1 => s
            .chars()
            .map(|c| if r.pct(50) { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() })
            .collect(),
        _ => s.to_string(),
    }
}

/// Fragments of text that are dangerous to some part of the code.
pub const FRAGS: &[&str] = &[
    "a", "b", "Jane", "Doe", "x", "0", "42", " ", "  ", "\t", ",", ";", ":", "\\", "\\\\", "\n",
    "\n\n", "\\n", "\\N", "\\,", "\\;", "\"", "'", "=", ".", "-", "/", "%", "&", "(", ")", "<b>",
    "é", "ß", "ñandú", "日本", "Ω", "😀", "👩‍👩‍👧", "🇩🇪", "e\u{301}", "\u{301}", "\u{200d}", "\u{a0}",
    "\u{feff}", "\u{2028}", "\u{85}", "BEGIN:VCARD", "END:VCARD", "VERSION:4.0", "FN:x", "END",
    "TEL;TYPE=home", "item1.TZ:", "GEO", "mailto:a@b.c", "http://a.b/c", "X-FOO", "T10", "19850412",
    "\\:", "\\x", ",,", ";;", "nN", "=\"", "a,b", "a;b", "n", "N", "#1", "+1-555", "--04", "\\\\n",
    "\\\\,", "x-", "ENCODING=b", "%0A", "&#10;", "K", "ſ", "İ", "ﬁ", "ﬀ", "ǅ", "ı",
];
pub const PLAIN: &[&str] = &[
    "a", "b", "Jane", "Doe", "x", "0", "42", " ", "é", "日本", "😀", "e\u{301}", "-", "/", "'", "(", ")",
    "=", ".", "n", "N", "long text", "Dr", "ñ",
];

/// Text that holds no control character other than tab and line feed.
pub fn text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => {
            let n = 60 + r.below(120);
            let mut s = String::new();
            while s.len() < n {
                s.push_str(if r.pct(30) { *r.pick(FRAGS) } else { *r.pick(PLAIN) });
            }
            s
        }
        2 => r.pick(PLAIN).to_string(),
        _ => {
            let n = 1 + r.below(6);
            (0..n)
                .map(|_| if r.pct(65) { *r.pick(FRAGS) } else { *r.pick(PLAIN) })
                .collect()
        }
    }
}
/// Text written in a value as is: raw escapes of every sort, no line feed.
pub fn raw(r: &mut Rng) -> String {
    text(r).replace('\n', "\\n")
}
pub fn escape(s: &str, semi: bool) -> String {
    let s = s.replace('\\', "\\\\").replace('\n', "\\n").replace(',', "\\,");
    if semi { s.replace(';', "\\;") } else { s }
}
pub fn plain(r: &mut Rng) -> String {
    let n = 1 + r.below(3);
    (0..n).map(|_| *r.pick(PLAIN)).collect()
}

pub const URIS: &[&str] = &[
    "http://a.b/c", "https://example.com/", "https://example.com", "HTTP://example.com/a", "mailto:a@b.c",
    "tel:+1-555-555-5555;ext=555", "urn:uuid:f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "geo:37.386013,-122.082932",
    "ldap://ldap.example.com/cn=Babs%20Jensen", "data:text/plain;base64,SGVsbG8=", "ftp://u@h.x:21/p?q=1#f",
    "http://h:8080/a;b,c=d?x=y&z#frag", "sip:alice@example.com", "xmpp:a@b", "a+b.c-d:e",
    "CID:part3.msg970930T083000@host1.host.com", "news:comp", "http://a/b//c", "x:/", "x:/a:b", "http://a.b/%2F",
    "https://a.b/c,d;e", "urn:a:b:c",
];
pub const NOT_URIS: &[&str] = &[
    "", "plain", "+1-555-555", "a b:c", "1a:b", ":x", "http://a b/", "http://a.b/é", "http://a.b/%zz",
    "http://a.b/<>", "no colon", "a^b:c", "é:x", "http://a/{x}", "x y", "é", "%41:a", "a_b:c", "-a:b",
];
pub fn uri(r: &mut Rng) -> String {
    if r.pct(20) {
        // grown from parts
        let sch = *r.pick(&["http", "Ftp", "z39.50r", "a", "tel", "x-y"]);
        let auth = *r.pick(&["//h", "//h.x:1", "//u@h.x", "//h/", "//1.2.3.4", "", "", "/"]);
        let path = *r.pick(&["/p", "/p/q", "/a;b", "/a,b", "/%41", "/~x", "/:@", "/a'b(c)*"]);
        let tail = *r.pick(&["", "?q", "?a=b,c;d", "#f", "?q#f", "#", "?"]);
        return format!("{}:{}{}{}", sch, auth, path, tail);
    }
    r.pick(URIS).to_string()
}

pub const DATES_OK: &[&str] = &["19850412", "1985-04-12", "1985-04", "1985", "--0412", "--04", "---12", "20000229",
    "20240229", "00010101", "99991231", "19000228", "--1231", "---31", "--0101", "--02", "1985-12", "0000", "---01"];
pub const DATES_BAD: &[&str] = &["19850431", "19851301", "19850400", "20230229", "19000229", "1985-13", "1985-02-30",
    "--1301", "--13", "--00", "---00", "---32", "--0230", "x", "19850412x", "é", "", "198504121", " 19850412", "1985/04/12", "----1"];
pub const TIMES_OK: &[&str] = &["10", "1022", "102200", "235959", "000000", "-22", "-2200", "--00", "102200Z", "102200-0800",
    "10-0800", "1022Z", "10+05", "102200+0530", "-2200-0030", "--59Z", "1022-0030", "000000-0001", "102200+00", "-22+01", "102200-2359", "102200+2359", "102200+2300",
    "10Z", "--07-0800", "120000-00"];
pub const TIMES_BAD: &[&str] = &["25", "2360", "102261", "1060", "x", "", "é", "10:22x", "102200-2600", "102200+0560", "102200+", "-60",
    "--61", "-", "--", "102200 ", "1", "102", "10220", "102200+1", "102200+100", "102200Z1", "T10"];
pub const OFFS_OK: &[&str] = &["Z", "+00", "-00", "+0000", "-0000", "+05", "-05", "+0530", "-0530", "-0030", "+0030", "+2359", "-2359", "-0001", "+1400", "-1200"];
pub const OFFS_BAD: &[&str] = &["", "z1", "0530", "+5", "+053", "+05:3", "+2600", "-3000", "+0560", "x", "é", "+é", "+05300", "Z0", "--05", "+-05", "- 05", "EST"];

pub fn two(r: &mut Rng, lo: i64, hi: i64) -> String {
    format!("{:02}", r.range(lo, hi))
}
pub fn date(r: &mut Rng) -> String {
    match r.below(4) {
        0 => r.pick(DATES_OK).to_string(),
        1 => r.pick(DATES_BAD).to_string(),
        _ => {
            let y = format!("{:04}", *r.pick(&[0, 1, 4, 100, 400, 999, 1900, 1985, 1999, 2000, 2023, 2024, 2100, 9999]));
            let m = two(r, 0, 13);
            let d = two(r, 0, 32);
            match r.below(7) {
                0 | 1 => format!("{}{}{}", y, m, d),
                2 => format!("{}-{}-{}", y, m, d),
                3 => format!("{}-{}", y, m),
                4 => format!("--{}{}", m, d),
                5 => format!("--{}", m),
                _ => format!("---{}", d),
            }
        }
    }
}
pub fn offset(r: &mut Rng) -> String {
    match r.below(4) {
        0 => r.pick(OFFS_OK).to_string(),
        1 => r.pick(OFFS_BAD).to_string(),
        _ => {
            let s = if r.pct(50) { "+" } else { "-" };
            let h = two(r, 0, 27);
            let m = if r.pct(30) { "".into() } else { two(r, 0, 61) };
            format!("{}{}{}", s, h, m)
        }
    }
}
pub fn time(r: &mut Rng) -> String {
    match r.below(4) {
        0 => r.pick(TIMES_OK).to_string(),
        1 => r.pick(TIMES_BAD).to_string(),
        _ => {
            let h = two(r, 0, 26);
            let m = two(r, 0, 61);
            let s = two(r, 0, 62);
            let t = match r.below(7) {
                0 => h,
                1 => format!("{}{}", h, m),
                2 | 3 => format!("{}{}{}", h, m, s),
                4 => format!("-{}", m),
                5 => format!("-{}{}", m, s),
                _ => format!("--{}", s),
            };
            let z = match r.below(3) {
                0 => "".to_string(),
                1 => "Z".to_string(),
                _ => offset(r),
            };
            t + &z
        }
    }
}
pub fn date_time(r: &mut Rng) -> String {
    match r.below(8) {
        0 => format!("{}T{}", date(r), time(r)),
        1 => format!("{}{}", date(r), time(r)),
        _ => {
            let d = format!("{:04}{:02}{:02}", r.range(0, 9999), r.range(1, 12), r.range(1, 28));
            let d = match r.below(5) { 0 => format!("--{}", &d[4..]), 1 => format!("---{}", &d[6..]), 2 => format!("{}-{}-{}", &d[..4], &d[4..6], &d[6..]), _ => d };
            let h = two(r, 0, 23);
            let m = two(r, 0, 59);
            let s = two(r, 0, 59);
            let t = match r.below(5) { 0 => h, 1 => format!("{}{}", h, m), _ => format!("{}{}{}", h, m, s) };
            let z = match r.below(4) { 0 => "".into(), 1 => "Z".into(), 2 => format!("{}{}", r.pick(&["+", "-"]), two(r, 0, 23)), _ => format!("{}{}{}", r.pick(&["+", "-"]), two(r, 0, 23), two(r, 0, 59)) };
            format!("{}T{}{}", d, t, z)
        }
    }
}
pub fn timestamp(r: &mut Rng) -> String {
    match r.below(5) {
        0 => date_time(r),
        1 => format!("{}T{}", date(r), time(r)),
        2 => format!("{:04}{:02}{:02}T{:02}{:02}{:02}{}", r.range(0, 9999), r.range(0, 13), r.range(0, 32), r.range(0, 25), r.range(0, 61), r.range(0, 61), offset(r)),
        _ => {
            let z = match r.below(4) { 0 => "".into(), 1 => "Z".into(), 2 => format!("{}{}", r.pick(&["+", "-"]), two(r, 0, 23)), _ => format!("{}{}{}", r.pick(&["+", "-"]), two(r, 0, 23), two(r, 0, 59)) };
            format!("{:04}{:02}{:02}T{:02}{:02}{:02}{}", r.range(0, 9999), r.range(1, 12), r.range(1, 28), r.range(0, 23), r.range(0, 59), r.range(0, 59), z)
        }
    }
}
pub fn date_and_or_time(r: &mut Rng) -> String {
    match r.below(6) {
        0 | 1 => date(r),
        2 => format!("T{}", time(r)),
        3 => time(r),
        _ => date_time(r),
    }
}
pub fn list_of(r: &mut Rng, f: impl Fn(&mut Rng) -> String) -> String {
    let n = if r.pct(60) { 1 } else { 1 + r.below(3) };
    (0..n).map(|_| f(r)).collect::<Vec<_>>().join(",")
}
pub const INTS: &[&str] = &["0", "-0", "42", "-7", "007", "9223372036854775807", "9223372036854775808",
    "-9223372036854775808", "-9223372036854775809", "", "1.5", "x", " 1", "1 ", "--1", "1e3", "-", "+", "é", "18446744073709551615", "1_000", "0x10"];
pub const FLOATS: &[&str] = &["0", "0.5", "-0.25", "3.14159", "20.30", "1", "123456789.125", "-1000", "007.50", "inf", "NaN",
    "-inf", "x", "", "1.2.3", ".", "infinity", "nan", "1,5", "é", "1.5x", "0.1", "100.000", "99999999.9"];

pub fn value_for_type(r: &mut Rng, vt: &str) -> String {
    match vt {
        "text" => raw(r),
        "uri" => if r.pct(80) { uri(r) } else { r.pick(NOT_URIS).to_string() },
        "date" => list_of(r, date),
        "time" => list_of(r, time),
        "date-time" => list_of(r, date_time),
        "date-and-or-time" => list_of(r, date_and_or_time),
        "timestamp" => list_of(r, timestamp),
        "boolean" => r.pick(&["true", "FALSE", "True", "false", "tRuE", "yes", "", "1", "true ", "truee"]).to_string(),
        "integer" => list_of(r, |r| r.pick(INTS).to_string()),
        "float" => list_of(r, |r| r.pick(FLOATS).to_string()),
        "utc-offset" => offset(r),
        "language-tag" => r.pick(&["en", "fr-CA", "zh-Hans", "de-DE-1996"]).to_string(),
        _ => raw(r),
    }
}
pub const VTYPES: &[&str] = &["text", "uri", "date", "time", "date-time", "date-and-or-time", "timestamp", "boolean", "integer", "float", "utc-offset", "language-tag"];

/// A value for what the slot holds; mostly, but not always, acceptable.
pub fn value(r: &mut Rng, h: Holds, vt: &str) -> String {
    match h {
        Text => raw(r),
        Uri => if r.pct(92) { uri(r) } else { r.pick(NOT_URIS).to_string() },
        Lang => r.pick(&["en", "fr", "en-US", "de-CH-1996", "zh-Hant-TW", "x-private"]).to_string(),
        Kind => r.pick(&["individual", "group", "org", "location", "group", "group", "robot", "", "groups", "org ", "x-y"]).to_string(),
        Gender => match r.below(5) {
            0 => r.pick(&["M", "F", "O", "N", "U", "", "X", "MF", "m", "é"]).to_string(),
            _ => format!("{};{}", r.pick(&["M", "F", "O", "N", "U", "", "", "Q", "MM"]), raw(r)),
        },
        Adr => {
            let n = match r.below(12) { 0 => 1 + r.below(6), 1 => 8 + r.below(3), _ => 7 };
            (0..n).map(|_| if r.pct(40) { String::new() } else { escape(&text(r), true) }).collect::<Vec<_>>().join(";")
        }
        Semi => match r.below(4) {
            0 => raw(r),
            _ => { let n = 1 + r.below(6); (0..n).map(|_| if r.pct(25) { String::new() } else { escape(&text(r), true) }).collect::<Vec<_>>().join(";") }
        },
        Comma => match r.below(4) {
            0 => raw(r),
            _ => { let n = 1 + r.below(4); (0..n).map(|_| escape(&text(r), r.pct(50))).collect::<Vec<_>>().join(",") }
        },
        PidMap => match r.below(6) {
            0 => r.pick(&["0;urn:a:b", "1", "x;urn:a:b", "-1;urn:a:b", ";urn:a:b", "1;", "1;foo", "1.5;urn:a:b", "18446744073709551616;urn:a:b"]).to_string(),
            _ => format!("{};{}", r.pick(&["1", "2", "42", "007", "18446744073709551615"]), uri(r)),
        },
        Ts => timestamp(r),
        Dt => match vt { "text" => raw(r), _ => list_of(r, date_and_or_time) },
        Tz => match vt { "utc-offset" => offset(r), "uri" => value_for_type(r, "uri"), _ => raw(r) },
        TextUri | Photo => match vt {
            "text" => if r.pct(30) { uri(r) } else { raw(r) },
            "uri" => value_for_type(r, "uri"),
            _ => match r.below(4) { 0 => raw(r), 1 => r.pick(NOT_URIS).to_string(), _ => uri(r) },
        },
        Private => if vt.is_empty() { raw(r) } else { value_for_type(r, vt) },
    }
}

/// Text of a parameter value before quoting; no quotes, no line feed.
pub fn param_text(r: &mut Rng) -> String {
    let n = 1 + r.below(3);
    let s: String = (0..n)
        .map(|_| if r.pct(40) { *r.pick(FRAGS) } else { *r.pick(PLAIN) })
        .collect();
    s.replace('"', "'").replace('\n', "\\n")
}
pub fn write_param(r: &mut Rng, name: &str, value: &str) -> String {
    let name = cased(r, name);
    // words of the framing lines next to the delimiter are lexed as one token
    let framing = |v: &str| {
        let u = v.to_ascii_uppercase();
        ["BEGIN", "END", "VERSION"].iter().any(|w| u.ends_with(w))
    };
    if value.contains([':', ';']) || framing(value) || r.pct(30) {
        if !value.contains([':', ';']) || r.pct(97) {
            return format!(";{}=\"{}\"", name, value);
        }
    }
    format!(";{}={}", name, value)
}
pub fn vt_for(r: &mut Rng, h: Holds) -> String {
    let good: &[&str] = match h {
        TextUri | Photo => &["text", "uri"],
        Dt => &["text", "date-and-or-time"],
        Tz => &["text", "uri", "utc-offset"],
        Private => VTYPES,
        Uri => &["uri"],
        Lang => &["language-tag"],
        Ts => &["timestamp"],
        _ => &["text"],
    };
    if r.pct(88) { r.pick(good).to_string() } else if r.pct(60) { r.pick(VTYPES).to_string() } else { r.pick(&["foo", "", "x-bar", "texts", "date-", "é"]).to_string() }
}
/// One parameter that is not VALUE; about one in twelve is faulty.
pub fn param(r: &mut Rng, slot: &str, fault: u64) -> String {
    let bad = r.pct(fault);
    match r.below(14) {
        0 => { let v = if r.pct(70) { r.pick(&["en", "fr-CA", "de", "en-US"]).to_string() } else { param_text(r) }; write_param(r, "LANGUAGE", &v) }
        1 => { let v = if bad { *r.pick(&["0", "101", "255", "256", "-1", "x", "", "1.0", " 1", "1000000000000000000000"]) } else { *r.pick(&["1", "2", "50", "99", "100", "007"]) }; write_param(r, "PREF", v) }
        2 => { let v = param_text(r); write_param(r, "ALTID", &v) }
        3 => { let v = if bad { *r.pick(&["x", "", "1.", ".1", "1.x", "1,,2", "1.2.3", "-1", "18446744073709551616", "1. 2"]) } else { *r.pick(&["1", "1.1", "2.3,4.5", "0.0", "1,2,3", "007.010", "18446744073709551615.18446744073709551615"]) }; write_param(r, "PID", v) }
        4 | 5 => {
            if !bad && !TYPED.contains(&slot) && !slot.starts_with("X-") { return String::new(); }
            let n = 1 + r.below(3);
            let v = (0..n).map(|_| r.pick(&["home", "work", "HOME", "Work", "cell", "VOICE", "fax", "text", "textphone", "video", "pager", "friend", "Co-Worker", "me", "emergency", "contact", "date", "kin",
                "x-foo", "X-Bar", "JPEG", "pref", "internet", "x-", "other é", "sweetheart", "co-resident", "acquaintance", "met", "colleague", "neighbor", "child", "parent", "sibling", "spouse", "muse", "crush", "agent"]).to_string()).collect::<Vec<_>>().join(",");
            write_param(r, "TYPE", &v)
        }
        6 => { let v = r.pick(&["text/plain", "image/jpeg", "text/plain;charset=utf-8", "application/vnd.x+json"]).to_string(); write_param(r, "MEDIATYPE", &v) }
        7 => { let v = if r.pct(60) { "gregorian".to_string() } else { param_text(r) }; write_param(r, "CALSCALE", &v) }
        8 => { let n = 1 + r.below(3); let v = (0..n).map(|_| plain(r)).collect::<Vec<_>>().join(","); write_param(r, "SORT-AS", &v) }
        9 => { let u = if bad { r.pick(NOT_URIS).to_string() } else { uri(r) }; let name = cased(r, "GEO"); if bad && r.pct(50) { format!(";{}={}", name, u) } else { format!(";{}=\"{}\"", name, u.replace('"', "")) } }
        10 => { let name = cased(r, "TZ"); match r.below(4) { 0 => format!(";{}=\"{}\"", name, if bad { "foo bar".to_string() } else { uri(r) }), 1 => format!(";{}={}", name, r.pick(OFFS_OK)), 2 => format!(";{}={}", name, r.pick(&["Raleigh/North America", "EST", "+05300", "+2600", "utc"])), _ => format!(";{}={}", name, escape(&param_text(r).replace(':', "."), true)) } }
        11 => if slot == "ADR" || bad { let v = param_text(r); write_param(r, "LABEL", &v) } else { String::new() },
        12 => { let v = if bad { *r.pick(&["latin1", "utf-8", "UTF-16", "UTF-é8", "UTF-", "UTF-8x", "", "utf8", "é", "UTFé-8", "😀", "UTF-8,UTF-8"]) } else { "UTF-8" }; let n = if r.pct(50) { "CHARSET" } else { "charset" }; write_param(r, n, v) }
        _ => {
            if bad { let n = *r.pick(&["FOO", "LANGUAGES", "PRE", "X-", "X", "1", "TYP", "É", "", "ALT-ID", "SORTAS"]); return format!(";{}=x", n); }
            let name = r.pick(&["X-BAR", "x-a", "X-AB-1", "ENCODING", "X-BAR", "encoding", "X-TYPE", "X-TZ"]).to_string();
            let n = 1 + r.below(3);
            let v = (0..n).map(|_| param_text(r).replace(',', ".")).collect::<Vec<_>>().join(",");
            // private names keep their case, so it is chosen here
            let w = write_param(r, "Q", &v);
            format!(";{}{}", name, &w[2..])
        }
    }
}

#[derive(Clone)]
pub struct Style {
    /// percentage of faulty parameters
    pub fault: u64,
    /// percentage of lines with a group
    pub groups: u64,
    /// most parameters of a line
    pub params: usize,
}
impl Default for Style {
    fn default() -> Self {
        Style { fault: 3, groups: 25, params: 3 }
    }
}

/// Value type the line has, as the generator intends it.
pub fn line_for(r: &mut Rng, slot: &str, h: Holds, st: &Style) -> String {
    let group = if r.pct(st.groups) { format!("{}.", r.pick(GROUPS)) } else { String::new() };
    let name = if h == Private { r.pick(NAMES_X).to_string() } else { cased(r, slot) };
    let vt = match h {
        Private => if r.pct(70) { vt_for(r, h) } else { String::new() },
        TextUri | Dt | Tz | Photo => if r.pct(50) { vt_for(r, h) } else { String::new() },
        _ => if r.pct(6) { vt_for(r, h) } else { String::new() },
    };
    let mut ps: Vec<String> = Vec::new();
    if !vt.is_empty() {
        let written = cased(r, &vt);
        ps.push(write_param(r, "VALUE", &written));
    }
    if st.params > 0 {
        for _ in 0..r.below(st.params + 1) {
            let p = param(r, if h == Private { "X-FOO" } else { slot }, st.fault);
            let at = r.below(ps.len() + 1);
            ps.insert(at, p);
        }
    }
    let v = value(r, h, &vt);
    format!("{}{}{}:{}", group, name, ps.concat(), v)
}
pub fn line(r: &mut Rng, st: &Style) -> String {
    let (s, h) = *r.pick(SLOTS);
    line_for(r, s, h, st)
}

pub const FAULTY: &[&str] = &[
    "FOO:bar", "NAME:x", "LABEL:x", "CLASS:PUBLIC", "X-:y", "X:y", "", ":x", ";:x", "FN", "FN;", "FN;=x:y", "FN x:y",
    "FN=x", ".FN:x", "a.b.FN:x", "a..FN:x", "VERSION:4.0", "VERSION:3.0", "version:4.0", "BEGIN:VCARD", "begin:vcard",
    "FN;PREF=0:x", "FN;PREF=1", "FN;PREF:x", "FN;PREF=\"1:x", "FN;PREF=\"1\"x:y", "REV:yesterday", "N\u{1}:x",
    "NOTE:a\u{1}b", "NOTE:a\u{7f}b", "NOTE;ALTID=a\u{2}b:x", "KIND:robot", "GENDER:X", "ADR:a;b", "CLIENTPIDMAP:0;urn:a:b",
    "CLIENTPIDMAP;PID=1.1:1;urn:a:b", "URL:not a uri", "BDAY:é", "BDAY;VALUE=date:19850412", "TEL;VALUE=date:x", "LABEL;X=1:y", "NOTE;LABEL=x:y", "NOTE;GEO=geo:1,2:x", "NOTE;CHARSET=x:y", "É:x", "FN:a\rb",
    "NOTE;TZ=\"x y\":z", "MEMBER;TYPE=home:urn:a:b", "PRODID;TYPE=home:x", "UID;VALUE=integer:1", "KEY;VALUE=boolean:true", "X-A;VALUE=integer:x", "X-A;VALUE=foo:x",
    "TZ;VALUE=date:19850412", "REV;VALUE=text:x", "END:VCARDS", "END", "END:", "VERSION", "VERSION:", "VERSION:5.0", "VERSION:2.1", "BEGIN", "BEGIN:", "end.FN:x",
    "item1.FOO:x", "item1.:x", "item1", "item1.FN", "-:x", "9:x", "\t", " ", "  FN:x", "FN :x", "FN\t:x", "\"FN\":x", "NOTE;X-A=\"a\"b\":c", "FN;LANGUAGE=en;:x", "FN;;PREF=1:x", "FN;PREF=1;;:x",
];

/// Body lines of a card; `n` random lines, an FN, and MEMBER only in a group.
pub fn body(r: &mut Rng, n: usize, st: &Style) -> Vec<String> {
    let mut ls: Vec<String> = Vec::new();
    let mut member = false;
    let mut seen: Vec<&str> = Vec::new();
    for _ in 0..n {
        let (s, h) = *r.pick(SLOTS);
        if ONCE.contains(&s) {
            if (seen.contains(&s) && r.pct(90)) || (s == "KIND" && member) {
                continue;
            }
            seen.push(s);
        }
        if s == "MEMBER" {
            if seen.contains(&"KIND") && !member {
                continue;
            }
            if !member {
                let at = r.below(ls.len() + 1);
                ls.insert(at, "KIND:group".into());
                member = true;
                seen.push("KIND");
            }
        }
        ls.push(line_for(r, s, h, st));
    }
    if r.pct(97) {
        let at = r.below(ls.len() + 1);
        let l = line_for(r, "FN", Text, &Style { fault: 0, ..st.clone() });
        ls.insert(at, l);
    }
    ls
}
pub fn eol(r: &mut Rng) -> &'static str {
    if r.pct(50) { "\n" } else { "\r\n" }
}
pub fn wrap(r: &mut Rng, ls: &[String]) -> String {
    let e = eol(r).to_string();
    let mixed = r.pct(10);
    let mut s = String::new();
    let mut nl = |r: &mut Rng, s: &mut String| {
        if mixed { s.push_str(eol(r)) } else { s.push_str(&e) }
    };
    s.push_str(&cased(r, "BEGIN:VCARD"));
    nl(r, &mut s);
    let v = if r.pct(80) { "VERSION:4.0" } else { "VERSION:3.0" };
    s.push_str(&cased(r, v));
    nl(r, &mut s);
    for l in ls {
        s.push_str(l);
        nl(r, &mut s);
    }
    s.push_str(&cased(r, "END:VCARD"));
    if r.pct(85) {
        nl(r, &mut s);
    }
    s
}
pub fn doc(r: &mut Rng, st: &Style) -> String {
    let n = 1 + r.below(6);
    let ls = body(r, n, st);
    wrap(r, &ls)
}
/// A document that has exactly these lines in one card with an FN.
pub fn simple(lines: &[&str]) -> String {
    let mut s = String::from("BEGIN:VCARD\nVERSION:4.0\nFN:x\n");
    for l in lines {
        s.push_str(l);
        s.push('\n');
    }
    s.push_str("END:VCARD\n");
    s
}
pub const SPECIAL: &[&str] = &[
    "\n", "\r\n", "\r", " ", "\t", "\n ", "\r\n\t", ";", ":", ",", "=", ".", "\"", "\\", "\\n", "\u{1}", "\u{7f}", "\u{0}", "é",
    "😀", "-", "T", "Z", "+", "0", "9", "X-", "BEGIN:VCARD", "END:VCARD", "VERSION:4.0", "\n\n", "FN", "TYPE=", "K", "ſ", "\u{feff}", "\u{b}",
    "TZ", "GEO", "\nEND:VCARD\n", "\nBEGIN:VCARD\n", "\nNOTE:", ";PREF=", "\n\u{a0}",
];
/// Character-level damage.
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        let n = cs.len();
        let at = r.below(n + 1);
        match r.below(6) {
            0 | 1 => {
                let ins: Vec<char> = r.pick(SPECIAL).chars().collect();
                cs.splice(at..at, ins);
            }
            2 => {
                let to = (at + 1 + r.below(3)).min(n);
                if at < to {
                    cs.drain(at..to);
                }
            }
            3 => {
                if at < n {
                    let ins: Vec<char> = r.pick(SPECIAL).chars().collect();
                    cs.splice(at..at + 1, ins);
                }
            }
            4 => {
                // duplicate a stretch
                let to = (at + 1 + r.below(20)).min(n);
                if at < to {
                    let part: Vec<char> = cs[at..to].to_vec();
                    let back = r.below(n + 1);
                    cs.splice(back..back, part);
                }
            }
            _ => {
                // cut off the end
                if r.pct(40) {
                    cs.truncate(at);
                } else if at < n {
                    let c = cs[at];
                    cs[at] = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                }
            }
        }
    }
    cs.into_iter().collect()
}
/// Insert line folds at random places inside the lines.
pub fn fold(r: &mut Rng, s: &str, count: usize) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..count {
        let at = 1 + r.below(cs.len().max(2) - 1);
        if at >= cs.len() || !fold_place(&cs, at) {
            continue;
        }
        let f = *r.pick(&["\n ", "\r\n ", "\n\t", "\r\n\t"]);
        cs.splice(at..at, f.chars());
    }
    cs.into_iter().collect()
}
/// Whether a fold before index `at` lies inside a content line.
pub fn fold_place(cs: &[char], at: usize) -> bool {
    at > 0 && at <= cs.len()
        && cs[at - 1] != '\n'
        && !(cs[at - 1] == '\r' && at < cs.len() && cs[at] == '\n')
        && !(cs[at - 1] == '\r')
}

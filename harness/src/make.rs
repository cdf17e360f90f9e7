//! Cards assembled from the representation used by the specification.
use crate::repr::untext;
use serde_json::Value;
use time::{Time, UtcOffset};
use vcard4::{parameter::*, property::*, Date, DateTime, Uri, Vcard};

fn s(v: &Value) -> String {
    untext(v)
}
fn all(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(untext).collect()).unwrap_or_default()
}
fn num(s: &str, a: usize, b: usize) -> i32 {
    s[a..b].parse().unwrap()
}
pub fn offset(s: &str) -> UtcOffset {
    let g = if &s[..1] == "-" { -1 } else { 1 };
    UtcOffset::from_hms((g * num(s, 1, 3)) as i8, (g * num(s, 3, 5)) as i8, 0).unwrap()
}
pub fn tdate(s: &str) -> time::Date {
    time::Date::from_calendar_date(num(s, 0, 4), time::Month::try_from(num(s, 4, 6) as u8).unwrap(), num(s, 6, 8) as u8).unwrap()
}
pub fn clock(s: &str) -> (Time, UtcOffset) {
    (Time::from_hms(num(s, 0, 2) as u8, num(s, 2, 4) as u8, num(s, 4, 6) as u8).unwrap(), offset(&s[6..]))
}
pub fn stamp(s: &str) -> DateTime {
    let (t, o) = clock(&s[9..]);
    time::PrimitiveDateTime::new(tdate(&s[..8]), t).assume_offset(o).into()
}
pub fn daot(s: &str) -> DateAndOrTime {
    match &s[..1] {
        "D" => Date::from(tdate(&s[1..])).into(),
        "X" => stamp(&s[1..]).into(),
        _ => clock(&s[1..]).into(),
    }
}
fn uri(s: &str) -> Uri {
    s.parse().unwrap()
}
#[cfg(feature = "language-tags")]
fn lang(s: &str) -> language_tags::LanguageTag {
    s.parse().unwrap()
}
#[cfg(not(feature = "language-tags"))]
fn lang(s: &str) -> String {
    s.to_string()
}
#[cfg(feature = "mime")]
fn media(s: &str) -> mime::Mime {
    s.parse().unwrap()
}
#[cfg(not(feature = "mime"))]
fn media(s: &str) -> String {
    s.to_string()
}
/// Whether this build can hold the card: language tags and media types are
/// parsed where the features for them are on.
pub fn possible(card: &Value) -> bool {
    let lang = |s: &str| !cfg!(feature = "language-tags") || tag(s);
    let mime = |s: &str| !cfg!(feature = "mime") || kind(s);
    card.as_array().unwrap().iter().all(|p| {
        (p["t"] != "lang" || all(&p["x"]).iter().all(|s| lang(s)))
            && p["p"].as_array().unwrap().iter().all(|q| match q["k"].as_str() {
                Some("LANGUAGE") => all(&q["v"]).iter().all(|s| lang(s)),
                Some("MEDIATYPE") => all(&q["v"]).iter().all(|s| mime(s)),
                _ => true,
            })
    })
}
#[cfg(feature = "language-tags")]
fn tag(s: &str) -> bool {
    s.parse::<language_tags::LanguageTag>().is_ok()
}
#[cfg(not(feature = "language-tags"))]
fn tag(_: &str) -> bool {
    true
}
#[cfg(feature = "mime")]
fn kind(s: &str) -> bool {
    s.parse::<mime::Mime>().is_ok()
}
#[cfg(not(feature = "mime"))]
fn kind(_: &str) -> bool {
    true
}
fn types(s: &str) -> TypeParameter {
    match s.split_once(':') {
        None => s.parse().unwrap(),
        Some(("x", rest)) => TypeParameter::Extension(rest.to_string()),
        Some((_, rest)) => rest.parse().unwrap(),
    }
}
fn value_type(s: &str) -> ValueType {
    s.parse().unwrap()
}
fn params(v: &Value) -> Option<Parameters> {
    let a = v.as_array().unwrap();
    if a.is_empty() {
        return None;
    }
    let mut p = Parameters::default();
    let mut ext: Vec<(String, Vec<String>)> = Vec::new();
    for q in a {
        let l = all(&q["v"]);
        let one = || l[0].clone();
        match q["k"].as_str().unwrap() {
            "LANGUAGE" => p.language = Some(lang(&one())),
            "VALUE" => p.value = Some(value_type(&one())),
            "PREF" => p.pref = Some(one().parse().unwrap()),
            "ALTID" => p.alt_id = Some(one()),
            "PID" => p.pid = Some(l.iter().map(|x| match x.split_once('.') {
                None => Pid::new(x.parse().unwrap(), None),
                Some((a, b)) => Pid::new(a.parse().unwrap(), Some(b.parse().unwrap())),
            }).collect()),
            "TYPE" => p.types = Some(l.iter().map(|x| types(x)).collect()),
            "MEDIATYPE" => p.media_type = Some(media(&one())),
            "CALSCALE" => p.calscale = Some(one()),
            "SORT-AS" => p.sort_as = Some(l.clone()),
            "GEO" => p.geo = Some(uri(&one())),
            "TZ" => p.timezone = Some(match l[0].as_str() {
                "text" => TimeZoneParameter::Text(l[1].clone()),
                "uri" => TimeZoneParameter::Uri(uri(&l[1])),
                _ => TimeZoneParameter::UtcOffset(offset(&l[1])),
            }),
            "LABEL" => p.label = Some(one()),
            "X-" => ext.push((l[0].clone(), l[1..].to_vec())),
            k => panic!("no parameter {}", k),
        }
    }
    if !ext.is_empty() {
        p.extensions = Some(ext);
    }
    Some(p)
}

pub fn card(v: &Value) -> Vcard {
    let mut c = Vcard::default();
    for p in v.as_array().unwrap() {
        let group = all(&p["g"]).first().cloned();
        let parameters = params(&p["p"]);
        let x = all(&p["x"]);
        let ty = p["t"].as_str().unwrap();
        macro_rules! text { () => { TextProperty { group, value: x[0].clone(), parameters } } }
        macro_rules! urip { () => { UriProperty { group, value: uri(&x[0]), parameters } } }
        macro_rules! tu { () => { if ty == "uri" { TextOrUriProperty::Uri(urip!()) } else { TextOrUriProperty::Text(text!()) } } }
        macro_rules! list { ($d:ident) => { TextListProperty { group, value: x.clone(), parameters, delimiter: TextListDelimiter::$d } } }
        macro_rules! dtt { () => { if ty == "text" { DateTimeOrTextProperty::Text(text!()) } else {
            DateTimeOrTextProperty::DateTime(DateAndOrTimeProperty { group, value: x.iter().map(|s| daot(s)).collect(), parameters }) } } }
        match p["s"].as_str().unwrap() {
            "SOURCE" => c.source.push(urip!()),
            "KIND" => c.kind = Some(KindProperty { group, value: x[0].parse().unwrap(), parameters }),
            "XML" => c.xml.push(text!()),
            "FN" => c.formatted_name.push(text!()),
            "N" => c.name = Some(list!(SemiColon)),
            "NICKNAME" => c.nickname.push(text!()),
            "PHOTO" => c.photo.push(tu!()),
            "BDAY" => c.bday = Some(dtt!()),
            "ANNIVERSARY" => c.anniversary = Some(dtt!()),
            "GENDER" => c.gender = Some(GenderProperty { group, value: Gender {
                sex: match x[0].as_str() { "" => Sex::None, "M" => Sex::Male, "F" => Sex::Female, "O" => Sex::Other, "N" => Sex::NotApplicable, _ => Sex::Unknown },
                identity: x.get(1).cloned() }, parameters }),
            "URL" => c.url.push(urip!()),
            "ADR" => {
                let o = |i: usize| Some(x[i].clone()).filter(|s| !s.is_empty());
                c.address.push(AddressProperty { group, value: DeliveryAddress { po_box: o(0), extended_address: o(1), street_address: o(2),
                    locality: o(3), region: o(4), postal_code: o(5), country_name: o(6) }, parameters })
            }
            "TITLE" => c.title.push(text!()),
            "ROLE" => c.role.push(text!()),
            "LOGO" => c.logo.push(urip!()),
            "ORG" => c.org.push(list!(SemiColon)),
            "MEMBER" => c.member.push(urip!()),
            "RELATED" => c.related.push(tu!()),
            "TEL" => c.tel.push(tu!()),
            "EMAIL" => c.email.push(text!()),
            "IMPP" => c.impp.push(urip!()),
            "LANG" => c.lang.push(LanguageProperty { group, value: lang(&x[0]), parameters }),
            "TZ" => c.timezone.push(match ty {
                "uri" => TimeZoneProperty::Uri(urip!()),
                "offset" => TimeZoneProperty::UtcOffset(UtcOffsetProperty { group, value: offset(&x[0]), parameters }),
                _ => TimeZoneProperty::Text(text!()),
            }),
            "GEO" => c.geo.push(urip!()),
            "CATEGORIES" => c.categories.push(list!(Comma)),
            "NOTE" => c.note.push(text!()),
            "PRODID" => c.prod_id = Some(text!()),
            "REV" => c.rev = Some(DateTimeProperty { group, value: stamp(&x[0]), parameters }),
            "SOUND" => c.sound.push(urip!()),
            "UID" => c.uid = Some(tu!()),
            "CLIENTPIDMAP" => c.client_pid_map.push(ClientPidMapProperty { group,
                value: ClientPidMap { source: x[0].parse().unwrap(), uri: uri(&x[1]) }, parameters }),
            "KEY" => c.key.push(tu!()),
            "FBURL" => c.fburl.push(urip!()),
            "CALADRURI" => c.cal_adr_uri.push(urip!()),
            "CALURI" => c.cal_uri.push(urip!()),
            _ => {
                let value = match ty {
                    "text" => AnyProperty::Text(x[0].clone()),
                    "integer" => AnyProperty::Integer(x.iter().map(|s| s.parse().unwrap()).collect()),
                    "float" => AnyProperty::Float(x.iter().map(|s| s.parse().unwrap()).collect()),
                    "boolean" => AnyProperty::Boolean(x[0] == "true"),
                    "date" => AnyProperty::Date(x.iter().map(|s| tdate(s).into()).collect()),
                    "date-time" => AnyProperty::DateTime(x.iter().map(|s| stamp(s)).collect()),
                    "time" => AnyProperty::Time(x.iter().map(|s| clock(s)).collect()),
                    "dt" => AnyProperty::DateAndOrTime(x.iter().map(|s| daot(s)).collect()),
                    "timestamp" => AnyProperty::Timestamp(x.iter().map(|s| stamp(s)).collect()),
                    "uri" => AnyProperty::Uri(uri(&x[0])),
                    "offset" => AnyProperty::UtcOffset(offset(&x[0])),
                    "lang" => AnyProperty::Language(lang(&x[0])),
                    t => panic!("no type {}", t),
                };
                c.extensions.push(ExtensionProperty { name: s(&p["n"]), group, value, parameters });
            }
        }
    }
    c
}

//! Projection of the library's public values onto the representation used by
//! the specification: text as code points, cards as lists of properties.
use serde_json::{json, Value};
use time::{OffsetDateTime, Time, UtcOffset};
use vcard4::{parameter::*, property::*, Uri, Vcard};

pub fn t(s: &str) -> Value {
    Value::Array(s.chars().map(|c| Value::from(c as u32)).collect())
}
pub fn untext(v: &Value) -> String {
    v.as_array()
        .map(|a| {
            a.iter()
                .filter_map(|c| c.as_u64().and_then(|c| char::from_u32(c as u32)))
                .collect()
        })
        .unwrap_or_default()
}
pub fn uri_s(u: &Uri) -> String {
    let s = u.to_string();
    match s.find(':') {
        Some(p) => format!("{}{}", s[..p].to_ascii_lowercase(), &s[p..]),
        None => s,
    }
}
pub fn off_s(o: &UtcOffset) -> String {
    let (h, m, s) = o.as_hms();
    let sign = if h < 0 || m < 0 || s < 0 { '-' } else { '+' };
    let mut r = format!("{}{:02}{:02}", sign, h.abs(), m.abs());
    if s != 0 {
        r.push_str(&format!(":{:02}", s.abs()));
    }
    r
}
pub fn date_s(d: &time::Date) -> String {
    format!("{:04}{:02}{:02}", d.year(), u8::from(d.month()), d.day())
}
pub fn clock_s(t: &Time) -> String {
    let mut r = format!("{:02}{:02}{:02}", t.hour(), t.minute(), t.second());
    if t.nanosecond() != 0 {
        r.push_str(&format!(".{}", t.nanosecond()));
    }
    r
}
pub fn time_s(v: &(Time, UtcOffset)) -> String {
    format!("{}{}", clock_s(&v.0), off_s(&v.1))
}
pub fn dt_s(d: &OffsetDateTime) -> String {
    format!("{}T{}{}", date_s(&d.date()), clock_s(&d.time()), off_s(&d.offset()))
}
pub fn daot_s(v: &DateAndOrTime) -> String {
    match v {
        DateAndOrTime::Date(d) => format!("D{}", date_s(d.as_ref())),
        DateAndOrTime::DateTime(d) => format!("X{}", dt_s(d.as_ref())),
        DateAndOrTime::Time(x) => format!("T{}", time_s(x)),
    }
}
pub fn type_s(v: &TypeParameter) -> String {
    match v {
        TypeParameter::Home => "home".into(),
        TypeParameter::Work => "work".into(),
        TypeParameter::Telephone(x) => format!(
            "tel:{}",
            match x {
                TelephoneType::Text => "text",
                TelephoneType::Voice => "voice",
                TelephoneType::Fax => "fax",
                TelephoneType::Cell => "cell",
                TelephoneType::Video => "video",
                TelephoneType::Pager => "pager",
                TelephoneType::TextPhone => "textphone",
            }
        ),
        TypeParameter::Related(x) => format!(
            "rel:{}",
            match x {
                RelatedType::Contact => "contact",
                RelatedType::Acquaintance => "acquaintance",
                RelatedType::Friend => "friend",
                RelatedType::Met => "met",
                RelatedType::CoWorker => "co-worker",
                RelatedType::Colleague => "colleague",
                RelatedType::CoResident => "co-resident",
                RelatedType::Neighbor => "neighbor",
                RelatedType::Child => "child",
                RelatedType::Parent => "parent",
                RelatedType::Sibling => "sibling",
                RelatedType::Spouse => "spouse",
                RelatedType::Kin => "kin",
                RelatedType::Muse => "muse",
                RelatedType::Crush => "crush",
                RelatedType::Date => "date",
                RelatedType::Sweetheart => "sweetheart",
                RelatedType::Me => "me",
                RelatedType::Agent => "agent",
                RelatedType::Emergency => "emergency",
            }
        ),
        TypeParameter::Extension(s) => format!("x:{}", s),
    }
}
pub fn vt_s(v: &ValueType) -> &'static str {
    match v {
        ValueType::Text => "text",
        ValueType::Uri => "uri",
        ValueType::Date => "date",
        ValueType::Time => "time",
        ValueType::DateTime => "date-time",
        ValueType::DateAndOrTime => "date-and-or-time",
        ValueType::Timestamp => "timestamp",
        ValueType::Boolean => "boolean",
        ValueType::Integer => "integer",
        ValueType::Float => "float",
        ValueType::UtcOffset => "utc-offset",
        ValueType::LanguageTag => "language-tag",
    }
}
pub fn pid_s(p: &Pid) -> String {
    match p.source {
        Some(s) => format!("{}.{}", p.local, s),
        None => format!("{}", p.local),
    }
}
fn ts<'a>(i: impl IntoIterator<Item = &'a str>) -> Value {
    Value::Array(i.into_iter().map(t).collect())
}
fn tss(i: impl IntoIterator<Item = String>) -> Value {
    Value::Array(i.into_iter().map(|s| t(&s)).collect())
}

pub fn params(p: Option<&Parameters>) -> Value {
    let mut out = Vec::new();
    let Some(p) = p else { return Value::Array(out) };
    let mut add = |k: &str, v: Value| out.push(json!({"k": k, "v": v}));
    if let Some(x) = &p.language {
        add("LANGUAGE", ts([x.to_string().as_str()]));
    }
    if let Some(x) = &p.value {
        add("VALUE", ts([vt_s(x)]));
    }
    if let Some(x) = &p.pref {
        add("PREF", tss([x.to_string()]));
    }
    if let Some(x) = &p.alt_id {
        add("ALTID", ts([x.as_str()]));
    }
    if let Some(x) = &p.pid {
        add("PID", tss(x.iter().map(pid_s)));
    }
    if let Some(x) = &p.types {
        add("TYPE", tss(x.iter().map(type_s)));
    }
    if let Some(x) = &p.media_type {
        add("MEDIATYPE", ts([x.to_string().as_str()]));
    }
    if let Some(x) = &p.calscale {
        add("CALSCALE", ts([x.as_str()]));
    }
    if let Some(x) = &p.sort_as {
        add("SORT-AS", ts(x.iter().map(|s| s.as_str())));
    }
    if let Some(x) = &p.geo {
        add("GEO", tss([uri_s(x)]));
    }
    if let Some(x) = &p.timezone {
        add(
            "TZ",
            match x {
                TimeZoneParameter::Text(s) => ts(["text", s.as_str()]),
                TimeZoneParameter::Uri(u) => tss(["uri".to_string(), uri_s(u)]),
                TimeZoneParameter::UtcOffset(o) => tss(["offset".to_string(), off_s(o)]),
            },
        );
    }
    if let Some(x) = &p.label {
        add("LABEL", ts([x.as_str()]));
    }
    if let Some(x) = &p.extensions {
        for (n, vs) in x {
            let mut l = vec![n.as_str()];
            l.extend(vs.iter().map(|s| s.as_str()));
            add("X-", ts(l));
        }
    }
    // Parameters that are present but hold nothing must not look like none
    if out.is_empty() {
        out.push(json!({"k": "EMPTY", "v": []}));
    }
    Value::Array(out)
}

fn prop(
    s: &str,
    g: &Option<String>,
    n: Option<&str>,
    p: &Option<Parameters>,
    ty: &str,
    x: Value,
) -> Value {
    json!({
        "s": s,
        "g": match g { Some(g) => ts([g.as_str()]), None => json!([]) },
        "n": match n { Some(n) => t(n), None => json!([]) },
        "p": params(p.as_ref()),
        "t": ty,
        "x": x,
    })
}
fn text(s: &str, p: &TextProperty) -> Value {
    prop(s, &p.group, None, &p.parameters, "text", ts([p.value.as_str()]))
}
fn uri(s: &str, p: &UriProperty) -> Value {
    prop(s, &p.group, None, &p.parameters, "uri", tss([uri_s(&p.value)]))
}
fn texturi(s: &str, p: &TextOrUriProperty) -> Value {
    match p {
        TextOrUriProperty::Text(p) => text(s, p),
        TextOrUriProperty::Uri(p) => uri(s, p),
    }
}
fn list(s: &str, p: &TextListProperty) -> Value {
    let ty = match p.delimiter {
        TextListDelimiter::Comma => "list,",
        TextListDelimiter::SemiColon => "list;",
    };
    prop(s, &p.group, None, &p.parameters, ty, ts(p.value.iter().map(|s| s.as_str())))
}
fn dtt(s: &str, p: &DateTimeOrTextProperty) -> Value {
    match p {
        DateTimeOrTextProperty::Text(p) => text(s, p),
        DateTimeOrTextProperty::DateTime(p) => {
            prop(s, &p.group, None, &p.parameters, "dt", tss(p.value.iter().map(daot_s)))
        }
    }
}
pub fn kind_s(k: &Kind) -> &'static str {
    match k {
        Kind::Individual => "individual",
        Kind::Group => "group",
        Kind::Org => "org",
        Kind::Location => "location",
    }
}
pub fn sex_s(k: &Sex) -> &'static str {
    match k {
        Sex::None => "",
        Sex::Male => "M",
        Sex::Female => "F",
        Sex::Other => "O",
        Sex::NotApplicable => "N",
        Sex::Unknown => "U",
    }
}
pub fn gender_x(g: &Gender) -> Value {
    match &g.identity {
        None => ts([sex_s(&g.sex)]),
        Some(i) => ts([sex_s(&g.sex), i.as_str()]),
    }
}
pub fn adr_x(a: &DeliveryAddress) -> Value {
    let f = |o: &Option<String>| o.clone().unwrap_or_default();
    tss([
        f(&a.po_box),
        f(&a.extended_address),
        f(&a.street_address),
        f(&a.locality),
        f(&a.region),
        f(&a.postal_code),
        f(&a.country_name),
    ])
}
pub fn any_x(v: &AnyProperty) -> (&'static str, Value) {
    match v {
        AnyProperty::Text(s) => ("text", ts([s.as_str()])),
        AnyProperty::Integer(v) => ("integer", tss(v.iter().map(|i| i.to_string()))),
        AnyProperty::Float(v) => ("float", tss(v.iter().map(|i| i.to_string()))),
        AnyProperty::Boolean(b) => ("boolean", tss([b.to_string()])),
        AnyProperty::Date(v) => ("date", tss(v.iter().map(|d| date_s(d.as_ref())))),
        AnyProperty::DateTime(v) => ("date-time", tss(v.iter().map(|d| dt_s(d.as_ref())))),
        AnyProperty::Time(v) => ("time", tss(v.iter().map(time_s))),
        AnyProperty::DateAndOrTime(v) => ("dt", tss(v.iter().map(daot_s))),
        AnyProperty::Timestamp(v) => ("timestamp", tss(v.iter().map(|d| dt_s(d.as_ref())))),
        AnyProperty::Uri(u) => ("uri", tss([uri_s(u)])),
        AnyProperty::UtcOffset(o) => ("offset", tss([off_s(o)])),
        AnyProperty::Language(l) => ("lang", tss([l.to_string()])),
    }
}

/// The properties of a card in canonical slot order.
pub fn card(c: &Vcard) -> Value {
    let mut o: Vec<Value> = Vec::new();
    macro_rules! each {
        ($f:ident, $n:expr, $conv:expr) => {
            for p in c.$f.iter() {
                o.push($conv($n, p));
            }
        };
    }
    each!(source, "SOURCE", uri);
    if let Some(p) = &c.kind {
        o.push(prop("KIND", &p.group, None, &p.parameters, "kind", ts([kind_s(&p.value)])));
    }
    each!(xml, "XML", text);
    each!(formatted_name, "FN", text);
    each!(name, "N", list);
    each!(nickname, "NICKNAME", text);
    each!(photo, "PHOTO", texturi);
    each!(bday, "BDAY", dtt);
    each!(anniversary, "ANNIVERSARY", dtt);
    if let Some(p) = &c.gender {
        o.push(prop("GENDER", &p.group, None, &p.parameters, "gender", gender_x(&p.value)));
    }
    each!(url, "URL", uri);
    for p in &c.address {
        o.push(prop("ADR", &p.group, None, &p.parameters, "adr", adr_x(&p.value)));
    }
    each!(title, "TITLE", text);
    each!(role, "ROLE", text);
    each!(logo, "LOGO", uri);
    each!(org, "ORG", list);
    each!(member, "MEMBER", uri);
    each!(related, "RELATED", texturi);
    each!(tel, "TEL", texturi);
    each!(email, "EMAIL", text);
    each!(impp, "IMPP", uri);
    for p in &c.lang {
        o.push(prop("LANG", &p.group, None, &p.parameters, "lang", tss([p.value.to_string()])));
    }
    for p in &c.timezone {
        o.push(match p {
            TimeZoneProperty::Text(p) => text("TZ", p),
            TimeZoneProperty::Uri(p) => uri("TZ", p),
            TimeZoneProperty::UtcOffset(p) => {
                prop("TZ", &p.group, None, &p.parameters, "offset", tss([off_s(&p.value)]))
            }
        });
    }
    each!(geo, "GEO", uri);
    each!(categories, "CATEGORIES", list);
    each!(note, "NOTE", text);
    each!(prod_id, "PRODID", text);
    if let Some(p) = &c.rev {
        o.push(prop("REV", &p.group, None, &p.parameters, "ts", tss([dt_s(p.value.as_ref())])));
    }
    each!(sound, "SOUND", uri);
    each!(uid, "UID", texturi);
    for p in &c.client_pid_map {
        o.push(prop(
            "CLIENTPIDMAP",
            &p.group,
            None,
            &p.parameters,
            "pidmap",
            tss([p.value.source.to_string(), uri_s(&p.value.uri)]),
        ));
    }
    each!(key, "KEY", texturi);
    each!(fburl, "FBURL", uri);
    each!(cal_adr_uri, "CALADRURI", uri);
    each!(cal_uri, "CALURI", uri);
    for p in &c.extensions {
        let (ty, x) = any_x(&p.value);
        o.push(prop("X-", &p.group, Some(p.name.as_str()), &p.parameters, ty, x));
    }
    Value::Array(o)
}
pub fn cards(c: &[Vcard]) -> Value {
    Value::Array(c.iter().map(card).collect())
}

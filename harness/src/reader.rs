//! An independent reading of RFC 5545: content lines, escapes, types. Nothing in here calls the
//! library; the oracles compare what the library says with what this says.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct XParam {
    pub key: String,
    pub val: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct XProp {
    pub name: String,
    pub params: Vec<XParam>,
    pub val: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct XComp {
    pub name: String,
    pub props: Vec<XProp>,
    pub comps: Vec<XComp>,
}

impl XComp {
    pub fn size(&self) -> usize {
        1 + self.props.len() + self.comps.iter().map(XComp::size).sum::<usize>()
    }
}

/// Default value types: RFC 5545 section 3.7 and 3.8, plus the TEXT names the library adds.
pub const TYPE_TABLE: &[(&str, &str)] = &[
    ("CALSCALE", "TEXT"),
    ("METHOD", "TEXT"),
    ("PRODID", "TEXT"),
    ("VERSION", "TEXT"),
    ("ATTACH", "URI"),
    ("CATEGORIES", "TEXT"),
    ("CLASS", "TEXT"),
    ("COMMENT", "TEXT"),
    ("DESCRIPTION", "TEXT"),
    ("GEO", "FLOAT"),
    ("LOCATION", "TEXT"),
    ("PERCENT-COMPLETE", "INTEGER"),
    ("PRIORITY", "INTEGER"),
    ("RESOURCES", "TEXT"),
    ("STATUS", "TEXT"),
    ("SUMMARY", "TEXT"),
    ("COMPLETED", "DATE-TIME"),
    ("DTEND", "DATE-TIME"),
    ("DUE", "DATE-TIME"),
    ("DTSTART", "DATE-TIME"),
    ("DURATION", "DURATION"),
    ("FREEBUSY", "PERIOD"),
    ("TRANSP", "TEXT"),
    ("TZID", "TEXT"),
    ("TZNAME", "TEXT"),
    ("TZOFFSETFROM", "UTC-OFFSET"),
    ("TZOFFSETTO", "UTC-OFFSET"),
    ("TZURL", "URI"),
    ("ATTENDEE", "CAL-ADDRESS"),
    ("CONTACT", "TEXT"),
    ("ORGANIZER", "CAL-ADDRESS"),
    ("RECURRENCE-ID", "DATE-TIME"),
    ("RELATED-TO", "TEXT"),
    ("URL", "URI"),
    ("UID", "TEXT"),
    ("EXDATE", "DATE-TIME"),
    ("RDATE", "DATE-TIME"),
    ("RRULE", "RECUR"),
    ("ACTION", "TEXT"),
    ("REPEAT", "INTEGER"),
    ("TRIGGER", "DURATION"),
    ("CREATED", "DATE-TIME"),
    ("DTSTAMP", "DATE-TIME"),
    ("LAST-MODIFIED", "DATE-TIME"),
    ("SEQUENCE", "INTEGER"),
    ("REQUEST-STATUS", "TEXT"),
    ("NAME", "TEXT"),
    ("X-WR-CALNAME", "TEXT"),
    ("X-WR-CALDESC", "TEXT"),
    ("TIMEZONE-ID", "TEXT"),
    ("X-WR-TIMEZONE", "TEXT"),
    ("STREET-ADDRESS", "TEXT"),
    ("EXTENDED-ADDRESS", "TEXT"),
    ("LOCALITY", "TEXT"),
    ("REGION", "TEXT"),
    ("COUNTRY", "TEXT"),
    ("POSTAL-CODE", "TEXT"),
];

pub const TYPES: &[&str] = &[
    "BINARY",
    "BOOLEAN",
    "CAL-ADDRESS",
    "DATE",
    "DATE-TIME",
    "DURATION",
    "FLOAT",
    "INTEGER",
    "PERIOD",
    "RECUR",
    "TEXT",
    "TIME",
    "URI",
    "UTC-OFFSET",
];

pub fn type_of(name: &str, value_param: Option<&str>) -> Option<&'static str> {
    if let Some(v) = value_param {
        if let Some(t) = TYPES.iter().find(|t| **t == v) {
            return Some(t);
        }
    }
    TYPE_TABLE.iter().find(|(n, _)| *n == name).map(|(_, t)| *t)
}

pub fn is_text(name: &str, value_param: Option<&str>) -> bool {
    type_of(name, value_param) == Some("TEXT")
}

/// One left-to-right pass.
pub fn decode_text(s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\\' && i + 1 < cs.len() {
            match cs[i + 1] {
                'n' | 'N' => {
                    out.push('\n');
                    i += 2;
                    continue;
                }
                c @ ('\\' | ',' | ';' | ':') => {
                    out.push(c);
                    i += 2;
                    continue;
                }
                _ => {}
            }
        }
        out.push(cs[i]);
        i += 1;
    }
    out
}

/// What a TEXT value has to look like on the line: no separator without a backslash, no line feed.
pub fn properly_escaped(raw: &str) -> bool {
    let mut cs = raw.chars();
    while let Some(c) = cs.next() {
        match c {
            '\\' => match cs.next() {
                Some('\\' | ',' | ';' | 'n' | 'N') => {}
                _ => return false,
            },
            ',' | ';' | '\n' => return false,
            _ => {}
        }
    }
    true
}

/// Reference for `unfold`.
pub fn ref_unfold(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let ws = |k: usize| k < b.len() && (b[k] == ' ' || b[k] == '\t');
        if b[i] == '\r' && i + 1 < b.len() && b[i + 1] == '\n' && ws(i + 2) {
            i += 3;
            continue;
        }
        if b[i] == '\n' && ws(i + 1) {
            i += 2;
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

/// Physical lines of serialized output, checked for form.
pub fn physical_lines(text: &str) -> Result<Vec<&str>, String> {
    if !text.ends_with("\r\n") {
        return Err("output does not end with CRLF".into());
    }
    let body = &text[..text.len() - 2];
    let mut lines = vec![];
    for l in body.split("\r\n") {
        if l.contains('\n') {
            return Err(format!("bare line feed in the output line {l:?}"));
        }
        if l.len() > 75 {
            return Err(format!("line of {} octets: {l:?}", l.len()));
        }
        lines.push(l);
    }
    Ok(lines)
}

/// Logical lines: continuation lines begin with one space or tab.
pub fn logical_lines(text: &str) -> Result<Vec<String>, String> {
    let mut out: Vec<String> = vec![];
    for l in physical_lines(text)? {
        if let Some(rest) = l.strip_prefix(' ').or_else(|| l.strip_prefix('\t')) {
            match out.last_mut() {
                Some(last) => last.push_str(rest),
                None => return Err("output begins with a continuation line".into()),
            }
        } else if l.is_empty() {
            return Err("empty line in the output".into());
        } else {
            out.push(l.to_string());
        }
    }
    Ok(out)
}

pub fn is_name(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-')
}

/// A strict RFC 5545 content line: name, parameters (value as meant), raw value.
pub fn content_line(line: &str) -> Result<(String, Vec<XParam>, String), String> {
    let name_end = line.find([';', ':']).ok_or_else(|| format!("content line without a colon: {line:?}"))?;
    let name = &line[..name_end];
    if !is_name(name) {
        return Err(format!("bad name {name:?} in {line:?}"));
    }
    let mut rest = &line[name_end..];
    let mut params = vec![];
    while let Some(r) = rest.strip_prefix(';') {
        let eq = r.find(['=', ';', ':']).ok_or_else(|| format!("bad parameter in {line:?}"))?;
        let key = &r[..eq];
        if !is_name(key) {
            return Err(format!("bad parameter name {key:?} in {line:?}"));
        }
        if !r[eq..].starts_with('=') {
            params.push(XParam { key: key.into(), val: None });
            rest = &r[eq..];
            continue;
        }
        let mut r = &r[eq + 1..];
        let mut members: Vec<(bool, String)> = vec![];
        loop {
            if let Some(q) = r.strip_prefix('"') {
                let end = q.find('"').ok_or_else(|| format!("quote that is never closed in {line:?}"))?;
                members.push((true, q[..end].to_string()));
                r = &q[end + 1..];
            } else {
                let end = r.find([',', ';', ':', '"']).unwrap_or(r.len());
                members.push((false, r[..end].to_string()));
                r = &r[end..];
            }
            if let Some(n) = r.strip_prefix(',') {
                r = n;
            } else {
                break;
            }
        }
        if !(r.starts_with(';') || r.starts_with(':')) {
            return Err(format!("parameter value ends in the middle of {line:?}"));
        }
        let val = if members.len() == 1 {
            members[0].1.clone()
        } else {
            members.iter().map(|(q, v)| if *q { format!("\"{v}\"") } else { v.clone() }).collect::<Vec<_>>().join(",")
        };
        params.push(XParam { key: key.into(), val: if val.is_empty() { None } else { Some(val) } });
        rest = r;
    }
    let value = rest.strip_prefix(':').ok_or_else(|| format!("content line without a value: {line:?}"))?;
    Ok((name.into(), params, value.into()))
}

/// Strict tree of an output; the values are raw if `raw`, otherwise TEXT is decoded.
pub fn tree(text: &str, raw: bool) -> Result<Vec<XComp>, String> {
    tree_of_lines(&logical_lines(text)?, raw)
}

pub fn xprop(line: &str, raw: bool) -> Result<XProp, String> {
    let (name, params, value) = content_line(line)?;
    let vp = params.iter().find(|p| p.key == "VALUE").and_then(|p| p.val.clone());
    let val = if !raw && is_text(&name, vp.as_deref()) { decode_text(&value) } else { value };
    Ok(XProp { name, params, val })
}

pub fn tree_of_lines(lines: &[String], raw: bool) -> Result<Vec<XComp>, String> {
    let mut roots = vec![];
    let mut stack: Vec<XComp> = vec![];
    for l in lines {
        if let Some(name) = l.strip_prefix("BEGIN:") {
            stack.push(XComp { name: name.into(), props: vec![], comps: vec![] });
        } else if let Some(name) = l.strip_prefix("END:") {
            let c = stack.pop().ok_or_else(|| format!("{l:?} without a BEGIN"))?;
            if c.name != name {
                return Err(format!("BEGIN:{} is closed by {l:?}", c.name));
            }
            match stack.last_mut() {
                Some(p) => p.comps.push(c),
                None => roots.push(c),
            }
        } else {
            let p = xprop(l, raw)?;
            match stack.last_mut() {
                Some(c) => c.props.push(p),
                None => return Err(format!("property outside of a component: {l:?}")),
            }
        }
    }
    if let Some(c) = stack.last() {
        return Err(format!("BEGIN:{} is never closed", c.name));
    }
    Ok(roots)
}

// ------------------------------------------------------------- structure of arbitrary input

pub enum Structure {
    /// outside of the contract of C08
    NotApplicable,
    /// why, how many root components were complete before that, and in which line (counted from 1) it shows: none if
    /// it takes the end of the text
    Malformed(String, usize, Option<usize>),
    WellFormed(Vec<XComp>),
}

fn doc_name(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || matches!(c, '-' | '_' | '.' | ',' | '/'))
}

/// Reads an (unfolded) document line by line. Lines whose form the contract does not settle
/// make the whole document not applicable.
pub fn structure(text: &str) -> Structure {
    let mut lines = vec![];
    for (i, l) in text.split('\n').enumerate() {
        let l = l.strip_suffix('\r').unwrap_or(l);
        if !l.is_empty() {
            lines.push((i + 1, l));
        }
    }
    let Some((_, first)) = lines.first() else {
        return Structure::NotApplicable;
    };
    match first.strip_prefix("BEGIN:") {
        Some(n) if n.chars().next().is_some_and(|c| doc_name(&c.to_string())) => {}
        _ => return Structure::NotApplicable,
    }
    let mut roots: Vec<XComp> = vec![];
    let mut stack: Vec<XComp> = vec![];
    for (at, l) in lines {
        if l.starts_with([' ', '\t']) || l.contains('\r') {
            return Structure::NotApplicable;
        }
        if (l.starts_with("BEGIN:") || l.starts_with("END:")) && l.ends_with([' ', '\t']) {
            return Structure::NotApplicable;
        }
        if let Some(name) = l.strip_prefix("BEGIN:") {
            if !doc_name(name) {
                return Structure::Malformed(format!("bad component name in {l:?}"), roots.len(), Some(at));
            }
            stack.push(XComp { name: name.into(), props: vec![], comps: vec![] });
            continue;
        }
        if let Some(name) = l.strip_prefix("END:") {
            let Some(c) = stack.pop() else {
                return Structure::Malformed(format!("{l:?} without a BEGIN"), roots.len(), Some(at));
            };
            if c.name != name {
                if c.name.eq_ignore_ascii_case(name) {
                    return Structure::NotApplicable;
                }
                return Structure::Malformed(format!("BEGIN:{} is closed by {l:?}", c.name), roots.len(), Some(at));
            }
            match stack.last_mut() {
                Some(p) => p.comps.push(c),
                None => roots.push(c),
            }
            continue;
        }
        let lower = l.to_ascii_lowercase();
        if lower.starts_with("begin:") || lower.starts_with("end:") {
            return Structure::NotApplicable;
        }
        let prop = if !l.contains(':') {
            if l.ends_with([' ', '\t']) {
                return Structure::NotApplicable;
            }
            if !doc_name(l) {
                return Structure::Malformed(format!("no colon and not a bare name: {l:?}"), roots.len(), Some(at));
            }
            if l == "BEGIN" || l == "END" {
                return Structure::Malformed(format!("delimiter without a name: {l:?}"), roots.len(), Some(at));
            }
            XProp { name: l.into(), params: vec![], val: String::new() }
        } else {
            match lenient_line(l) {
                Ok(p) => p,
                Err(true) => {
                    return Structure::Malformed(format!("no colon outside of quotes: {l:?}"), roots.len(), Some(at))
                }
                Err(false) => return Structure::NotApplicable,
            }
        };
        match stack.last_mut() {
            Some(c) => c.props.push(prop),
            None => {
                return Structure::Malformed(
                    format!("content line outside of a component: {l:?}"),
                    roots.len(),
                    Some(at),
                )
            }
        }
    }
    if let Some(c) = stack.last() {
        return Structure::Malformed(format!("BEGIN:{} is never closed", c.name), roots.len(), None);
    }
    Structure::WellFormed(roots)
}

/// Err(true): certainly malformed, Err(false): the contract says nothing about it
fn lenient_line(l: &str) -> Result<XProp, bool> {
    // only lines that a strict reader understands, too, are judged
    let mut quoted = false;
    let mut before = ' ';
    let mut chars = l.chars().peekable();
    let mut has_colon = false;
    while let Some(c) = chars.next() {
        match c {
            '"' if quoted => {
                quoted = false;
                // a quoted member ends with its quote
                if !matches!(chars.peek(), None | Some(',' | ';' | ':')) {
                    return Err(false);
                }
            }
            '"' if before == '=' || before == ',' => quoted = true,
            // a quote within a value that is not quoted
            '"' => return Err(false),
            ':' if !quoted => {
                has_colon = true;
                break;
            }
            _ => {}
        }
        before = c;
    }
    if !has_colon {
        return Err(!quoted);
    }
    let name_end = l.find([';', ':']).ok_or(true)?;
    let name = &l[..name_end];
    if !doc_name(name) || name == "BEGIN" || name == "END" {
        return Err(false);
    }
    // borrow the strict reader for the parameters
    let probe = format!("X{}", &l[name_end..]);
    match content_line(&probe) {
        Ok((_, params, value)) => {
            let vp = params.iter().find(|p| p.key == "VALUE").and_then(|p| p.val.clone());
            let val = if is_text(name, vp.as_deref()) { decode_text(&value) } else { value };
            Ok(XProp { name: name.into(), params, val })
        }
        Err(_) => Err(false),
    }
}

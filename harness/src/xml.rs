//! Independent, strict, namespace-aware XML 1.0 parser (no DTD). Written from the XML
//! recommendation; shares no code with the crate under test.
use std::collections::HashSet;

#[derive(Debug, Clone, Default)]
pub struct El {
    pub pfx: String,
    pub name: String,
    pub ns: String,
    pub attrs: Vec<Attr>,
    pub kids: Vec<Node>,
}
#[derive(Debug, Clone)]
pub struct Attr {
    pub pfx: String,
    pub name: String,
    pub ns: String,
    pub val: String,
}
#[derive(Debug, Clone)]
pub enum Node {
    El(El),
    Text(String),
}

impl El {
    pub fn attr(&self, name: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.name == name && a.ns.is_empty()).map(|a| a.val.as_str())
    }
    pub fn attr_ns(&self, ns: &str, name: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.name == name && a.ns == ns).map(|a| a.val.as_str())
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| if let Node::El(e) = k { Some(e) } else { None })
    }
    pub fn child(&self, name: &str) -> Option<&El> {
        self.els().find(|e| e.name == name)
    }
    pub fn all<'a>(&'a self, name: &str) -> Vec<&'a El> {
        let mut v = vec![];
        self.walk(&mut |e| {
            if e.name == name {
                v.push(e)
            }
        });
        v
    }
    pub fn find<'a>(&'a self, name: &str) -> Option<&'a El> {
        self.all(name).into_iter().next()
    }
    pub fn path<'a>(&'a self, names: &[&str]) -> Option<&'a El> {
        let mut e = self;
        for n in names {
            e = e.child(n)?;
        }
        Some(e)
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a El)) {
        f(self);
        for e in self.els() {
            e.walk(f);
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.text_into(&mut s);
        s
    }
    fn text_into(&self, s: &mut String) {
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(t),
                Node::El(e) => e.text_into(s),
            }
        }
    }
    /// canonical serialisation for comparisons
    pub fn canon(&self) -> String {
        let mut s = String::new();
        self.canon_into(&mut s);
        s
    }
    fn canon_into(&self, s: &mut String) {
        s.push('<');
        s.push_str(&format!("{{{}}}{}", self.ns, self.name));
        let mut a: Vec<_> = self.attrs.iter().map(|a| format!(" {{{}}}{}={:?}", a.ns, a.name, a.val)).collect();
        a.sort();
        for x in a {
            s.push_str(&x);
        }
        s.push('>');
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(&format!("{:?}", t)),
                Node::El(e) => e.canon_into(s),
            }
        }
        s.push_str("</>");
    }
}

pub fn is_xml_char(c: char) -> bool {
    matches!(c as u32, 0x9 | 0xA | 0xD | 0x20..=0xD7FF | 0xE000..=0xFFFD | 0x10000..=0x10FFFF)
}
fn is_name_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || (c as u32) >= 0xC0 && c != '\u{D7}' && c != '\u{F7}'
}
fn is_name_char(c: char) -> bool {
    is_name_start(c) || c.is_ascii_digit() || c == '-' || c == '.' || c == '\u{B7}'
}

struct P<'a> {
    s: &'a str,
    i: usize,
}
type R<T> = Result<T, String>;
impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        let a = self.s[..self.i].char_indices().rev().nth(60).map(|x| x.0).unwrap_or(0);
        let b = self.s[self.i..].char_indices().nth(60).map(|x| self.i + x.0).unwrap_or(self.s.len());
        Err(format!("{} at byte {}: …{}⟪here⟫{}…", m, self.i, &self.s[a..self.i], &self.s[self.i..b]))
    }
    fn peek(&self) -> Option<char> {
        self.s[self.i..].chars().next()
    }
    fn starts(&self, t: &str) -> bool {
        self.s[self.i..].starts_with(t)
    }
    fn ws(&mut self) -> bool {
        let st = self.i;
        while let Some(c) = self.peek() {
            if matches!(c, ' ' | '\t' | '\n' | '\r') {
                self.i += 1
            } else {
                break;
            }
        }
        self.i > st
    }
    fn name(&mut self) -> R<(String, String)> {
        let st = self.i;
        match self.peek() {
            Some(c) if is_name_start(c) => self.i += c.len_utf8(),
            _ => return self.err("expected a name"),
        }
        while let Some(c) = self.peek() {
            if is_name_char(c) || c == ':' {
                self.i += c.len_utf8()
            } else {
                break;
            }
        }
        let q = &self.s[st..self.i];
        let parts: Vec<_> = q.split(':').collect();
        match parts.len() {
            1 => Ok((String::new(), q.to_string())),
            2 if !parts[0].is_empty() && !parts[1].is_empty() && is_name_start(parts[1].chars().next().unwrap()) => Ok((parts[0].into(), parts[1].into())),
            _ => self.err("bad qualified name"),
        }
    }
    fn reference(&mut self) -> R<char> {
        // at '&'
        let end = match self.s[self.i..].find(';') {
            Some(e) if e <= 12 => self.i + e,
            _ => return self.err("unterminated entity reference"),
        };
        let ent = &self.s[self.i + 1..end];
        let c = match ent {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = ent.strip_prefix("#x") {
                    if h.is_empty() || !h.chars().all(|c| c.is_ascii_hexdigit()) {
                        return self.err("bad char ref");
                    }
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = ent.strip_prefix('#') {
                    if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit()) {
                        return self.err("bad char ref");
                    }
                    d.parse().ok()
                } else {
                    return self.err("undefined entity");
                };
                match n.and_then(char::from_u32) {
                    Some(c) if is_xml_char(c) => c,
                    _ => return self.err("char ref to illegal character"),
                }
            }
        };
        self.i = end + 1;
        Ok(c)
    }
    fn comment(&mut self) -> R<()> {
        let rest = &self.s[self.i + 4..];
        match rest.find("--") {
            Some(k) if rest[k..].starts_with("-->") => {
                self.i += 4 + k + 3;
                Ok(())
            }
            _ => self.err("bad comment"),
        }
    }
    fn pi(&mut self) -> R<()> {
        let st = self.i;
        self.i += 2;
        let (_, n) = self.name()?;
        if n.eq_ignore_ascii_case("xml") {
            self.i = st;
            return self.err("XML declaration not at the start");
        }
        match self.s[self.i..].find("?>") {
            Some(k) => {
                self.i += k + 2;
                Ok(())
            }
            None => self.err("unterminated PI"),
        }
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.starts("<!--") {
                self.comment()?
            } else if self.starts("<?") {
                self.pi()?
            } else {
                return Ok(());
            }
        }
    }
    fn element(&mut self, scope: &mut Vec<(String, String)>, depth: usize) -> R<El> {
        if depth > 200 {
            return self.err("nesting deeper than 200");
        }
        if self.peek() != Some('<') {
            return self.err("expected an element");
        }
        self.i += 1;
        let (pfx, name) = self.name()?;
        let base = scope.len();
        let mut raw: Vec<(String, String, String)> = vec![];
        let mut seen = HashSet::new();
        let empty;
        loop {
            let sp = self.ws();
            if self.starts("/>") {
                self.i += 2;
                empty = true;
                break;
            }
            if self.starts(">") {
                self.i += 1;
                empty = false;
                break;
            }
            if !sp {
                return self.err("expected whitespace before attribute");
            }
            let (ap, an) = self.name()?;
            self.ws();
            if self.peek() != Some('=') {
                return self.err("expected =");
            }
            self.i += 1;
            self.ws();
            let q = match self.peek() {
                Some(c @ ('"' | '\'')) => c,
                _ => return self.err("expected quote"),
            };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.peek() {
                    None => return self.err("eof in attribute"),
                    Some(c) if c == q => {
                        self.i += 1;
                        break;
                    }
                    Some('<') => return self.err("< in attribute value"),
                    Some('&') => v.push(self.reference()?),
                    Some('\r') if self.starts("\r\n") => self.i += 1,
                    Some(c) if is_xml_char(c) => {
                        v.push(if matches!(c, '\n' | '\t' | '\r') { ' ' } else { c });
                        self.i += c.len_utf8();
                    }
                    Some(_) => return self.err("illegal character in attribute"),
                }
            }
            if !seen.insert((ap.clone(), an.clone())) {
                return self.err(&format!("duplicate attribute {ap}:{an}"));
            }
            if ap == "xmlns" {
                if v.is_empty() {
                    return self.err("empty prefixed namespace");
                }
                scope.push((an, v));
            } else if ap.is_empty() && an == "xmlns" {
                scope.push((String::new(), v));
            } else {
                raw.push((ap, an, v));
            }
        }
        let look = |p: &str| -> Option<String> {
            if p == "xml" {
                return Some("http://www.w3.org/XML/1998/namespace".into());
            }
            scope.iter().rev().find(|x| x.0 == p).map(|x| x.1.clone())
        };
        let ns = match look(&pfx) {
            Some(n) => n,
            None if pfx.is_empty() => String::new(),
            None => return self.err(&format!("unbound prefix {pfx}")),
        };
        let mut attrs = vec![];
        for (ap, an, v) in raw {
            let ns = if ap.is_empty() {
                String::new()
            } else {
                match look(&ap) {
                    Some(n) => n,
                    None => return self.err(&format!("unbound attribute prefix {ap}")),
                }
            };
            if !ns.is_empty() && attrs.iter().any(|a: &Attr| a.ns == ns && a.name == an) {
                return self.err("duplicate namespaced attribute");
            }
            attrs.push(Attr { pfx: ap, name: an, ns, val: v });
        }
        if name == "Choice" && ns.ends_with("markup-compatibility/2006") {
            if let Some(a) = attrs.iter().find(|a| a.name == "Requires") {
                for q in a.val.split_whitespace() {
                    if look(q).is_none() {
                        return self.err(&format!("mc:Choice requires unbound prefix {q}"));
                    }
                }
            }
        }
        let mut el = El { pfx: pfx.clone(), name: name.clone(), ns, attrs, kids: vec![] };
        if !empty {
            let mut text = String::new();
            loop {
                if self.starts("</") {
                    self.i += 2;
                    let (p2, n2) = self.name()?;
                    if p2 != pfx || n2 != name {
                        return self.err(&format!("end tag {p2}:{n2} does not match {pfx}:{name}"));
                    }
                    self.ws();
                    if self.peek() != Some('>') {
                        return self.err("expected >");
                    }
                    self.i += 1;
                    break;
                }
                if self.starts("<!--") {
                    self.comment()?;
                    continue;
                }
                if self.starts("<![CDATA[") {
                    let rest = &self.s[self.i + 9..];
                    match rest.find("]]>") {
                        Some(k) => {
                            if let Some(c) = rest[..k].chars().find(|c| !is_xml_char(*c)) {
                                return self.err(&format!("illegal char {:?} in CDATA", c));
                            }
                            text.push_str(&rest[..k]);
                            self.i += 9 + k + 3;
                        }
                        None => return self.err("unterminated CDATA"),
                    }
                    continue;
                }
                if self.starts("<?") {
                    self.pi()?;
                    continue;
                }
                match self.peek() {
                    None => return self.err("eof in element"),
                    Some('<') => {
                        if !text.is_empty() {
                            el.kids.push(Node::Text(std::mem::take(&mut text)));
                        }
                        let k = self.element(scope, depth + 1)?;
                        el.kids.push(Node::El(k));
                    }
                    Some('&') => text.push(self.reference()?),
                    Some('\r') => {
                        self.i += 1;
                        if self.peek() == Some('\n') {
                            self.i += 1;
                        }
                        text.push('\n');
                    }
                    Some(c) if is_xml_char(c) => {
                        if c == ']' && self.starts("]]>") {
                            return self.err("]]> in text");
                        }
                        text.push(c);
                        self.i += c.len_utf8();
                    }
                    Some(_) => return self.err("illegal character in text"),
                }
            }
            if !text.is_empty() {
                el.kids.push(Node::Text(text));
            }
        }
        scope.truncate(base);
        Ok(el)
    }
}

pub fn parse(s: &str) -> Result<El, String> {
    let s = s.strip_prefix('\u{feff}').unwrap_or(s);
    let mut p = P { s, i: 0 };
    if p.starts("<?xml") {
        let end = match s.find("?>") {
            Some(e) => e,
            None => return p.err("unterminated XML declaration"),
        };
        let d = &s[5..end];
        if !d.contains("version=\"1.0\"") && !d.contains("version='1.0'") {
            return p.err("bad XML declaration");
        }
        p.i = end + 2;
    }
    p.misc()?;
    let mut scope = vec![];
    let e = p.element(&mut scope, 0)?;
    p.misc()?;
    if p.i != s.len() {
        return p.err("content after the root element");
    }
    Ok(e)
}

pub fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&apos;")
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn basics() {
        assert!(parse("<a/>").is_ok());
        assert!(parse("<?xml version=\"1.0\"?>\n<a b='1'><c>x &lt; y</c></a>\n").is_ok());
        for bad in ["<a>", "<a></b>", "<a b=1/>", "<a b='1' b='2'/>", "<a>&foo;</a>", "<a>\u{1}</a>", "<x:a/>", "<a/><b/>", "a<a/>", "<a b='<'/>", "<a>]]></a>", "", " <?xml version=\"1.0\"?><a/>", "<a b='1'c='2'/>", "<a>&#0;</a>"] {
            assert!(parse(bad).is_err(), "{bad:?}");
        }
    }
}

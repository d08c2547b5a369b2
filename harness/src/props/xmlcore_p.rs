//! C26: the XML layer reads and writes documents as the XML standard says.
use crate::engine::*;
use crate::gen;
use crate::xml::{self, El, Node};
use ppt_rs::core::{append_escape_xml, escape_xml, XmlWriter};
use ppt_rs::oxml::{XmlElement, XmlParser};

const NAMES: &[&str] = &["a", "b", "t", "sp", "pic", "txBody", "x1", "_u", "n-m", "k.l", "é", "sldId", "rPr"];
const PFX: &[&str] = &["p", "a", "r", "mc", "x1", "_z"];
const URIS: &[&str] = &[
    "http://schemas.openxmlformats.org/presentationml/2006/main",
    "http://schemas.openxmlformats.org/drawingml/2006/main",
    "urn:x",
    "urn:y?a=1&b=2",
    "http://schemas.openxmlformats.org/officeDocument/2006/relationships",
];

/// Character data in source form.
fn chars(s: &mut Src, out: &mut String) {
    for _ in 0..s.len(0, 5) {
        match s.below(9) {
            0 => out.push_str(*s.pick(&["&amp;", "&lt;", "&gt;", "&quot;", "&apos;"])),
            1 => {
                let c = match s.below(4) {
                    0 => *s.pick(&['\t', '\n', ' ']),
                    _ => gen::ch(s),
                };
                if s.bool() {
                    out.push_str(&format!("&#{};", c as u32));
                } else if s.bool() {
                    out.push_str(&format!("&#x{:x};", c as u32));
                } else {
                    out.push_str(&format!("&#x{:04X};", c as u32));
                }
            }
            2 => out.push_str(*s.pick(&[" ", "\n", "\n  ", "\t", "\r\n", "  "])),
            3 => out.push_str(*s.pick(&["]]", "]", "--", "'", "\"", "=", "/", "?", ";", "#", "amp;"])),
            _ => {
                let w = gen::word(s);
                out.push_str(&w)
            }
        }
    }
}
fn misc(s: &mut Src) -> String {
    match s.below(4) {
        0 => "<!-- a <b> & c -->".into(),
        1 => "<!---->".into(),
        2 => "<?pi some=\"<data>\" ?>".into(),
        _ => "<!-- x - y -->".into(),
    }
}
struct Scope(Vec<(String, String)>);
impl Scope {
    fn bound(&self) -> Vec<(String, String)> {
        // innermost binding of each prefix
        let mut seen: Vec<(String, String)> = vec![];
        for (p, u) in self.0.iter().rev() {
            if !seen.iter().any(|x| x.0 == *p) {
                seen.push((p.clone(), u.clone()));
            }
        }
        seen
    }
}
fn space(s: &mut Src) -> String {
    if s.chance(85) { " ".into() } else { s.pick(&["\n", "  ", "\t", "\r\n "]).to_string() }
}
fn element(s: &mut Src, scope: &mut Scope, depth: usize, out: &mut String, count: &mut usize) {
    *count += 1;
    let mark = scope.0.len();
    let mut decls: Vec<(String, String)> = vec![];
    for _ in 0..if depth == 0 { s.len(0, 3) } else if s.chance(15) { 1 } else { 0 } {
        let p = if s.chance(25) { String::new() } else { s.pick(PFX).to_string() };
        if decls.iter().any(|d| d.0 == p) {
            continue;
        }
        let u = if p.is_empty() && s.chance(20) { String::new() } else { s.pick(URIS).to_string() };
        decls.push((p.clone(), u.clone()));
    }
    scope.0.extend(decls.clone());
    let bound: Vec<_> = scope.bound();
    let prefixed: Vec<_> = bound.iter().filter(|b| !b.0.is_empty()).cloned().collect();
    let qname = |s: &mut Src| {
        let n = *s.pick(NAMES);
        if !prefixed.is_empty() && s.chance(60) {
            (format!("{}:{n}", s.pick(&prefixed).0), n)
        } else {
            (n.to_string(), n)
        }
    };
    let (tag, _) = qname(s);
    out.push('<');
    out.push_str(&tag);
    // attributes, no two with the same expanded name
    let mut attrs: Vec<(String, String)> = decls.iter().map(|(p, u)| (if p.is_empty() { "xmlns".to_string() } else { format!("xmlns:{p}") }, xml::esc(u))).collect();
    let mut seen: Vec<(String, String)> = vec![];
    for _ in 0..s.len(0, 4) {
        let (q, n) = qname(s);
        let uri = match q.split_once(':') {
            Some((p, _)) => prefixed.iter().find(|b| b.0 == p).unwrap().1.clone(),
            None => String::new(),
        };
        if seen.contains(&(uri.clone(), n.to_string())) {
            continue;
        }
        seen.push((uri, n.to_string()));
        let mut v = String::new();
        chars(s, &mut v);
        attrs.push((q, v));
    }
    if s.chance(5) {
        attrs.push(("xml:space".into(), "preserve".into()));
    }
    if attrs.len() > 1 && s.bool() {
        let k = s.usize(attrs.len());
        attrs.rotate_left(k);
    }
    for (k, v) in attrs {
        out.push_str(&space(s));
        out.push_str(&k);
        out.push_str(if s.chance(95) { "=" } else { " = " });
        if s.chance(80) {
            out.push_str(&format!("\"{}\"", v.replace('"', "&quot;")));
        } else {
            out.push_str(&format!("'{}'", v.replace('\'', "&apos;")));
        }
    }
    let kids = if depth > 6 { 0 } else { s.len(0, 4) };
    if kids == 0 && s.bool() {
        out.push_str(if s.chance(80) { "/>" } else { " />" });
    } else {
        out.push('>');
        for _ in 0..kids {
            match s.below(12) {
                0..=4 => element(s, scope, depth + 1, out, count),
                5 => {
                    out.push_str("<![CDATA[");
                    out.push_str(*s.pick(&["", "a < b & c", "<b>&amp;</b>", "]]", "x]", " "]));
                    out.push_str("]]>");
                }
                6 => {
                    let m = misc(s);
                    out.push_str(&m)
                }
                7 | 8 => out.push_str(*s.pick(&["\n", "\n    ", " ", "\r\n", "\t"])),
                _ => chars(s, out),
            }
        }
        out.push_str(&format!("</{tag}"));
        out.push_str(if s.chance(92) { ">" } else { " >" });
    }
    scope.0.truncate(mark);
}
fn document(s: &mut Src) -> (String, usize) {
    let mut out = String::new();
    if s.chance(60) {
        out.push_str(*s.pick(&["<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='utf-8'?>"]));
        out.push_str(*s.pick(&["", "\n", "\r\n"]));
    }
    if s.chance(15) {
        let m = misc(s);
        out.push_str(&m);
        out.push('\n');
    }
    let mut n = 0;
    element(s, &mut Scope(vec![]), 0, &mut out, &mut n);
    if s.chance(15) {
        out.push('\n');
        let m = misc(s);
        out.push_str(&m);
    }
    (out, n)
}

fn own_text(e: &El) -> String {
    e.kids.iter().filter_map(|k| if let Node::Text(t) = k { Some(t.as_str()) } else { None }).collect()
}
fn qn(p: &str, n: &str) -> String {
    if p.is_empty() { n.to_string() } else { format!("{p}:{n}") }
}
/// Line ends count as one newline, whether written `\r\n` or `\n`.
fn lf(t: &str) -> String {
    t.replace("\r\n", "\n").replace('\r', "\n")
}
/// Blank characters of attributes all count alike.
fn ws(t: &str) -> String {
    lf(t).replace(['\n', '\t'], " ")
}
fn same(want: &El, got: &XmlElement, at: &str) -> Res {
    let at = format!("{at}/{}", want.name);
    ensure!(got.tag == qn(&want.pfx, &want.name), "{at}: the tag is {:?}", got.tag);
    ensure!(got.local_name == want.name && got.is(&want.name), "{at}: the local name is {:?}", got.local_name);
    ensure!(got.namespace.as_deref().unwrap_or("") == want.ns, "{at}: the namespace is {:?}, the document says {:?}", got.namespace, want.ns);
    ensure!(got.attributes.len() == want.attrs.len(), "{at}: attributes {:?} for {:?}", got.attributes, want.attrs);
    for a in &want.attrs {
        let k = qn(&a.pfx, &a.name);
        ensure!(got.attr(&k).map(ws) == Some(ws(&a.val)), "{at}: attribute {k} is {:?}, the document says {:?}", got.attr(&k), a.val);
    }
    let t = lf(&own_text(want));
    let text = lf(&got.text);
    let kids: Vec<&El> = want.els().collect();
    // indentation between elements may be left out
    if kids.is_empty() || !t.trim().is_empty() {
        ensure!(text == t, "{at}: the text is {:?}, the document says {:?}", got.text, t);
    } else {
        ensure!(got.text.is_empty() || text == t, "{at}: the text is {:?}, the document says {:?}", got.text, t);
    }
    ensure!(got.children.len() == kids.len(), "{at}: {} children, the document has {}", got.children.len(), kids.len());
    for (w, g) in kids.iter().zip(&got.children) {
        same(w, g, &at)?;
    }
    Ok(())
}
/// Searching, for a name, below one pair of elements.
fn search(want: &El, got: &XmlElement, name: &str) -> Res {
    let below: Vec<&El> = want.els().flat_map(|k| k.all(name)).collect();
    let direct: Vec<&El> = want.els().filter(|k| k.name == name).collect();
    let d = got.find_all_descendants(name);
    ensure!(d.len() == below.len(), "{} elements {name:?} found below, the document has {}", d.len(), below.len());
    for (w, g) in below.iter().zip(&d) {
        same(w, g, "found")?;
    }
    let a = got.find_all(name);
    ensure!(a.len() == direct.len(), "{} children {name:?} found, the document has {}", a.len(), direct.len());
    for (w, g) in direct.iter().zip(&a) {
        same(w, g, "child")?;
    }
    match (got.find(name), direct.first()) {
        (None, None) => {}
        (Some(g), Some(w)) => same(w, g, "first child")?,
        (g, _) => return fail(format!("find({name:?}) gives {:?}", g.map(|x| &x.tag))),
    }
    match (got.find_descendant(name), below.first()) {
        (None, None) => {}
        (Some(g), Some(w)) => same(w, g, "first descendant")?,
        (g, _) => return fail(format!("find_descendant({name:?}) gives {:?}", g.map(|x| &x.tag))),
    }
    Ok(())
}

fn parse(c: &mut Ctx) -> Res {
    let (doc, n) = document(&mut c.s);
    c.note(|| doc.clone());
    c.nontrivial(n > 2);
    let want = xml::parse(&doc).map_err(|e| Fail { msg: format!("harness: own parser refuses its document: {e}: {doc:?}") })?;
    let got = guard(|| XmlParser::parse_str(&doc))?.map_err(|e| Fail { msg: format!("a well-formed document is refused: {e}") })?;
    same(&want, &got, "")?;
    guard(|| ppt_rs::core::validate_well_formed_xml(&doc))?.map_err(|e| Fail { msg: format!("the well-formedness check refuses a well-formed document: {e}") })?;
    // a reader handing out the bytes in small pieces gives the same tree
    struct Drip<'a>(&'a [u8], usize);
    impl std::io::Read for Drip<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let n = self.1.min(b.len()).min(self.0.len());
            b[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    let step = 1 + c.s.usize(9);
    let got2 = guard(|| XmlParser::parse(Drip(doc.as_bytes(), step)))?.map_err(|e| Fail { msg: format!("read in pieces of {step} bytes, a well-formed document is refused: {e}") })?;
    same(&want, &got2, "")?;
    for _ in 0..3 {
        let name = *c.s.pick(NAMES);
        search(&want, &got, name)?;
        if let (Some(w), Some(g)) = (want.els().next(), got.children.first()) {
            search(w, g, name)?;
        }
    }
    // text of a tree in which no element mixes text with elements
    fn mixed(e: &El) -> bool {
        (e.els().next().is_some() && !own_text(e).is_empty()) || e.els().any(mixed)
    }
    if !mixed(&want) {
        c.label("no mixed content");
        ensure!(lf(&got.text_content()) == lf(&want.text()), "text_content is {:?}, the document says {:?}", got.text_content(), want.text());
    } else {
        // whatever the order, no text may be lost or invented
        let strip = |t: &str| {
            let mut v: Vec<char> = t.chars().filter(|c| !c.is_whitespace()).collect();
            v.sort();
            v
        };
        ensure!(strip(&got.text_content()) == strip(&want.text()), "text_content is {:?}, the document says {:?}", got.text_content(), want.text());
    }
    Ok(())
}

fn malformed(c: &mut Ctx) -> Res {
    let (doc, _) = document(&mut c.s);
    let root = xml::parse(&doc).map_err(|e| Fail { msg: format!("harness: {e}") })?;
    let name = qn(&root.pfx, &root.name);
    let kind = c.s.below(16);
    let inner = |x: &str| format!("<r>{doc_}{x}</r>", doc_ = &doc[doc.find(&format!("<{name}")).unwrap()..]);
    let (what, bad) = match kind {
        0 => ("two roots", format!("{doc}<b/>")),
        1 => ("text after the root", format!("{doc}x")),
        2 => ("text before the root", format!("x{}", &doc[doc.find(&format!("<{name}")).unwrap()..])),
        3 => ("an element left open", inner("<a>")),
        4 => ("an end tag too many", inner("</a>")),
        5 => ("crossed elements", inner("<a><b></a></b>")),
        6 => ("an unknown entity", inner("&nosuch;")),
        7 => ("a bare ampersand", inner(" & ")),
        8 => ("an unquoted attribute", inner("<a b=1/>")),
        9 => ("an attribute given twice", inner("<a b='1' b='2'/>")),
        10 => ("a prefix without a namespace", inner("<nope:a/>")),
        11 => ("a < in an attribute", inner("<a b='<'/>")),
        12 => ("an attribute left open", inner("<a b='1/>")),
        13 => ("a comment left open", inner("<!-- ")),
        14 => ("an end tag in other case", inner("<a></A>")),
        _ => {
            // cut anywhere inside the root element
            let from = doc.find(&format!("<{name}")).unwrap() + 1;
            let to = doc.rfind('>').unwrap();
            let end = doc[..to].rfind('<').map(|x| x + 1).unwrap_or(to).max(from + 1).min(to);
            let mut k = from + c.s.usize(end.max(from + 1) - from);
            while !doc.is_char_boundary(k) {
                k -= 1;
            }
            ("the end of the document missing", doc[..k].to_string())
        }
    };
    c.label(what);
    c.note(|| format!("{what}: {bad}"));
    // only judged where the independent parser agrees that the document is malformed
    if xml::parse(&bad).is_ok() {
        c.nontrivial(false);
        return Ok(());
    }
    c.nontrivial(true);
    if let Ok(e) = guard(|| XmlParser::parse_str(&bad))? {
        return fail(format!("{what}: the document is accepted, with root <{}>", e.tag));
    }
    ensure!(guard(|| ppt_rs::core::validate_well_formed_xml(&bad))?.is_err(), "{what}: the well-formedness check accepts the document");
    Ok(())
}

#[derive(Debug, Clone)]
enum Call {
    Start(String, Vec<(String, String)>),
    End(String),
    Empty(String, Vec<(String, String)>),
    Text(String),
}
fn legal(t: &str) -> String {
    t.chars().filter(|c| xml::is_xml_char(*c)).collect()
}
fn wtext(s: &mut Src) -> String {
    match s.below(5) {
        0 => gen::hostile(s),
        1 => gen::multiline(s),
        2 => gen::words(s),
        _ => gen::text0(s),
    }
}
fn write(c: &mut Ctx) -> Res {
    fn attrs(s: &mut Src) -> Vec<(String, String)> {
        let mut v: Vec<(String, String)> = vec![];
        for _ in 0..s.len(0, 3) {
            let k = s.pick(NAMES).to_string();
            if v.iter().all(|x| x.0 != k) {
                v.push((k, wtext(s).replace(['\n', '\t', '\r'], " ")));
            }
        }
        v
    }
    fn tree(s: &mut Src, depth: usize, out: &mut Vec<Call>) {
        let n = s.pick(NAMES).to_string();
        if depth > 4 || s.chance(30) {
            out.push(Call::Empty(n, attrs(s)));
            return;
        }
        out.push(Call::Start(n.clone(), attrs(s)));
        for _ in 0..s.len(0, 4) {
            if s.chance(45) {
                out.push(Call::Text(wtext(s).replace('\r', "\n")));
            } else {
                tree(s, depth + 1, out);
            }
        }
        out.push(Call::End(n));
    }
    let mut calls = vec![];
    tree(&mut c.s, 0, &mut calls);
    let decl = c.s.bool();
    c.note(|| format!("{calls:?}"));
    c.nontrivial(calls.len() > 2);
    let mut want = String::new();
    let xmls = guard(|| {
        let mut w = if decl { XmlWriter::with_capacity(16) } else { XmlWriter::new() };
        if decl {
            w.xml_declaration();
        }
        for k in &calls {
            fn r(a: &[(String, String)]) -> Vec<(&str, &str)> {
                a.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect()
            }
            match k {
                Call::Start(n, a) => w.start_element(n, &r(a)),
                Call::End(n) => w.end_element(n),
                Call::Empty(n, a) => w.empty_element(n, &r(a)),
                Call::Text(t) => w.text(t),
            };
        }
        let a = w.as_str().to_string();
        (a, w.finish())
    })?;
    ensure!(xmls.0 == xmls.1, "as_str and finish differ");
    // canonical form of what was written
    let cat = |a: &[(String, String)]| {
        let mut v: Vec<_> = a.iter().map(|(k, v)| format!(" {{}}{k}={:?}", legal(v))).collect();
        v.sort();
        v.concat()
    };
    let mut pending = String::new();
    let flush = |p: &mut String, w: &mut String| {
        if !p.is_empty() {
            w.push_str(&format!("{p:?}"));
            p.clear();
        }
    };
    for k in &calls {
        match k {
            Call::Text(t) => pending.push_str(&legal(t)),
            Call::Start(n, a) => {
                flush(&mut pending, &mut want);
                want.push_str(&format!("<{{}}{n}{}>", cat(a)));
            }
            Call::End(_) => {
                flush(&mut pending, &mut want);
                want.push_str("</>");
            }
            Call::Empty(n, a) => {
                flush(&mut pending, &mut want);
                want.push_str(&format!("<{{}}{n}{}></>", cat(a)));
            }
        }
    }
    let got = xml::parse(&xmls.1).map_err(|e| Fail { msg: format!("the written XML is malformed: {e}: {}", xmls.1) })?;
    let got = got.canon();
    ensure!(got == want, "written {got}\nwanted  {want}");
    Ok(())
}

fn escape(c: &mut Ctx) -> Res {
    let t = {
        let n = c.s.len(0, 4);
        let mut t = String::new();
        for _ in 0..n {
            t.push_str(&wtext(&mut c.s));
            if c.s.chance(30) {
                t.push(char::from_u32(c.s.below(0x800) as u32).unwrap_or('x'));
            }
            if c.s.chance(10) {
                let k = [0xFFFDu32, 0xFFFE, 0xFFFF, 0xEFFF, 0xF000, 0xFEFF, 0x1FFFE, 0x7F, 0x85, 0x2028];
                t.push(char::from_u32(*c.s.pick(&k)).unwrap());
            }
        }
        t
    };
    c.note(|| format!("{t:?}"));
    c.nontrivial(!t.is_empty());
    let e = guard(|| escape_xml(&t))?;
    let pre = gen::text0(&mut c.s);
    let mut b = pre.clone();
    guard(|| append_escape_xml(&mut b, &t))?;
    ensure!(b == format!("{pre}{e}"), "the two ways of escaping differ: {b:?} and {e:?}");
    let lf = |t: &str| lf(&legal(t));
    let el = xml::parse(&format!("<a>{e}</a>")).map_err(|x| Fail { msg: format!("the escaped text is malformed: {x}: {e:?}") })?;
    ensure!(el.text() == lf(&t), "escaped as {e:?}, the text reads as {:?}", el.text());
    let ws = |t: &str| ws(&legal(t));
    for q in ['"', '\''] {
        let el = xml::parse(&format!("<a b={q}{e}{q}/>")).map_err(|x| Fail { msg: format!("the escaped text is malformed in an attribute: {x}: {e:?}") })?;
        let v = el.attr("b").unwrap_or("");
        ensure!(ws(v) == ws(&t), "escaped as {e:?}, the attribute reads as {v:?}");
    }
    // and the crate's own reader gives the same back
    let own = guard(|| XmlParser::parse_str(&format!("<a b=\"{e}\">{e}</a>")))?.map_err(|x| Fail { msg: format!("the crate's reader refuses its escaped text: {x}") })?;
    ensure!(lf(&own.text) == lf(&t), "escaped as {e:?}, the crate reads {:?}", own.text);
    ensure!(ws(own.attr("b").unwrap_or("")) == ws(&t), "escaped as {e:?}, the crate reads the attribute {:?}", own.attr("b"));
    let n = c.s.range(i32::MIN as i64, i32::MAX as i64);
    let mut b = String::from("x");
    ppt_rs::core::append_i32(&mut b, n as i32);
    ppt_rs::core::append_usize(&mut b, n.unsigned_abs() as usize);
    ensure!(b == format!("x{n}{}", n.unsigned_abs()), "numbers appended as {b:?} for {n}");
    Ok(())
}

fn deep(c: &mut Ctx) -> Res {
    let big = c.s.chance(5);
    let n = if big { 1 + c.s.usize(200_000) } else { 1 + c.s.usize(1500) };
    let text = gen::words(&mut c.s);
    let side = c.s.bool();
    c.note(|| format!("{n} levels"));
    c.nontrivial(n > 100);
    let mut doc = String::new();
    for i in 0..n {
        doc.push_str(if i % 2 == 0 { "<a>" } else { "<b x='1'>" });
        if side {
            doc.push_str("<s/>");
        }
    }
    doc.push_str(&text);
    for i in (0..n).rev() {
        doc.push_str(if i % 2 == 0 { "</a>" } else { "</b>" });
    }
    // deep documents may be refused, but never crash, and an accepted one is complete
    match guard(|| XmlParser::parse_str(&doc))? {
        Err(_) => {
            c.label("refused");
            ensure!(n > 100, "a document nested {n} levels deep is refused");
        }
        Ok(e) => {
            c.label("accepted");
            ensure!(e.text_content() == text, "text of a document nested {n} levels deep is {:?}", e.text_content());
            ensure!(e.find_all_descendants("a").len() + e.find_all_descendants("b").len() + 1 == n, "levels are missing");
            let copy = e.clone();
            drop(e);
            ensure!(copy.find_descendant("s").is_some() == side, "side elements of a document nested {n} levels deep");
        }
    }
    Ok(())
}

fn registry(c: &mut Ctx) -> Res {
    use ppt_rs::oxml::ns::{Namespace, NamespaceRegistry};
    let mut r = NamespaceRegistry::new();
    let mut m: std::collections::BTreeMap<String, String> = r.all().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for (p, u) in [("p", URIS[0]), ("a", URIS[1]), ("r", URIS[4])] {
        ensure!(r.get(p) == Some(u), "the prefix {p} stands for {:?}", r.get(p));
    }
    let n = c.s.len(0, 8);
    c.nontrivial(n > 1);
    for _ in 0..n {
        let p = if c.s.bool() { c.s.pick(PFX).to_string() } else { gen::text0(&mut c.s) };
        let u = if c.s.bool() { c.s.pick(URIS).to_string() } else { gen::text0(&mut c.s) };
        r.register(&p, &u);
        m.insert(p.clone(), u.clone());
        let one = Namespace::new(&p, &u);
        ensure!(one.prefix() == p && one.uri() == u, "a namespace of {p:?} and {u:?} says {:?} and {:?}", one.prefix(), one.uri());
    }
    let now: std::collections::BTreeMap<String, String> = r.all().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    ensure!(now == m, "the registry holds {now:?}, wanted {m:?}");
    for (k, v) in &m {
        ensure!(r.get(k) == Some(v.as_str()), "the prefix {k:?} stands for {:?}", r.get(k));
    }
    ensure!(r.get("no such prefix!").is_none() || m.contains_key("no such prefix!"), "an unknown prefix is known");
    Ok(())
}

/// Trees built by hand behave like parsed ones.
fn build(c: &mut Ctx) -> Res {
    fn tree(s: &mut Src, depth: usize) -> (XmlElement, El) {
        let n = *s.pick(NAMES);
        let p = if s.chance(40) { *s.pick(PFX) } else { "" };
        let tag = qn(p, n);
        let (mut e, ns) = if s.bool() {
            let u = *s.pick(URIS);
            (XmlElement::with_namespace(&tag, u), u)
        } else {
            (XmlElement::new(&tag), "")
        };
        let mut w = El { pfx: p.into(), name: n.into(), ns: ns.into(), ..Default::default() };
        for _ in 0..s.len(0, 3) {
            let (k, v) = (s.pick(NAMES).to_string(), gen::text0(s));
            e.set_attr(&k, &v);
            w.attrs.retain(|a| a.name != k);
            w.attrs.push(xml::Attr { pfx: String::new(), name: k, ns: String::new(), val: v });
        }
        if s.chance(40) {
            let t = gen::text(s);
            e.text = t.clone();
            w.kids.push(Node::Text(t));
        }
        if depth < 4 {
            for _ in 0..s.len(0, 3) {
                let (k, kw) = tree(s, depth + 1);
                e.add_child(k);
                w.kids.push(Node::El(kw));
            }
        }
        (e, w)
    }
    let (e, w) = tree(&mut c.s, 0);
    c.note(|| w.canon());
    c.nontrivial(w.els().next().is_some());
    same(&w, &e, "")?;
    let name = *c.s.pick(NAMES);
    search(&w, &e, name)?;
    ensure!(e.text_content() == w.text(), "text_content is {:?}, wanted {:?}", e.text_content(), w.text());
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        rule: "a case is non-trivial when its document has more than two elements (malformed: when an independent parser agrees that the document is malformed; escaping: when the text is not empty; nesting: more than 100 levels)",
        assumptions: &["the harness' own strict XML 1.0 parser is the reference", "document type declarations and encodings other than UTF-8 are not generated", "text order inside elements that mix text and elements is not claimed"],
        subs: vec![
            Sub { name: "parse", quick: 60000, run: parse },
            Sub { name: "malformed", quick: 30000, run: malformed },
            Sub { name: "write", quick: 30000, run: write },
            Sub { name: "escape", quick: 60000, run: escape },
            Sub { name: "deep", quick: 400, run: deep },
            Sub { name: "build", quick: 20000, run: build },
            Sub { name: "registry", quick: 5000, run: registry },
        ],
        probes: vec![],
    }
}

//! Damage to packages: one change that breaks a package in a known way.
use crate::engine::*;
use crate::foreign::rels_xml;
use crate::opc::{self, rels_path, rels_source, Pkg, R_NS};
use crate::xml;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// part removed
    Gone,
    /// part no longer well-formed; true: only a bare ampersand
    Malformed(bool),
    /// a reference in the part names no relationship
    Dangling,
    /// a slide part that the presentation does not list
    Unlisted,
    /// a relationship to a part that is not there
    ExtraRel,
    /// content type entry of an image format removed
    NoType,
    /// shape id used twice
    DupId,
    /// slide removed from the slide list, its relationship stays
    Unlist,
    /// something a chart, master, theme or the presentation must have taken away
    Rule,
}
#[derive(Clone, Debug)]
pub struct Damage {
    pub kind: Kind,
    /// the part that is damaged or missing
    pub part: String,
    /// parts whose content changed or that are gone
    pub touched: Vec<String>,
    pub what: String,
}
fn is_xml(n: &str) -> bool {
    n.ends_with(".xml") || n.ends_with(".rels")
}
/// Text positions between tags where an ampersand can be put.
fn amp(s: &mut Src, x: &str) -> Option<String> {
    let spots: Vec<usize> = x.match_indices('>').map(|m| m.0 + 1).filter(|&i| i < x.len() && !x[..i].ends_with("?>")).collect();
    // inside the root only
    let spots: Vec<usize> = spots.iter().copied().take(spots.len().saturating_sub(1)).collect();
    if spots.is_empty() {
        return None;
    }
    let i = *s.pick_opt(&spots)?;
    let what = *s.pick(&["&", "& ", "&nbsp;", "&unknown;", "&#;", "&#xZ;", "&amp", "a&b", "&;"]);
    Some(format!("{}{}{}", &x[..i], what, &x[i..]))
}
fn malform(s: &mut Src, b: &[u8]) -> Option<(Vec<u8>, &'static str, bool)> {
    let x = std::str::from_utf8(b).ok()?;
    let cut = |mut i: usize| {
        while !x.is_char_boundary(i) {
            i -= 1;
        }
        i
    };
    let (v, w, a): (Vec<u8>, _, _) = match s.below(8) {
        0 => (x[..cut(s.usize(x.len().max(1)))].into(), "truncated", false),
        1 => {
            let ends: Vec<_> = x.match_indices("</").collect();
            if ends.is_empty() {
                return None;
            }
            let i = s.pick_opt(&ends)?.0;
            let j = i + x[i..].find('>')? + 1;
            (format!("{}{}", &x[..i], &x[j..]).into_bytes(), "closing tag removed", false)
        }
        2 => (amp(s, x)?.into_bytes(), "bare ampersand", true),
        3 => {
            // duplicate attribute
            let e: Vec<_> = x.match_indices("=\"").collect();
            let e: Vec<usize> = e.iter().map(|m| m.0).filter(|&i| !x[..i].contains("<?xml") || x[..i].contains("?>")).collect();
            if e.is_empty() {
                return None;
            }
            let i = *s.pick_opt(&e)?;
            let st = x[..i].rfind(char::is_whitespace)?;
            if x[st..].trim_start().starts_with("xmlns") {
                return None;
            }
            let en = i + 2 + x[i + 2..].find('"')? + 1;
            (format!("{}{}{}", &x[..en], &x[st..en], &x[en..]).into_bytes(), "attribute repeated", false)
        }
        4 => {
            let i = s.usize(b.len().max(1));
            let mut v = b.to_vec();
            v.insert(i, 0xFF);
            (v, "byte FF inserted", false)
        }
        5 => (vec![], "emptied", false),
        6 => (format!("{x}<extra/>").into_bytes(), "second root", false),
        _ => {
            let e: Vec<_> = x.match_indices('>').collect();
            let i = s.pick_opt(&e)?.0;
            (format!("{}{}", &x[..i], &x[i + 1..]).into_bytes(), "'>' removed", false)
        }
    };
    // only what the independent parser rejects too counts as damage
    let bad = match std::str::from_utf8(&v) {
        Ok(t) => xml::parse(t).is_err(),
        Err(_) => true,
    };
    bad.then_some((v, w, a))
}
/// All r:* reference values of a part.
pub fn refs(p: &Pkg, part: &str) -> Vec<String> {
    let mut v = vec![];
    if let Ok(x) = p.xml(part) {
        x.walk(&mut |e| {
            for a in &e.attrs {
                if a.ns == R_NS && !a.val.is_empty() && !v.contains(&a.val) {
                    v.push(a.val.clone());
                }
            }
        });
    }
    v
}
/// Applies one damage drawn from `kinds` (see the match); None if it does not apply to this package.
pub fn inflict(p: &mut Pkg, s: &mut Src, kinds: &[u64]) -> Option<Damage> {
    let k = *s.pick(kinds);
    let slides = p.slide_paths().ok()?;
    let d = |kind, part: &str, touched: &[&str], what: String| Some(Damage { kind, part: part.into(), touched: touched.iter().map(|x| x.to_string()).collect(), what });
    match k {
        // a part some relationship leads to
        0 => {
            let v: Vec<String> = p.parts.keys().filter(|n| !n.ends_with(".rels") && *n != "[Content_Types].xml").cloned().collect();
            let n = s.pick_opt(&v)?.clone();
            p.parts.remove(&n);
            d(Kind::Gone, &n, &[&n], format!("{n} removed"))
        }
        // a part every package needs
        1 => {
            let n = *s.pick(&["[Content_Types].xml", "_rels/.rels", "ppt/presentation.xml", "ppt/_rels/presentation.xml.rels"]);
            p.parts.remove(n)?;
            d(Kind::Gone, n, &[n], format!("{n} removed"))
        }
        2 => {
            let v: Vec<String> = p.parts.keys().filter(|n| is_xml(n)).cloned().collect();
            let n = s.pick_opt(&v)?.clone();
            let (b, w, a) = malform(s, &p.parts[&n])?;
            p.parts.insert(n.clone(), b);
            d(Kind::Malformed(a), &n, &[&n], format!("{n}: {w}"))
        }
        // reference in a slide renamed
        3 => {
            let n = s.pick_opt(&slides)?.clone();
            let r = refs(p, &n);
            if r.is_empty() {
                return None;
            }
            let id = s.pick_opt(&r)?.clone();
            let x = p.str(&n).ok()?.replace(&format!("=\"{id}\""), "=\"rId9731\"");
            p.parts.insert(n.clone(), x.into_bytes());
            d(Kind::Dangling, &n, &[&n], format!("{n}: reference {id} renamed"))
        }
        // relationship that something refers to removed
        4 => {
            let v: Vec<String> = p.parts.keys().filter(|n| n.ends_with(".rels") && !refs(p, &rels_source(n)).is_empty()).cloned().collect();
            let rp = s.pick_opt(&v)?.clone();
            let src = rels_source(&rp);
            let r = refs(p, &src);
            let id = s.pick_opt(&r)?.clone();
            let mut rels = p.rels(&src).ok()?;
            rels.retain(|r| r.id != id);
            p.parts.insert(rp.clone(), rels_xml(&rels).into_bytes());
            d(Kind::Dangling, &src, &[&rp], format!("{rp}: relationship {id} removed"))
        }
        // slide part nothing lists
        5 => {
            let n = format!("ppt/slides/slide{}.xml", 900 + s.below(9));
            if p.parts.contains_key(&n) {
                return None;
            }
            let lay = p.related(&slides[0], "slideLayout").ok()?.first()?.clone();
            p.str("[Content_Types].xml").ok()?;
            let x = crate::foreign::slide_xml(s, &[]);
            p.put(&n, x);
            let rel = opc::Rel { id: "rId1".into(), typ: "http://schemas.openxmlformats.org/officeDocument/2006/relationships/slideLayout".into(), target: crate::foreign::relative(&n, &lay), external: false };
            p.put(&rels_path(&n), rels_xml(&[rel]));
            let ct = p.str("[Content_Types].xml").ok()?.replace("</Types>", &format!("<Override PartName=\"/{n}\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/></Types>"));
            p.parts.insert("[Content_Types].xml".into(), ct.into_bytes());
            d(Kind::Unlisted, &n, &[&n], format!("{n} added without listing it"))
        }
        // relationship to nowhere
        6 => {
            let v: Vec<String> = p.parts.keys().filter(|n| n.ends_with(".rels")).cloned().collect();
            let rp = s.pick_opt(&v)?.clone();
            let src = rels_source(&rp);
            let mut rels = p.rels(&src).ok()?;
            let typ = format!("http://schemas.openxmlformats.org/officeDocument/2006/relationships/{}", s.pick(&["image", "slide", "theme", "customXml", "hyperlink"]));
            let target = s.pick(&["nowhere.xml", "../gone/x.png", "/ppt/slides/slide777.xml", "slides/slide778.xml", "a%20b.xml"]).to_string();
            let id = format!("rId{}", 800 + s.below(50));
            let at = s.usize(rels.len() + 1);
            rels.insert(at, opc::Rel { id: id.clone(), typ, target: target.clone(), external: false });
            if s.chance(30) && rels.len() > 4 {
                // the fourth states its mode in full
                let r = rels.remove(at);
                rels.insert(3, r);
            }
            p.parts.insert(rp.clone(), rels_xml(&rels).into_bytes());
            d(Kind::ExtraRel, &rp, &[&rp], format!("{rp}: relationship {id} to {target}"))
        }
        7 => {
            let ct = opc::content_types(p).ok()?;
            let v: Vec<&String> = p.parts.keys().filter(|n| !is_xml(n) && !ct.overrides.contains_key(*n)).collect();
            if v.is_empty() {
                return None;
            }
            let n = s.pick_opt(&v)?.to_string();
            let ext = n.rsplit('.').next()?.to_string();
            let x = p.str("[Content_Types].xml").ok()?;
            let m = format!("<Default Extension=\"{ext}\"");
            let i = x.find(&m)?;
            let j = i + x[i..].find("/>")? + 2;
            let x = format!("{}{}", &x[..i], &x[j..]);
            p.parts.insert("[Content_Types].xml".into(), x.into_bytes());
            d(Kind::NoType, &n, &["[Content_Types].xml"], format!("content type of .{ext} removed"))
        }
        8 => {
            let n = s.pick_opt(&slides)?.clone();
            let x = p.xml(&n).ok()?;
            let ids: Vec<String> = x.all("cNvPr").iter().filter_map(|e| e.attr("id").map(String::from)).collect();
            if ids.len() < 2 {
                return None;
            }
            let i = 1 + s.usize(ids.len() - 1);
            let j = s.usize(i);
            let t = p.str(&n).ok()?;
            let m = format!("<p:cNvPr id=\"{}\"", ids[i]);
            if t.matches(&m).count() != 1 {
                return None;
            }
            let t = t.replace(&m, &format!("<p:cNvPr id=\"{}\"", ids[j]));
            p.parts.insert(n.clone(), t.into_bytes());
            d(Kind::DupId, &n, &[&n], format!("{n}: shape id {} used twice", ids[j]))
        }
        10 => rule(p, s),
        _ => {
            let x = p.str("ppt/presentation.xml").ok()?;
            let v: Vec<usize> = x.match_indices("<p:sldId ").map(|m| m.0).collect();
            let i = *s.pick_opt(&v)?;
            let j = i + x[i..].find("/>")? + 2;
            let x = format!("{}{}", &x[..i], &x[j..]);
            p.parts.insert("ppt/presentation.xml".into(), x.into_bytes());
            d(Kind::Unlist, "ppt/presentation.xml", &["ppt/presentation.xml"], "slide list entry removed".into())
        }
    }
}

/// Text from the first `a` up to the end of the next `b` taken out.
fn cut(x: &str, a: &str, b: &str) -> Option<String> {
    let i = x.find(a)?;
    let j = i + x[i..].find(b)? + b.len();
    Some(format!("{}{}", &x[..i], &x[j..]))
}
/// One thing every chart, master, theme or presentation of the library has, taken away.
fn rule(p: &mut Pkg, s: &mut Src) -> Option<Damage> {
    let d = |part: &str, what: &str| Some(Damage { kind: Kind::Rule, part: part.into(), touched: vec![part.into()], what: format!("{part}: {what}") });
    let master = "ppt/slideMasters/slideMaster1.xml";
    let main = "ppt/presentation.xml";
    let charts: Vec<String> = p.parts.keys().filter(|n| n.starts_with("ppt/charts/chart")).cloned().collect();
    let masters: Vec<String> = p.parts.keys().filter(|n| n.starts_with("ppt/handoutMasters/h") || n.starts_with("ppt/notesMasters/n")).cloned().collect();
    let pick = s.below(14);
    match pick {
        0 => {
            let x = cut(p.str(master).ok()?, "<p:txStyles>", "</p:txStyles>")?;
            p.put(master, x);
            d(master, "text styles removed")
        }
        1 => {
            let n = "ppt/theme/theme1.xml";
            p.put(n, "<a:theme xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" name=\"t\"/>".to_string());
            d(n, "replaced by an empty theme")
        }
        2 | 3 => {
            // a relationship of the layout list, or of the slide list, leads to a part of another kind
            let (src, el) = if pick == 2 { (master, "sldLayoutId") } else { (main, "sldId") };
            let ids: Vec<String> = p.xml(src).ok()?.all(el).iter().filter_map(|e| e.attr_ns(R_NS, "id").map(String::from)).collect();
            let id = s.pick_opt(&ids)?.clone();
            let mut rels = p.rels(src).ok()?;
            let other = rels.iter().find(|r| r.typ.ends_with("/theme"))?.target.clone();
            rels.iter_mut().find(|r| r.id == id)?.target = other;
            p.put(&rels_path(src), rels_xml(&rels));
            d(src, &format!("{el} {id} leads to the theme"))
        }
        4 => {
            let n = s.pick_opt(&charts)?.clone();
            let x = cut(p.str(&n).ok()?, "<c:externalData", "</c:externalData>")?;
            p.put(&n, x);
            d(&n, "reference to its data removed")
        }
        5 => {
            let n = s.pick_opt(&charts)?.clone();
            let mut rels = p.rels(&n).ok()?;
            rels.retain(|r| !r.target.contains("embeddings/"));
            p.put(&rels_path(&n), rels_xml(&rels));
            d(&rels_path(&n), "relationship to its data removed")
        }
        6 => {
            let n = s.pick_opt(&charts)?.clone();
            p.parts.remove(&rels_path(&n))?;
            d(&n, "relationships removed")
        }
        7 => {
            // data under another name, properly related and typed
            let n = s.pick_opt(&charts)?.clone();
            let mut rels = p.rels(&n).ok()?;
            let r = rels.iter_mut().find(|r| r.target.contains("embeddings/"))?;
            let old = opc::resolve(&n, &r.target);
            r.target = "../embeddings/other.xlsx".into();
            let b = p.parts.remove(&old)?;
            p.parts.insert("ppt/embeddings/other.xlsx".into(), b);
            p.order.push("ppt/embeddings/other.xlsx".into());
            p.put(&rels_path(&n), rels_xml(&rels));
            d(&n, "data not under the name that goes with the chart")
        }
        8 | 9 => {
            let n = s.pick_opt(&masters)?.clone();
            let x = cut(p.str(&n).ok()?, "<p:bg>", "</p:bg>")?;
            p.put(&n, x);
            d(&n, "background removed")
        }
        10 | 11 => {
            let n = s.pick_opt(&masters)?.clone();
            let mut rels = p.rels(&n).ok()?;
            rels.iter_mut().find(|r| r.typ.ends_with("/theme"))?.target = "../theme/theme1.xml".into();
            p.put(&rels_path(&n), rels_xml(&rels));
            d(&rels_path(&n), "shares the theme of the slides")
        }
        12 => {
            masters.iter().find(|n| n.contains("handout"))?;
            let n = "ppt/presProps.xml";
            let x = p.str(n).ok()?.to_string();
            if x.contains("<p:prnPr") {
                return None;
            }
            let root = x.find("<p:presentationPr")?;
            let end = root + x[root..].find('>')?;
            let prn = "<p:prnPr prnWhat=\"slides\"/>";
            let x = if x.as_bytes()[end - 1] == b'/' { format!("{}>{prn}</p:presentationPr>{}", &x[..end - 1], &x[end + 1..]) } else { format!("{}{prn}{}", &x[..end + 1], &x[end + 1..]) };
            p.put(n, x);
            d(n, "print settings next to a handout master")
        }
        _ => {
            let n = s.pick_opt(&masters)?.clone();
            let el = if n.contains("notes") { "p:notesMasterId" } else { "p:handoutMasterId" };
            let ids: Vec<String> = p.xml(master).ok()?.all("sldLayoutId").iter().filter_map(|e| e.attr("id").map(String::from)).collect();
            let id = s.pick_opt(&ids)?.clone();
            let x = p.str(main).ok()?.replace(&format!("<{el} "), &format!("<{el} id=\"{id}\" "));
            p.put(main, x);
            d(main, &format!("{el} has the id {id} of a layout"))
        }
    }
}

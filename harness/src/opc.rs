//! Independent OPC reader and package oracle.
use crate::xml::{self, El};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;

pub const R_NS: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
pub const P_NS: &str = "http://schemas.openxmlformats.org/presentationml/2006/main";
pub const A_NS: &str = "http://schemas.openxmlformats.org/drawingml/2006/main";
const REL_NS: &str = "http://schemas.openxmlformats.org/package/2006/relationships";
const CT_NS: &str = "http://schemas.openxmlformats.org/package/2006/content-types";

#[derive(Debug, Clone)]
pub struct Rel {
    pub id: String,
    pub typ: String,
    pub target: String,
    pub external: bool,
}
impl Rel {
    pub fn kind(&self) -> &str {
        self.typ.rsplit('/').next().unwrap_or("")
    }
}
pub struct Pkg {
    pub parts: BTreeMap<String, Vec<u8>>,
    pub order: Vec<String>,
}

/// Names from the central directory, read independently of the zip crate.
pub fn central_names(b: &[u8]) -> Result<Vec<String>, String> {
    let e = (0..b.len().saturating_sub(21)).rev().find(|&i| b[i..].starts_with(b"PK\x05\x06")).ok_or("no end of central directory")?;
    let u16a = |o: usize| u16::from_le_bytes([b[o], b[o + 1]]) as usize;
    let u32a = |o: usize| u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]) as usize;
    let n = u16a(e + 10);
    let mut o = u32a(e + 16);
    let mut v = vec![];
    for _ in 0..n {
        if o + 46 > b.len() || !b[o..].starts_with(b"PK\x01\x02") {
            return Err("bad central directory entry".into());
        }
        let (nl, xl, cl) = (u16a(o + 28), u16a(o + 30), u16a(o + 32));
        v.push(String::from_utf8(b[o + 46..o + 46 + nl].to_vec()).map_err(|_| "non-utf8 name")?);
        o += 46 + nl + xl + cl;
    }
    Ok(v)
}

impl Pkg {
    pub fn read(b: &[u8]) -> Result<Pkg, String> {
        let order = central_names(b)?;
        let set: BTreeSet<_> = order.iter().map(|s| s.to_ascii_lowercase()).collect();
        if set.len() != order.len() {
            return Err(format!("duplicate zip entries: {:?}", order));
        }
        let mut z = zip::ZipArchive::new(std::io::Cursor::new(b)).map_err(|e| format!("zip: {e}"))?;
        let mut parts = BTreeMap::new();
        for i in 0..z.len() {
            let mut f = z.by_index(i).map_err(|e| format!("zip entry: {e}"))?;
            if f.is_dir() {
                continue;
            }
            let mut v = vec![];
            let n = f.name().to_string();
            f.read_to_end(&mut v).map_err(|e| format!("zip read {n}: {e}"))?;
            parts.insert(n, v);
        }
        Ok(Pkg { parts, order })
    }
    /// Serialise, in `order` (parts not listed follow), stored or deflated.
    pub fn write(&self, deflate: bool) -> Vec<u8> {
        use std::io::Write;
        let mut z = zip::ZipWriter::new(std::io::Cursor::new(Vec::new()));
        let o = zip::write::FileOptions::default().compression_method(if deflate { zip::CompressionMethod::Deflated } else { zip::CompressionMethod::Stored });
        let mut names: Vec<&String> = self.order.iter().filter(|n| self.parts.contains_key(*n)).collect();
        names.extend(self.parts.keys().filter(|k| !self.order.contains(k)));
        for n in names {
            z.start_file(n.as_str(), o).unwrap();
            z.write_all(&self.parts[n]).unwrap();
        }
        z.finish().unwrap().into_inner()
    }
    pub fn put(&mut self, name: &str, data: impl Into<Vec<u8>>) {
        if !self.parts.contains_key(name) {
            self.order.push(name.into());
        }
        self.parts.insert(name.into(), data.into());
    }
    pub fn str(&self, p: &str) -> Result<&str, String> {
        let b = self.parts.get(p).ok_or(format!("missing part {p}"))?;
        std::str::from_utf8(b).map_err(|_| format!("part {p} is not UTF-8"))
    }
    pub fn xml(&self, p: &str) -> Result<El, String> {
        xml::parse(self.str(p)?).map_err(|e| format!("{p}: {e}"))
    }
    pub fn rels(&self, p: &str) -> Result<Vec<Rel>, String> {
        let rp = rels_path(p);
        if !self.parts.contains_key(&rp) {
            return Ok(vec![]);
        }
        parse_rels(&self.xml(&rp)?, &rp)
    }
    pub fn resolve(&self, p: &str, rid: &str) -> Result<Option<String>, String> {
        Ok(self.rels(p)?.into_iter().find(|r| r.id == rid && !r.external).map(|r| resolve(p, &r.target)))
    }
    /// Slides in presentation order, by sldIdLst.
    pub fn slide_paths(&self) -> Result<Vec<String>, String> {
        let main = self.main_part()?;
        let x = self.xml(&main)?;
        let mut v = vec![];
        if let Some(l) = x.child("sldIdLst") {
            for s in l.els() {
                let rid = s.attr_ns(R_NS, "id").ok_or("sldId without r:id")?;
                v.push(self.resolve(&main, rid)?.ok_or(format!("sldId {rid} does not resolve"))?);
            }
        }
        Ok(v)
    }
    pub fn main_part(&self) -> Result<String, String> {
        let r = self.rels("")?;
        let m = r.iter().find(|r| r.kind() == "officeDocument").ok_or("no officeDocument relationship")?;
        Ok(resolve("", &m.target))
    }
    pub fn related(&self, p: &str, kind: &str) -> Result<Vec<String>, String> {
        Ok(self.rels(p)?.into_iter().filter(|r| !r.external && r.kind() == kind).map(|r| resolve(p, &r.target)).collect())
    }
}
pub fn parse_rels(x: &El, rp: &str) -> Result<Vec<Rel>, String> {
    if x.name != "Relationships" || x.ns != REL_NS {
        return Err(format!("{rp}: root is not Relationships"));
    }
    let mut v = vec![];
    for r in x.els() {
        if r.name != "Relationship" {
            return Err(format!("{rp}: unexpected {}", r.name));
        }
        let g = |n: &str| r.attr(n).map(|s| s.to_string()).ok_or(format!("{rp}: Relationship without {n}"));
        let external = match r.attr("TargetMode") {
            None | Some("Internal") => false,
            Some("External") => true,
            Some(o) => return Err(format!("{rp}: bad TargetMode {o}")),
        };
        v.push(Rel { id: g("Id")?, typ: g("Type")?, target: g("Target")?, external });
    }
    Ok(v)
}
pub fn rels_path(p: &str) -> String {
    match p.rfind('/') {
        Some(i) => format!("{}/_rels/{}.rels", &p[..i], &p[i + 1..]),
        None if p.is_empty() => "_rels/.rels".into(),
        None => format!("_rels/{p}.rels"),
    }
}
/// The part a .rels part belongs to ("" for the package).
pub fn rels_source(rp: &str) -> String {
    let i = rp.find("_rels/").unwrap_or(0);
    let dir = &rp[..i];
    let f = rp[i + 6..].trim_end_matches(".rels");
    format!("{dir}{f}")
}
pub fn resolve(src: &str, target: &str) -> String {
    let target = target.split('#').next().unwrap_or("");
    if let Some(t) = target.strip_prefix('/') {
        return norm(t);
    }
    let dir = src.rfind('/').map(|i| &src[..i]).unwrap_or("");
    norm(&format!("{dir}/{target}"))
}
fn norm(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for s in p.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            _ => v.push(s),
        }
    }
    v.join("/")
}
fn is_xml(p: &str) -> bool {
    p.ends_with(".xml") || p.ends_with(".rels") || p.ends_with(".vml")
}

const CT_MAP: &[(&str, &str)] = &[
    ("slide", "application/vnd.openxmlformats-officedocument.presentationml.slide+xml"),
    ("slideLayout", "application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"),
    ("slideMaster", "application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"),
    ("notesSlide", "application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml"),
    ("notesMaster", "application/vnd.openxmlformats-officedocument.presentationml.notesMaster+xml"),
    ("theme", "application/vnd.openxmlformats-officedocument.theme+xml"),
    ("chart", "application/vnd.openxmlformats-officedocument.drawingml.chart+xml"),
    ("presProps", "application/vnd.openxmlformats-officedocument.presentationml.presProps+xml"),
    ("viewProps", "application/vnd.openxmlformats-officedocument.presentationml.viewProps+xml"),
    ("tableStyles", "application/vnd.openxmlformats-officedocument.presentationml.tableStyles+xml"),
    ("core-properties", "application/vnd.openxmlformats-package.core-properties+xml"),
    ("extended-properties", "application/vnd.openxmlformats-officedocument.extended-properties+xml"),
    ("officeDocument", "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"),
];
const ROOT_MAP: &[(&str, &str)] = &[
    ("slide", "sld"),
    ("slideLayout", "sldLayout"),
    ("slideMaster", "sldMaster"),
    ("notesSlide", "notes"),
    ("notesMaster", "notesMaster"),
    ("theme", "theme"),
    ("chart", "chartSpace"),
    ("presProps", "presentationPr"),
    ("viewProps", "viewPr"),
    ("tableStyles", "tblStyleLst"),
    ("core-properties", "coreProperties"),
    ("extended-properties", "Properties"),
    ("officeDocument", "presentation"),
];

pub struct CtTable {
    pub defaults: BTreeMap<String, String>,
    pub overrides: BTreeMap<String, String>,
}
impl CtTable {
    pub fn of(&self, part: &str) -> Option<&str> {
        if let Some(o) = self.overrides.get(part) {
            return Some(o);
        }
        let f = part.rsplit('/').next().unwrap_or(part);
        let ext = f.rsplit_once('.').map(|x| x.1.to_ascii_lowercase())?;
        self.defaults.get(&ext).map(|s| s.as_str())
    }
}
pub fn content_types(p: &Pkg) -> Result<CtTable, String> {
    let x = p.xml("[Content_Types].xml")?;
    if x.name != "Types" || x.ns != CT_NS {
        return Err("content types root".into());
    }
    let mut t = CtTable { defaults: BTreeMap::new(), overrides: BTreeMap::new() };
    for e in x.els() {
        let ct = e.attr("ContentType").ok_or("content type entry without ContentType")?.to_string();
        if ct.is_empty() || !ct.contains('/') {
            return Err(format!("bad content type {ct:?}"));
        }
        match e.name.as_str() {
            "Default" => {
                let k = e.attr("Extension").ok_or("Default without Extension")?.to_ascii_lowercase();
                if t.defaults.insert(k.clone(), ct).is_some() {
                    return Err(format!("duplicate Default for extension {k}"));
                }
            }
            "Override" => {
                let k = e.attr("PartName").ok_or("Override without PartName")?;
                let k = k.strip_prefix('/').ok_or(format!("PartName {k} is not absolute"))?.to_string();
                if t.overrides.insert(k.clone(), ct).is_some() {
                    return Err(format!("duplicate Override for {k}"));
                }
            }
            o => return Err(format!("unexpected {o} in content types")),
        }
    }
    Ok(t)
}

/// The package oracle: everything a conforming OPC consumer relies on.
pub fn check_package(b: &[u8]) -> Result<Pkg, String> {
    let p = Pkg::read(b)?;
    check_pkg(&p)?;
    Ok(p)
}
pub fn check_pkg(p: &Pkg) -> Result<(), String> {
    for n in p.parts.keys() {
        if n.starts_with('/') || n.contains("//") || n.contains('\\') || n.split('/').any(|s| s == "." || s == ".." || s.is_empty()) {
            return Err(format!("illegal part name {n:?}"));
        }
        if n != "[Content_Types].xml" && n.chars().any(|c| " \"<>^`{|}[]%?#".contains(c) || c.is_control()) {
            return Err(format!("illegal character in part name {n:?}"));
        }
    }
    let ct = content_types(p)?;
    for o in ct.overrides.keys() {
        if !p.parts.contains_key(o) {
            return Err(format!("Override for missing part {o}"));
        }
    }
    let mut xmls: BTreeMap<String, El> = BTreeMap::new();
    for n in p.parts.keys() {
        if is_xml(n) {
            xmls.insert(n.clone(), p.xml(n)?);
        }
        if n != "[Content_Types].xml" && ct.of(n).is_none() {
            return Err(format!("no content type for part {n}"));
        }
    }
    // relationships
    let mut reach: BTreeSet<String> = BTreeSet::new();
    let mut kinds: BTreeMap<String, String> = BTreeMap::new();
    for n in p.parts.keys().filter(|n| n.ends_with(".rels")) {
        let src = rels_source(n);
        if !src.is_empty() && !p.parts.contains_key(&src) {
            return Err(format!("{n} has no source part"));
        }
        let rels = parse_rels(&xmls[n], n)?;
        let mut ids = BTreeSet::new();
        for r in &rels {
            if !ids.insert(r.id.clone()) {
                return Err(format!("{n}: duplicate relationship Id {}", r.id));
            }
            if r.id.is_empty() || r.id.starts_with(|c: char| c.is_ascii_digit()) || r.id.chars().any(|c| !(c.is_alphanumeric() || "_-.".contains(c))) {
                return Err(format!("{n}: Id {:?} is not an xsd:ID", r.id));
            }
            if r.external {
                continue;
            }
            let t = resolve(&src, &r.target);
            if !p.parts.contains_key(&t) {
                return Err(format!("{n}: {} -> {} ({t}) does not exist", r.id, r.target));
            }
            kinds.insert(t.clone(), r.kind().to_string());
            if let Some((_, want)) = CT_MAP.iter().find(|x| x.0 == r.kind()) {
                let got = ct.of(&t).unwrap_or("");
                if got != *want {
                    return Err(format!("{n}: {t} is the target of a {} relationship but has content type {got}", r.kind()));
                }
            }
            if let Some((_, want)) = ROOT_MAP.iter().find(|x| x.0 == r.kind()) {
                if let Some(x) = xmls.get(&t) {
                    if x.name != *want {
                        return Err(format!("{t}: root {} but related as {}", x.name, r.kind()));
                    }
                }
            }
            if r.kind() == "image" && !ct.of(&t).unwrap_or("").starts_with("image/") {
                return Err(format!("{t}: image with content type {:?}", ct.of(&t)));
            }
        }
        // no two parts... (targets may repeat)
    }
    // reachability
    let mut stack = vec![String::new()];
    while let Some(s) = stack.pop() {
        for r in p.rels(&s)? {
            if !r.external {
                let t = resolve(&s, &r.target);
                if reach.insert(t.clone()) {
                    stack.push(t);
                }
            }
        }
    }
    for n in p.parts.keys() {
        if n != "[Content_Types].xml" && !n.ends_with(".rels") && !reach.contains(n) {
            return Err(format!("part {n} is not reachable from any relationship"));
        }
    }
    // r:* references resolve, and to the right kind
    for (n, x) in &xmls {
        if n.ends_with(".rels") || n == "[Content_Types].xml" {
            continue;
        }
        let rels: BTreeMap<String, Rel> = p.rels(n)?.into_iter().map(|r| (r.id.clone(), r)).collect();
        let mut err = None;
        x.walk(&mut |e| {
            for a in &e.attrs {
                if a.ns == R_NS && err.is_none() {
                    if a.val.is_empty() && (e.name == "hlinkClick" || e.name == "hlinkHover") {
                        continue;
                    }
                    match rels.get(&a.val) {
                        None => err = Some(format!("{n}: {}:{} r:{}={:?} has no relationship", e.pfx, e.name, a.name, a.val)),
                        Some(r) => {
                            let want: &[&str] = match (e.name.as_str(), a.name.as_str()) {
                                ("blip", _) => &["image"],
                                ("sldId", _) => &["slide"],
                                ("sldMasterId", _) => &["slideMaster"],
                                ("sldLayoutId", _) => &["slideLayout"],
                                ("notesMasterId", _) => &["notesMaster"],
                                ("chart", "id") => &["chart"],
                                ("externalData", _) => &["package"],
                                ("hlinkClick", _) | ("hlinkHover", _) => &["hyperlink", "slide"],
                                ("videoFile", _) => &["video"],
                                ("audioFile", _) => &["audio"],
                                _ => &[],
                            };
                            if !want.is_empty() && !want.contains(&r.kind()) {
                                err = Some(format!("{n}: {} r:{}={} points to a {} relationship", e.name, a.name, a.val, r.kind()));
                            }
                        }
                    }
                }
            }
        });
        if let Some(e) = err {
            return Err(e);
        }
    }
    // presentation skeleton
    let main = p.main_part()?;
    let pres = &xmls[&main];
    if pres.name != "presentation" || pres.ns != P_NS {
        return Err("main part is not a presentation".into());
    }
    let mut ids = BTreeSet::new();
    let slides = p.slide_paths()?;
    for s in pres.child("sldIdLst").map(|l| l.els().collect::<Vec<_>>()).unwrap_or_default() {
        let id: u64 = s.attr("id").and_then(|v| v.parse().ok()).ok_or("sldId without numeric id")?;
        if !(256..2147483648).contains(&id) {
            return Err(format!("sldId {id} out of range"));
        }
        if !ids.insert(id) {
            return Err(format!("duplicate sldId {id}"));
        }
    }
    let mut uniq = BTreeSet::new();
    for s in &slides {
        if !uniq.insert(s.clone()) {
            return Err(format!("slide {s} listed twice"));
        }
        let lay = p.related(s, "slideLayout")?;
        if lay.len() != 1 {
            return Err(format!("{s} has {} layouts", lay.len()));
        }
        if p.related(&lay[0], "slideMaster")?.len() != 1 {
            return Err(format!("{} has no single master", lay[0]));
        }
        if p.related(s, "notesSlide")?.len() > 1 {
            return Err(format!("{s} has more than one notes slide"));
        }
        for n in p.related(s, "notesSlide")? {
            let back = p.related(&n, "slide")?;
            if back != vec![s.clone()] {
                return Err(format!("{n} belongs to {s} but points back to {back:?}"));
            }
            if p.related(&n, "notesMaster")?.len() != 1 {
                return Err(format!("{n} has no notes master"));
            }
        }
    }
    for (t, k) in &kinds {
        if k == "slide" && !uniq.contains(t) {
            return Err(format!("slide part {t} is not in the slide list"));
        }
    }
    let masters = p.related(&main, "slideMaster")?;
    if masters.is_empty() {
        return Err("no slide master".into());
    }
    // master/layout ids unique across the presentation and >= 2^31
    let mut mids = BTreeSet::new();
    let mut push = |v: Option<&str>, w: &str| -> Result<(), String> {
        let id: u64 = v.and_then(|v| v.parse().ok()).ok_or(format!("{w} without id"))?;
        if id < 2147483648 || id > u32::MAX as u64 {
            return Err(format!("{w} id {id} out of range"));
        }
        if !mids.insert(id) {
            return Err(format!("{w} id {id} duplicated among masters and layouts"));
        }
        Ok(())
    };
    for e in pres.child("sldMasterIdLst").map(|l| l.els().collect::<Vec<_>>()).unwrap_or_default() {
        push(e.attr("id"), "sldMasterId")?;
    }
    for m in &masters {
        let mx = &xmls[m];
        let listed: Vec<_> = mx.child("sldLayoutIdLst").map(|l| l.els().collect::<Vec<_>>()).unwrap_or_default();
        for e in &listed {
            push(e.attr("id"), "sldLayoutId")?;
        }
        let lays = p.related(m, "slideLayout")?;
        if lays.len() != listed.len() {
            return Err(format!("{m}: {} layout relationships, {} listed", lays.len(), listed.len()));
        }
    }
    Ok(())
}
/// Where the data of an entry starts in an archive.
pub fn data_offset(b: &[u8], name: &str) -> Result<usize, String> {
    let mut z = zip::ZipArchive::new(std::io::Cursor::new(b)).map_err(|e| e.to_string())?;
    let f = z.by_name(name).map_err(|e| e.to_string())?;
    Ok(f.data_start() as usize)
}

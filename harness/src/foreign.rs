//! Packages and slides as other producers write them: same meaning, different spelling.
use crate::engine::*;
use crate::opc::{self, Pkg, Rel};
use crate::xml::esc;
use crate::{gen, xml};
use std::collections::BTreeMap;

pub fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = i - s.usize(i + 1);
        v.swap(i, j);
    }
}
pub fn rels_xml(rels: &[Rel]) -> String {
    let mut o = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">");
    for (i, r) in rels.iter().enumerate() {
        let m = if r.external { " TargetMode=\"External\"" } else if i % 5 == 3 { " TargetMode=\"Internal\"" } else { "" };
        if i % 2 == 0 {
            o += &format!("<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{m}/>", esc(&r.id), esc(&r.typ), esc(&r.target));
        } else {
            o += &format!("<Relationship{m} Target=\"{}\" Type=\"{}\" Id=\"{}\"/>", esc(&r.target), esc(&r.typ), esc(&r.id));
        }
    }
    o + "</Relationships>"
}
/// Relative target from the folder of `src` to part `dst`.
pub fn relative(src: &str, dst: &str) -> String {
    let dir: Vec<&str> = src.split('/').collect();
    let dir = &dir[..dir.len() - 1];
    let d: Vec<&str> = dst.split('/').collect();
    let mut i = 0;
    while i < dir.len() && i < d.len() - 1 && dir[i] == d[i] {
        i += 1;
    }
    let mut o: Vec<&str> = vec![".."; dir.len() - i];
    o.extend(&d[i..]);
    o.join("/")
}
/// Rewrites a package with other slide part names, relationship ids, target spellings and slide order.
/// Returns, for each slide of the result, its index in the original.
pub fn foreignize(p: &mut Pkg, s: &mut Src) -> Result<Vec<usize>, String> {
    let slides = p.slide_paths()?;
    let n = slides.len();
    // new part names
    let mut nums: Vec<usize> = (0..n).map(|i| i + 1 + if i % 2 == 1 { 10 } else { 0 }).collect();
    shuffle(s, &mut nums);
    let mut name: BTreeMap<String, String> = BTreeMap::new();
    if s.chance(70) {
        for (i, p) in slides.iter().enumerate() {
            name.insert(p.clone(), format!("ppt/slides/slide{}.xml", nums[i]));
        }
    }
    let ren = |q: &str| name.get(q).cloned().unwrap_or(q.to_string());
    // all relationships, resolved before anything moves
    let mut rels: BTreeMap<String, Vec<Rel>> = BTreeMap::new();
    for k in p.parts.keys().filter(|k| k.ends_with(".rels")).cloned().collect::<Vec<_>>() {
        let src = opc::rels_source(&k);
        let mut v = opc::parse_rels(&p.xml(&k)?, &k)?;
        for r in &mut v {
            if r.external {
                continue;
            }
            let (_, frag) = r.target.split_once('#').map(|(a, b)| (a, format!("#{b}"))).unwrap_or((&r.target, String::new()));
            let dst = ren(&opc::resolve(&src, &r.target));
            let nsrc = ren(&src);
            r.target = if !src.is_empty() && s.chance(30) { format!("/{dst}") } else { relative(&nsrc, &dst) } + &frag;
        }
        if s.bool() {
            shuffle(s, &mut v);
        }
        rels.insert(ren(&src), v);
        p.parts.remove(&k);
    }
    // parts
    let old = std::mem::take(&mut p.parts);
    for (k, v) in old {
        p.parts.insert(ren(&k), v);
    }
    p.order = p.parts.keys().cloned().collect();
    // content types
    let mut ct = p.str("[Content_Types].xml")?.to_string();
    for (i, a) in name.keys().enumerate() {
        ct = ct.replace(&format!("\"/{a}\""), &format!("\"\u{1}{i}\""));
    }
    for (i, b) in name.values().enumerate() {
        ct = ct.replace(&format!("\"\u{1}{i}\""), &format!("\"/{b}\""));
    }
    p.parts.insert("[Content_Types].xml".into(), ct.into_bytes());
    // ids and order in presentation.xml
    let main = "ppt/presentation.xml";
    let mut m = p.str(main)?.to_string();
    if let Some(v) = rels.get_mut(main) {
        if s.chance(70) {
            let mut ids: Vec<String> = (0..v.len()).map(|i| if i % 3 == 2 { format!("R{i}x") } else { format!("rId{}", i + 1 + i / 4) }).collect();
            shuffle(s, &mut ids);
            for (i, r) in v.iter_mut().enumerate() {
                m = m.replace(&format!("=\"{}\"", r.id), &format!("=\"\u{1}{i}\""));
                r.id = ids[i].clone();
            }
            for (i, id) in ids.iter().enumerate() {
                m = m.replace(&format!("=\"\u{1}{i}\""), &format!("=\"{id}\""));
            }
        }
    }
    let mut perm: Vec<usize> = (0..n).collect();
    if s.chance(70) && n > 1 {
        shuffle(s, &mut perm);
        if let (Some(a), Some(b)) = (m.find("<p:sldIdLst>"), m.find("</p:sldIdLst>")) {
            let a = a + "<p:sldIdLst>".len();
            let es: Vec<String> = m[a..b].split("<p:sldId ").skip(1).map(|e| format!("<p:sldId {}", e.trim())).collect();
            if es.len() == n {
                let l: String = perm.iter().map(|&i| es[i].clone() + "\n").collect();
                m = format!("{}{}{}", &m[..a], l, &m[b..]);
            } else {
                return Err(format!("{} sldId entries for {n} slides", es.len()));
            }
        }
    }
    p.parts.insert(main.into(), m.into_bytes());
    for (src, v) in rels {
        p.put(&opc::rels_path(&src), rels_xml(&v));
    }
    Ok(perm)
}

// ---------------------------------------------------------------- hand-written slides
#[derive(Debug, Clone)]
pub enum Piece {
    Run(FRun),
    Break,
    Field(String),
}
#[derive(Debug, Clone, Default)]
pub struct FRun {
    pub text: String,
    pub b: Option<&'static str>,
    pub i: Option<&'static str>,
    pub u: Option<&'static str>,
    pub sz: Option<u32>,
    pub fill: Option<String>,
    pub outline: Option<String>,
    pub cdata: bool,
}
#[derive(Debug, Clone, Default)]
pub struct FPara {
    pub lvl: Option<u32>,
    pub pieces: Vec<Piece>,
}
impl FPara {
    pub fn text(&self) -> String {
        self.pieces
            .iter()
            .map(|p| match p {
                Piece::Run(r) => r.text.clone(),
                Piece::Break => "\n".into(),
                Piece::Field(t) => t.clone(),
            })
            .collect()
    }
}
#[derive(Debug, Clone, Default)]
pub struct FShape {
    pub name: String,
    pub ph: Option<Option<&'static str>>,
    pub prst: Option<&'static str>,
    pub xfrm: Option<[i64; 4]>,
    pub paras: Vec<FPara>,
    pub has_body: bool,
}
#[derive(Debug, Clone, Default)]
pub struct FCell {
    pub paras: Vec<FPara>,
    pub row_span: u32,
    pub col_span: u32,
    pub h: bool,
    pub v: bool,
}
#[derive(Debug, Clone)]
pub enum FItem {
    Shape(FShape),
    Table(Vec<Vec<FCell>>),
    Group(Vec<FItem>),
    Pic,
}
fn esc_var(s: &mut Src, t: &str) -> String {
    let mode = s.below(4);
    let mut o = String::new();
    for c in t.chars() {
        match c {
            '&' => o += "&amp;",
            '<' => o += "&lt;",
            '>' => o += "&gt;",
            c if mode == 1 && !c.is_ascii() => o += &format!("&#x{:X};", c as u32),
            c if mode == 2 && c.is_ascii_alphabetic() => o += &format!("&#{};", c as u32),
            '"' if mode == 3 => o += "&quot;",
            c => o.push(c),
        }
    }
    o
}
/// Text for hand-written slides: no carriage returns (an XML reader folds them) and only XML characters.
pub fn ftext(s: &mut Src) -> String {
    match s.below(8) {
        0 => " ".into(),
        1 => "  \t ".into(),
        2 => String::new(),
        _ => gen::text0(s).chars().filter(|c| *c != '\r' && *c != '\n' && xml::is_xml_char(*c)).collect(),
    }
}
pub fn fpara(s: &mut Src) -> FPara {
    let lvl = s.opt(30, |s| s.below(9) as u32);
    let pieces = s.vec(0, 4, |s| match s.below(8) {
        0 => Piece::Break,
        1 => Piece::Field(ftext(s)),
        _ => {
            let t = ftext(s);
            Piece::Run(FRun {
                cdata: s.chance(15) && !t.contains("]]>"),
                text: t,
                b: s.opt(30, |s| *s.pick(&["1", "0", "true", "false"])),
                i: s.opt(30, |s| *s.pick(&["1", "0", "true", "false"])),
                u: s.opt(40, |s| *s.pick(&["sng", "none", "dbl", "wavy"])),
                sz: s.opt(40, |s| s.range(100, 400000) as u32),
                fill: s.opt(40, gen::hex),
                outline: s.opt(20, gen::hex),
            })
        }
    });
    FPara { lvl, pieces }
}
const PRSTS: &[&str] = &["rect", "ellipse", "roundRect", "star5", "rightArrow", "cloud", "heart", "trapezoid", "line"];
pub fn fshape(s: &mut Src) -> FShape {
    let ph = s.opt(55, |s| *s.pick(&[None, Some("title"), Some("ctrTitle"), Some("subTitle"), Some("body"), Some("obj"), Some("dt"), Some("ftr"), Some("sldNum"), Some("title")]));
    let name = match ph {
        Some(Some("title")) | Some(Some("ctrTitle")) => "Title 1",
        Some(Some("subTitle")) => "Subtitle 2",
        Some(Some("dt")) => "Date Placeholder 3",
        Some(Some("ftr")) => "Footer Placeholder 4",
        Some(Some("sldNum")) => "Slide Number Placeholder 5",
        Some(_) => "Content Placeholder 2",
        None => *s.pick(&["TextBox 7", "Rectangle 3", "Oval 9 & \"co\"", "图形 4"]),
    };
    FShape {
        name: name.into(),
        prst: if ph.is_some() && s.bool() { None } else { Some(*s.pick(PRSTS)) },
        xfrm: if ph.is_some() && s.bool() { None } else { Some([s.range(-1000000, 9000000), s.range(-1000, 6000000), s.range(0, 9000000), s.range(0, 6000000)]) },
        ph,
        has_body: s.chance(90),
        paras: s.vec(1, 4, fpara),
    }
}
pub fn ftable(s: &mut Src) -> Vec<Vec<FCell>> {
    let (r, c) = (s.len(1, 4), s.len(1, 4));
    let mut t: Vec<Vec<FCell>> = (0..r).map(|_| (0..c).map(|_| FCell { paras: s.vec(1, 3, fpara), row_span: 1, col_span: 1, h: false, v: false }).collect()).collect();
    if s.chance(40) {
        let (r0, c0) = (s.usize(r), s.usize(c));
        let (rs, cs) = (1 + s.usize(r - r0), 1 + s.usize(c - c0));
        for i in r0..r0 + rs {
            for j in c0..c0 + cs {
                let x = &mut t[i][j];
                x.h = j > c0;
                x.v = i > r0;
                if i > r0 || j > c0 {
                    x.paras = vec![FPara::default()];
                }
            }
        }
        t[r0][c0].row_span = rs as u32;
        t[r0][c0].col_span = cs as u32;
    }
    t
}
pub fn fitems(s: &mut Src, depth: usize) -> Vec<FItem> {
    s.vec(0, 5, |s| match s.below(10) {
        0 | 1 => FItem::Table(ftable(s)),
        2 if depth < 2 => FItem::Group(fitems(s, depth + 1)),
        3 => FItem::Pic,
        _ => FItem::Shape(fshape(s)),
    })
}
fn para_xml(s: &mut Src, p: &FPara, ws: bool) -> String {
    let nl = if ws { "\n      " } else { "" };
    let mut o = String::from("<a:p>");
    o += nl;
    if let Some(l) = p.lvl {
        o += &format!("<a:pPr lvl=\"{l}\"/>");
    }
    for q in &p.pieces {
        o += nl;
        match q {
            Piece::Break => o += "<a:br/>",
            Piece::Field(t) => o += &format!("<a:fld id=\"{{B6F15528-21DE-4FAA-801E-634DDDAF4B2B}}\" type=\"slidenum\"><a:rPr lang=\"en-US\"/><a:t>{}</a:t></a:fld>", esc_var(s, t)),
            Piece::Run(r) => {
                let mut a = String::new();
                for (n, v) in [("i", r.i), ("b", r.b), ("u", r.u)] {
                    if let Some(v) = v {
                        a += &format!(" {n}='{v}'");
                    }
                }
                if let Some(z) = r.sz {
                    a += &format!(" sz=\"{z}\"");
                }
                let mut k = String::new();
                if let Some(c) = &r.outline {
                    k += &format!("<a:ln w=\"12700\"><a:solidFill><a:srgbClr val=\"{c}\"/></a:solidFill></a:ln>");
                }
                if let Some(c) = &r.fill {
                    k += &format!("<a:solidFill><a:srgbClr val=\"{c}\"/></a:solidFill>");
                }
                let t = if r.cdata { format!("<![CDATA[{}]]>", r.text) } else { esc_var(s, &r.text) };
                let rpr = if a.is_empty() && k.is_empty() { String::new() } else { format!("<a:rPr lang=\"en-US\"{a}>{k}</a:rPr>") };
                o += &format!("<a:r>{rpr}{nl}<a:t>{t}</a:t></a:r>");
            }
        }
    }
    if s.chance(30) {
        o += "<a:endParaRPr lang=\"en-US\" b=\"1\"/>";
    }
    o + nl + "</a:p>"
}
pub fn items_xml(s: &mut Src, v: &[FItem], ws: bool, id: &mut u32) -> String {
    let nl = if ws { "\n  " } else { "" };
    let mut o = String::new();
    for it in v {
        *id += 1;
        o += nl;
        if s.chance(8) {
            o += "<!-- c <a:t>no</a:t> -->";
        }
        match it {
            FItem::Pic => o += &format!("<p:pic><p:nvPicPr><p:cNvPr id=\"{id}\" name=\"Picture {id}\"/><p:cNvPicPr/><p:nvPr/></p:nvPicPr><p:blipFill><a:stretch><a:fillRect/></a:stretch></p:blipFill><p:spPr/></p:pic>"),
            FItem::Group(k) => {
                let gid = *id;
                let inner = items_xml(s, k, ws, id);
                o += &format!("<p:grpSp><p:nvGrpSpPr><p:cNvPr id=\"{gid}\" name=\"Group {gid}\"/><p:cNvGrpSpPr/><p:nvPr/></p:nvGrpSpPr><p:grpSpPr/>{inner}</p:grpSp>");
            }
            FItem::Shape(h) => {
                let ph = match &h.ph {
                    None => String::new(),
                    Some(None) => "<p:ph idx=\"1\"/>".into(),
                    Some(Some(t)) => format!("<p:ph type=\"{t}\"/>"),
                };
                let x = h.xfrm.map(|[x, y, w, hh]| format!("<a:xfrm><a:off x=\"{x}\" y=\"{y}\"/><a:ext cx=\"{w}\" cy=\"{hh}\"/></a:xfrm>")).unwrap_or_default();
                let g = h.prst.map(|p| format!("<a:prstGeom prst=\"{p}\"><a:avLst/></a:prstGeom>")).unwrap_or_default();
                let b = if h.has_body {
                    let ps: String = h.paras.iter().map(|p| para_xml(s, p, ws)).collect();
                    format!("<p:txBody><a:bodyPr/><a:lstStyle/>{ps}</p:txBody>")
                } else {
                    String::new()
                };
                o += &format!("<p:sp><p:nvSpPr><p:cNvPr id=\"{id}\" name=\"{}\"/><p:cNvSpPr/><p:nvPr>{ph}</p:nvPr></p:nvSpPr><p:spPr>{x}{g}</p:spPr>{b}</p:sp>", esc(&h.name));
            }
            FItem::Table(t) => {
                let cols = t[0].len();
                let grid: String = (0..cols).map(|_| "<a:gridCol w=\"1000000\"/>").collect();
                let mut rows = String::new();
                for r in t {
                    rows += "<a:tr h=\"370840\">";
                    for c in r {
                        let mut a = String::new();
                        if c.row_span > 1 {
                            a += &format!(" rowSpan=\"{}\"", c.row_span);
                        }
                        if c.col_span > 1 {
                            a += &format!(" gridSpan=\"{}\"", c.col_span);
                        }
                        if c.h {
                            a += " hMerge=\"1\"";
                        }
                        if c.v {
                            a += " vMerge=\"true\"";
                        }
                        let ps: String = c.paras.iter().map(|p| para_xml(s, p, ws)).collect();
                        rows += &format!("<a:tc{a}><a:txBody><a:bodyPr/><a:lstStyle/>{ps}</a:txBody><a:tcPr/></a:tc>");
                    }
                    rows += "</a:tr>";
                }
                o += &format!("<p:graphicFrame><p:nvGraphicFramePr><p:cNvPr id=\"{id}\" name=\"Table {id}\"/><p:cNvGraphicFramePr/><p:nvPr/></p:nvGraphicFramePr><p:xfrm><a:off x=\"0\" y=\"0\"/><a:ext cx=\"1\" cy=\"1\"/></p:xfrm><a:graphic><a:graphicData uri=\"http://schemas.openxmlformats.org/drawingml/2006/table\"><a:tbl><a:tblPr/><a:tblGrid>{grid}</a:tblGrid>{rows}</a:tbl></a:graphicData></a:graphic></p:graphicFrame>");
            }
        }
    }
    o
}
pub fn slide_xml(s: &mut Src, v: &[FItem]) -> String {
    let ws = s.bool();
    let mut id = 1;
    let items = items_xml(s, v, ws, &mut id);
    let pre = *s.pick(&["<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n", "", "<?xml version='1.0' encoding='utf-8'?><!-- x -->"]);
    format!("{pre}<p:sld xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" xmlns:r=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships\" xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\"><p:cSld><p:spTree><p:nvGrpSpPr><p:cNvPr id=\"1\" name=\"\"/><p:cNvGrpSpPr/><p:nvPr/></p:nvGrpSpPr><p:grpSpPr/>{items}</p:spTree></p:cSld><p:clrMapOvr><a:masterClrMapping/></p:clrMapOvr></p:sld>")
}
/// All shapes and tables in document order, groups flattened.
pub fn flatten(v: &[FItem]) -> (Vec<&FShape>, Vec<&Vec<Vec<FCell>>>) {
    let (mut a, mut b) = (vec![], vec![]);
    for i in v {
        match i {
            FItem::Shape(x) => a.push(x),
            FItem::Table(t) => b.push(t),
            FItem::Group(k) => {
                let (x, y) = flatten(k);
                a.extend(x);
                b.extend(y);
            }
            FItem::Pic => {}
        }
    }
    (a, b)
}

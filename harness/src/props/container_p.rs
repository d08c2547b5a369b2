//! C07: the package container against a map of parts. C11: compression keeps what is shown.
use super::deck_p::*;
use super::repair_p::changed;
use crate::engine::*;
use crate::foreign::*;
use crate::gen;
use crate::opc::{self, Pkg, Rel};
use crate::xml::{El, Node};
use ppt_rs::opc::compress::*;
use ppt_rs::opc::Package;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Cursor;

fn er<T>(r: ppt_rs::exc::Result<T>) -> Result<T, Fail> {
    r.map_err(|x| Fail { msg: x.to_string() })
}
fn name(s: &mut Src) -> String {
    match s.below(8) {
        0 => "[Content_Types].xml".into(),
        1 => "_rels/.rels".into(),
        2 => format!("ppt/slides/slide{}.xml", s.below(12)),
        3 => format!("ppt/media/image{}.{}", s.below(4), s.pick(&["png", "jpeg", "bin"])),
        4 => s.pick(&["a", "a/b", "a/b/c", "a.b", "ä/ö.xml", "日本/語.xml", "x y.xml", "a+b%20.xml", "-", ".x", "docProps/app.xml"]).to_string(),
        5 => {
            // long names
            let n = s.len(1, 300);
            format!("long/{}", "n".repeat(n))
        }
        _ => {
            let k = s.len(1, 3);
            (0..k).map(|_| gen::word(s).chars().filter(|c| c.is_alphanumeric()).collect::<String>() + "w").collect::<Vec<_>>().join("/")
        }
    }
}
fn content(s: &mut Src) -> Vec<u8> {
    match s.below(7) {
        0 => vec![],
        1 => s.bytes(1, 40),
        2 => s.blob(0, 3000),
        3 => vec![s.below(256) as u8; s.len(0, 200_000)],
        4 => gen::text0(s).into_bytes(),
        5 => b"PK\x05\x06\0\0\0\0\0\0\0\0".to_vec(),
        _ => s.blob(0, 70_000),
    }
}
fn same(p: &Package, m: &BTreeMap<String, Vec<u8>>, when: &str) -> Res {
    let mut paths = p.part_paths();
    paths.sort();
    ensure!(paths == m.keys().map(|k| k.as_str()).collect::<Vec<_>>(), "{when}: parts {paths:?}, expected {:?}", m.keys());
    ensure!(p.part_count() == m.len(), "{when}: count {} of {}", p.part_count(), m.len());
    for (k, v) in m {
        ensure!(p.has_part(k) && p.get_part(k) == Some(&v[..]), "{when}: content of {k} differs");
        ensure!(p.get_part_string(k) == Some(String::from_utf8_lossy(v).into_owned()), "{when}: text of {k} differs");
    }
    Ok(())
}
/// writer and sink that fails at a chosen operation
struct Failing {
    inner: Cursor<Vec<u8>>,
    left: usize,
}
impl Failing {
    fn step(&mut self) -> std::io::Result<()> {
        if self.left == 0 {
            return Err(std::io::Error::other("full"));
        }
        self.left -= 1;
        Ok(())
    }
}
impl std::io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.step()?;
        let n = b.len().min(4096);
        self.inner.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.step()
    }
}
impl std::io::Seek for Failing {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.step()?;
        self.inner.seek(p)
    }
}
fn model(c: &mut Ctx) -> Res {
    let mut m: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut p = Package::new();
    if c.s.chance(50) {
        // an archive written by someone else
        let k = c.s.len(0, 8);
        for _ in 0..k {
            let (n, v) = (name(&mut c.s), content(&mut c.s));
            m.insert(n, v);
        }
        let mut order: Vec<String> = m.keys().cloned().collect();
        shuffle(&mut c.s, &mut order);
        let mut b = Pkg { parts: m.clone(), order }.write(c.s.bool());
        if c.s.chance(20) {
            // bytes in front, as in a self-extracting archive
            let mut w = c.s.bytes(1, 50);
            w.extend(&b);
            b = w;
        }
        p = er(Package::open_reader(Cursor::new(&b)))?;
        c.label("opened");
        same(&p, &m, "opened")?;
    }
    let n = c.s.len(1, 14);
    let mut log = vec![];
    let mut saved = 0;
    for i in 0..n {
        let w = match c.s.below(8) {
            0 | 1 | 2 => {
                let (k, v) = (name(&mut c.s), content(&mut c.s));
                p.add_part(k.clone(), v.clone());
                let l = v.len();
                let o = m.insert(k.clone(), v).is_some();
                format!("add {k} {l}{}", if o { " over" } else { "" })
            }
            3 => {
                let k = if m.is_empty() || c.s.chance(20) { name(&mut c.s) } else { c.s.pick(&m.keys().cloned().collect::<Vec<_>>()).clone() };
                let a = p.remove_part(&k);
                let b = m.remove(&k);
                ensure!(a == b, "remove {k}: returned {:?} bytes", a.map(|v| v.len()));
                format!("remove {k}")
            }
            4 => {
                let k = if m.is_empty() || c.s.chance(20) { name(&mut c.s) } else { c.s.pick(&m.keys().cloned().collect::<Vec<_>>()).clone() };
                let add = c.s.bytes(0, 5);
                match (p.get_part_mut(&k), m.get_mut(&k)) {
                    (Some(a), Some(b)) => {
                        a.extend(&add);
                        b.extend(&add);
                    }
                    (None, None) => {}
                    (a, b) => return fail(format!("get_part_mut {k}: {} / {}", a.is_some(), b.is_some())),
                }
                format!("append to {k}")
            }
            5 | 6 => {
                let f = c.file(&format!("p{i}.zip"));
                let b = if c.s.bool() {
                    if c.s.bool() {
                        std::fs::write(&f, vec![7u8; 400_000]).ok();
                    }
                    er(p.save(&f))?;
                    p = er(Package::open(&f))?;
                    std::fs::read(&f).map_err(|e| Fail { msg: e.to_string() })?
                } else {
                    let mut w = Cursor::new(vec![]);
                    er(p.save_writer(&mut w))?;
                    let b = w.into_inner();
                    p = er(Package::open_reader(Cursor::new(&b)))?;
                    b
                };
                saved += 1;
                let q = e(Pkg::read(&b))?;
                ensure!(q.parts == m, "saved archive differs in {:?}", changed(&Pkg { parts: m.clone(), order: vec![] }, &q));
                let mut w = Cursor::new(vec![]);
                er(p.save_writer(&mut w))?;
                // the same up to time stamps
                ensure!(e(Pkg::read(&w.into_inner()))?.order == q.order, "the same package saved twice has its parts in another order");
                "save and reopen".to_string()
            }
            _ => {
                // a destination that fails is reported
                let left = c.s.usize(40);
                let mut w = Failing { inner: Cursor::new(vec![]), left };
                let r = guard(|| p.save_writer(&mut w))?;
                let used = w.left > 0;
                if r.is_ok() {
                    let q = e(Pkg::read(w.inner.get_ref()))?;
                    ensure!(q.parts == m, "writer failed after {left} operations, save reported success, archive differs");
                } else {
                    ensure!(!used, "save failed although the destination never did");
                }
                format!("save to a destination that fails after {left}")
            }
        };
        log.push(w);
        let last = log.last().unwrap().clone();
        same(&p, &m, &last)?;
    }
    c.note(|| log.join("; "));
    c.nontrivial(log.len() > 1 && saved > 0);
    Ok(())
}
pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "a history of at least two operations with a save and reopen in it",
        assumptions: &["part names are distinct also without regard to case is not required of the container"],
        subs: vec![Sub { name: "model", quick: 5000, run: model }],
        probes: vec![],
    }
}

// ---------------------------------------------------------------- compression
/// Tree without the white space between elements.
pub fn canon_ws(x: &El) -> String {
    fn strip(x: &El) -> El {
        let mut o = El { kids: vec![], ..x.clone() };
        let has = x.els().next().is_some();
        let mut text = String::new();
        for k in &x.kids {
            match k {
                Node::Text(t) => text += t,
                Node::El(c) => {
                    if !text.is_empty() && !(has && text.trim().is_empty()) {
                        o.kids.push(Node::Text(std::mem::take(&mut text)));
                    }
                    text.clear();
                    o.kids.push(Node::El(strip(c)));
                }
            }
        }
        if !text.is_empty() && !(has && text.trim().is_empty()) {
            o.kids.push(Node::Text(text));
        }
        o
    }
    strip(x).canon()
}
/// White space and comments between the tags of a part, text left alone.
fn spread(s: &mut Src, x: &str) -> String {
    let mut o = String::with_capacity(x.len() * 2);
    let mut rest = x;
    let pat = s.below(4);
    while let Some(i) = rest.find("><") {
        let tag = &rest[..i + 1];
        let st = tag.rfind('<').map(|j| &tag[j..]).unwrap_or("");
        let start = !st.starts_with("</") && !st.ends_with("/>") && !st.starts_with("<?");
        o += tag;
        rest = &rest[i + 1..];
        if !(start && rest.starts_with("</")) {
            match pat {
                0 => o += "\n  ",
                1 => o += "\r\n\t",
                2 => o += " <!-- a > b <c/> \"' --> ",
                _ => {}
            }
        }
    }
    o + rest
}
fn add_rel(p: &mut Pkg, src: &str, kind: &str, dst: &str) -> Result<(), String> {
    let mut v = p.rels(src)?;
    let base = if kind.contains("thumbnail") { "http://schemas.openxmlformats.org/package/2006/relationships/metadata" } else { "http://schemas.openxmlformats.org/officeDocument/2006/relationships" };
    v.push(Rel { id: format!("rIdX{}", v.len()), typ: format!("{base}/{kind}"), target: relative(src, dst), external: false });
    p.put(&opc::rels_path(src), rels_xml(&v));
    Ok(())
}
fn add_type(p: &mut Pkg, part: &str, ct: &str) -> Result<(), String> {
    let x = p.str("[Content_Types].xml")?.replace("</Types>", &format!("<Override PartName=\"/{part}\" ContentType=\"{ct}\"/></Types>"));
    p.parts.insert("[Content_Types].xml".into(), x.into_bytes());
    Ok(())
}
fn compression(c: &mut Ctx) -> Res {
    let rich = c.s.chance(85);
    let mut d = gen::deck(&mut c.s, gen::text0, rich);
    if c.s.chance(40) {
        let n = d.slides.len();
        d.settings = Some(gen::settings(&mut c.s, n));
        // signatures only hold for the bytes that were signed
    }
    let mut p = e(Pkg::read(&build(&d)?))?;
    if c.s.chance(40) {
        e(foreignize(&mut p, &mut c.s))?;
        c.label("respelled");
    }
    let slides = e(p.slide_paths())?;
    // slides by hand, where nothing refers to other parts
    for s in &slides {
        if c.s.chance(20) && crate::damage::refs(&p, s).is_empty() {
            let it = fitems(&mut c.s, 2);
            let x = slide_xml(&mut c.s, &it);
            p.parts.insert(s.clone(), x.into_bytes());
            c.label("hand-written slide");
        }
    }
    // media nothing uses, media only a layout or master uses
    let mut unused = BTreeSet::new();
    for i in 0..c.s.len(0, 2) {
        let n = format!("ppt/media/spare{i}.dat");
        let v = c.s.blob(0, 400);
        p.put(&n, v);
        e(add_type(&mut p, &n, "image/png"))?;
        if c.s.chance(40) {
            let src = c.s.pick(&["ppt/slideLayouts/slideLayout1.xml", "ppt/slideMasters/slideMaster1.xml", "ppt/theme/theme1.xml"]).to_string();
            e(add_rel(&mut p, &src, "image", &n))?;
            c.label("media of a layout");
        } else {
            unused.insert(n);
            c.label("unused media");
        }
    }
    if c.s.chance(30) {
        p.put("ppt/comments/comment1.xml", "<p:cmLst xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\"/>");
        p.put("ppt/commentAuthors.xml", "<p:cmAuthorLst xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\"/>");
        e(add_type(&mut p, "ppt/comments/comment1.xml", "application/vnd.openxmlformats-officedocument.presentationml.comments+xml"))?;
        e(add_type(&mut p, "ppt/commentAuthors.xml", "application/vnd.openxmlformats-officedocument.presentationml.commentAuthors+xml"))?;
        let s = c.s.pick(&slides).clone();
        e(add_rel(&mut p, &s, "comments", "ppt/comments/comment1.xml"))?;
        e(add_rel(&mut p, "ppt/presentation.xml", "commentAuthors", "ppt/commentAuthors.xml"))?;
        c.label("comments");
    }
    if c.s.chance(30) {
        p.put("docProps/thumbnail.jpeg", vec![0xFFu8, 0xD8, 1, 2]);
        e(add_type(&mut p, "docProps/thumbnail.jpeg", "image/jpeg"))?;
        e(add_rel(&mut p, "", "thumbnail", "docProps/thumbnail.jpeg"))?;
        c.label("thumbnail");
    }
    if c.s.chance(60) {
        for k in p.parts.keys().cloned().collect::<Vec<_>>() {
            if k.ends_with(".xml") && c.s.chance(50) {
                if let Ok(x) = p.str(&k) {
                    // hand-written slides have their own white space and character data
                    if !x.contains("CDATA") && !x.contains("<!--") {
                        let y = spread(&mut c.s, &x.to_string());
                        p.parts.insert(k, y.into_bytes());
                    }
                }
            }
        }
        c.label("indented");
    }
    let level = match c.s.below(4) {
        0 => CompressionLevel::Light,
        1 => CompressionLevel::Medium,
        2 => CompressionLevel::Aggressive,
        _ => CompressionLevel::Custom(c.s.below(101) as u8),
    };
    let o = match c.s.below(5) {
        0 => CompressionOptions::default(),
        1 => CompressionOptions::maximum(),
        2 => CompressionOptions::web(),
        _ => CompressionOptions::new()
            .with_level(level)
            .with_unused_media_removal(c.s.bool())
            .with_properties_removal(c.s.bool())
            .with_notes_removal(c.s.bool())
            .with_comments_removal(c.s.bool())
            .with_xml_optimization(c.s.bool())
            .with_target_size(if c.s.bool() { 0 } else { c.s.usize(200_000) }),
    };
    c.note(|| format!("{} slides, {} parts, {o:?}", slides.len(), p.parts.len()));
    c.nontrivial(true);
    let b = p.write(c.s.bool());
    let (out, r) = er(guard(|| compress_pptx_in_memory(&b, &o))?)?;
    // the numbers
    ensure!(r.original_size == b.len() && r.compressed_size == out.len(), "sizes {} -> {}, really {} -> {}", r.original_size, r.compressed_size, b.len(), out.len());
    let pct = (b.len() as f64 - out.len() as f64) / b.len() as f64 * 100.0;
    ensure!((r.reduction_percent - pct).abs() < 1e-6, "reduction {} %, really {pct} %", r.reduction_percent);
    ensure!(r.target_achieved == (o.target_size == 0 || out.len() <= o.target_size), "target_achieved {} for {} of {}", r.target_achieved, out.len(), o.target_size);
    let dropped = |n: &str| {
        (o.remove_unused_media && unused.contains(n))
            || (o.remove_properties && ["docProps/core.xml", "docProps/app.xml", "docProps/custom.xml", "docProps/thumbnail.jpeg"].contains(&n))
            || (o.remove_notes && n.starts_with("ppt/notesSlides/"))
            || (o.remove_comments && (n.starts_with("ppt/comments/") || n == "ppt/commentAuthors.xml"))
    };
    ensure!(r.unused_media_removed == if o.remove_unused_media { unused.len() } else { 0 }, "{} media removed, {} unused", r.unused_media_removed, unused.len());
    // the parts
    let q = e(Pkg::read(&out))?;
    for n in p.parts.keys() {
        ensure!(q.parts.contains_key(n) != dropped(n), "{n} {}", if dropped(n) { "should be gone" } else { "is gone" });
    }
    for (n, v) in &q.parts {
        let Some(old) = p.parts.get(n) else { return fail(format!("new part {n}")) };
        if n == "[Content_Types].xml" || n.ends_with(".rels") {
            continue;
        }
        if n.ends_with(".xml") {
            if !o.optimize_xml {
                ensure!(old == v, "{n} changed without XML optimisation");
            }
            ensure!(canon_ws(&e(p.xml(n))?) == canon_ws(&e(q.xml(n))?), "{n} no longer says the same");
            ensure!(v.len() <= old.len(), "{n} grew");
        } else {
            ensure!(old == v, "{n} changed");
        }
    }
    for n in q.parts.keys().filter(|n| n.ends_with(".rels")) {
        let src = opc::rels_source(n);
        let show = |v: Vec<Rel>| v.into_iter().filter(|r| r.external || !dropped(&opc::resolve(&src, &r.target))).map(|r| format!("{r:?}")).collect::<Vec<_>>();
        let z = e(q.rels(&src))?;
        ensure!(z.iter().all(|r| r.external || !dropped(&opc::resolve(&src, &r.target))), "{n} still leads to a removed part");
        ensure!(show(z.clone()) == show(e(p.rels(&src))?), "{n}: relationships changed");
    }
    let (a, z) = (e(opc::content_types(&p))?, e(opc::content_types(&q))?);
    for n in q.parts.keys() {
        ensure!(a.of(n) == z.of(n), "{n}: content type changed");
    }
    if unused.is_empty() || o.remove_unused_media {
        e(opc::check_pkg(&q))?;
    }
    // again changes nothing
    let (out2, r2) = er(compress_pptx_in_memory(&out, &o))?;
    ensure!(r2.unused_media_removed == 0, "second run removes media");
    ensure!(e(Pkg::read(&out2))?.parts == q.parts, "second run changes {:?}", changed(&q, &e(Pkg::read(&out2))?));
    // files
    let (fi, fo) = (c.file("in.pptx"), c.file("out.pptx"));
    std::fs::write(&fi, &b).map_err(|e| Fail { msg: e.to_string() })?;
    let target = if c.s.chance(20) { &fi } else { &fo };
    let r3 = er(compress_pptx(&fi, target, &o))?;
    ensure!(e(Pkg::read(&std::fs::read(target).unwrap_or_default()))?.parts == q.parts, "file and memory differ");
    ensure!(r3.original_size == r.original_size && r3.compressed_size == r.compressed_size && r3.unused_media_removed == r.unused_media_removed, "file result {r3:?}, memory {r:?}");
    // the analysis adds up
    std::fs::write(&fi, &b).map_err(|e| Fail { msg: e.to_string() })?;
    let an = er(analyze_pptx(&fi))?;
    let sum = |f: &dyn Fn(&str) -> bool| p.parts.iter().filter(|x| f(x.0)).map(|x| x.1.len()).sum::<usize>();
    let img = |n: &str| n.starts_with("ppt/media/") && [".png", ".jpg", ".jpeg", ".gif", ".bmp", ".tiff", ".tif", ".svg", ".webp", ".emf", ".wmf"].iter().any(|x| n.ends_with(x));
    let xmlp = |n: &str| !n.starts_with("ppt/media/") && (n.ends_with(".xml") || n.ends_with(".rels"));
    ensure!(an.total_size == b.len(), "analysis total {}", an.total_size);
    ensure!(an.images_size == sum(&img) && an.image_count == p.parts.keys().filter(|n| img(n)).count(), "analysis images {} / {}", an.image_count, an.images_size);
    ensure!(an.xml_size == sum(&xmlp), "analysis xml {}", an.xml_size);
    ensure!(an.images_size + an.xml_size + an.other_size == sum(&|_| true), "analysis does not add up: {an:?}");
    ensure!(an.slide_count == slides.len(), "analysis slides {}", an.slide_count);
    ensure!(an.media_count == p.parts.keys().filter(|n| n.starts_with("ppt/media/") && !img(n)).count(), "analysis other media {}", an.media_count);
    Ok(())
}
/// The summary of an analysis says its numbers.
fn summary(c: &mut Ctx) -> Res {
    let mut n = |c: &mut Ctx| -> usize { [c.s.usize(2000), c.s.usize(3_000_000), c.s.usize(5_000_000_000), c.s.usize(30) * 1024 * 1024][c.s.usize(4)] };
    let a = ppt_rs::opc::compress::PptxAnalysis {
        total_size: n(c),
        images_size: n(c),
        xml_size: n(c),
        other_size: n(c),
        image_count: c.s.usize(300),
        slide_count: c.s.usize(300),
        media_count: c.s.usize(300),
    };
    c.note(|| format!("{a:?}"));
    c.nontrivial(a.total_size > 1024);
    let t = guard(|| a.summary())?;
    let line = |k: &str| t.lines().find(|l| l.to_lowercase().contains(k)).map(str::to_string).ok_or_else(|| Fail { msg: format!("no line about {k}: {t}") });
    // the sizes of a line, in bytes with what rounding may hide
    let sizes = |l: &str| -> Vec<(f64, f64)> {
        let w: Vec<&str> = l.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.')).filter(|x| !x.is_empty()).collect();
        w.iter()
            .enumerate()
            .filter_map(|(i, u)| {
                let f = match *u {
                    "B" => 1.0,
                    "KB" => 1024.0,
                    "MB" => 1024.0 * 1024.0,
                    "GB" => 1024.0 * 1024.0 * 1024.0,
                    _ => return None,
                };
                Some((w.get(i.wrapping_sub(1)).and_then(|v| v.parse::<f64>().ok()).map_or(f64::NAN, |v| v * f), f / 9.0))
            })
            .collect()
    };
    for (k, v) in [("total", a.total_size), ("images", a.images_size), ("xml", a.xml_size), ("other", a.other_size)] {
        let l = line(k)?;
        let s = sizes(&l);
        ensure!(s.len() == 1 && (s[0].0 - v as f64).abs() <= s[0].1, "{l:?} for {v} bytes");
    }
    for (k, v) in [("images", a.image_count), ("slides", a.slide_count), ("other", a.media_count)] {
        let l = line(k)?;
        ensure!(l.split(|c: char| !c.is_ascii_digit()).any(|d| d == v.to_string()), "{l:?} for {v} of them");
    }
    let p = a.images_percentage();
    let w = if a.total_size == 0 { 0.0 } else { a.images_size as f64 * 100.0 / a.total_size as f64 };
    ensure!((p - w).abs() < 1e-6 * w.max(1.0), "{p} percent, wanted {w}");
    Ok(())
}
/// Two threads compress different packages.
fn threads(c: &mut Ctx) -> Res {
    let mk = |c: &mut Ctx| -> Result<Vec<u8>, Fail> {
        let d = gen::deck(&mut c.s, gen::text0, true);
        build(&d)
    };
    let v: Vec<Vec<u8>> = (0..3).map(|_| mk(c)).collect::<Result<_, _>>()?;
    let o = CompressionOptions::default();
    let want: Vec<Vec<u8>> = v.iter().map(|b| er(compress_pptx_in_memory(b, &o)).map(|x| x.0)).collect::<Result<_, _>>()?;
    c.nontrivial(v[0] != v[1]);
    c.note(|| "three packages at once".into());
    let got: Vec<Option<Vec<u8>>> = std::thread::scope(|s| {
        let h: Vec<_> = v.iter().map(|b| s.spawn(|| compress_pptx_in_memory(b, &CompressionOptions::default()).ok().map(|x| x.0))).collect();
        h.into_iter().map(|h| h.join().ok().flatten()).collect()
    });
    for (i, (a, b)) in want.iter().zip(&got).enumerate() {
        let Some(b) = b else { return fail(format!("package {i} could not be compressed next to others")) };
        ensure!(e(Pkg::read(a))?.parts == e(Pkg::read(b))?.parts, "package {i} compressed next to others differs");
    }
    Ok(())
}
pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "every case compresses a generated package (threads: different packages; summary: more than a kilobyte)",
        assumptions: &["white space between elements carries no meaning, in elements without child elements it does"],
        subs: vec![Sub { name: "compression", quick: 900, run: compression }, Sub { name: "threads", quick: 60, run: threads }, Sub { name: "summary", quick: 5000, run: summary }],
        probes: vec![],
    }
}

//! C27: package parts built by hand say what they were given, and parts read keep what they say.
use super::deck_p;
use crate::engine::*;
use crate::opc::Pkg;
use crate::xml::{self, El};
use crate::{gen, schema};
use ppt_rs::generator::SlideContent;
use ppt_rs::parts::*;
use std::collections::BTreeMap;

fn px(r: Result<String, ppt_rs::exc::PptxError>) -> Result<(String, El), Fail> {
    let x = r.map_err(|e| Fail { msg: format!("to_xml: {e}") })?;
    let e = xml::parse(&x).map_err(|e| Fail { msg: format!("the part is malformed: {e}: {x}") })?;
    Ok((x, e))
}
fn read<P: Part>(x: &str) -> Result<P, Fail> {
    guard(|| P::from_xml(x))?.map_err(|e| Fail { msg: format!("from_xml refuses a part: {e}") })
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    ensure!(got == want, "{what}: {got:?}, wanted {want:?}");
    Ok(())
}
/// One line of text that an attribute can carry.
fn line(s: &mut Src) -> String {
    match s.below(3) {
        0 => gen::words(s),
        _ => gen::text(s),
    }
}

const BASE: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/";
fn known() -> Vec<(RelationshipType, String)> {
    use RelationshipType::*;
    vec![
        (OfficeDocument, format!("{BASE}officeDocument")),
        (Slide, format!("{BASE}slide")),
        (SlideLayout, format!("{BASE}slideLayout")),
        (SlideMaster, format!("{BASE}slideMaster")),
        (Theme, format!("{BASE}theme")),
        (Image, format!("{BASE}image")),
        (Chart, format!("{BASE}chart")),
        (CoreProperties, "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties".into()),
        (ExtendedProperties, format!("{BASE}extended-properties")),
    ]
}
const OTHER: &[&str] = &["hyperlink", "notesSlide", "themeOverride", "chartUserShapes", "slideUpdateInfo", "video", "imageBlob", "customXml", "tableStyles", "presProps", "custom-properties", "slideLayout2"];
fn rel_type(s: &mut Src) -> (RelationshipType, String) {
    if s.chance(50) {
        s.pick(&known()).clone()
    } else {
        let u = match s.below(3) {
            0 => format!("http://schemas.microsoft.com/office/2007/relationships/{}", s.pick(OTHER)),
            1 => format!("urn:x?a=1&b=<{}>", gen::word(s)),
            _ => format!("{BASE}{}", s.pick(OTHER)),
        };
        (RelationshipType::Custom(u.clone()), u)
    }
}
fn target(s: &mut Src) -> String {
    match s.below(4) {
        0 => format!("../media/image{}.png", s.below(20)),
        1 => gen::url(s),
        2 => line(s),
        _ => format!("slides/slide{}.xml", s.below(20)),
    }
}

fn relationships(c: &mut Ctx) -> Res {
    // model: id, type uri, target
    let mut m: Vec<(String, String, String)> = vec![];
    let mut r = if c.s.bool() { Relationships::new() } else { Relationships::default() };
    let n = c.s.len(0, 12);
    c.nontrivial(n > 1);
    let mut log = vec![];
    for _ in 0..n {
        let (t, u) = rel_type(&mut c.s);
        ensure!(t.uri() == u, "the type {t:?} stands for {:?}, not {u:?}", t.uri());
        ensure!(RelationshipType::from_uri(&u) == t, "{u:?} is read as {:?}", RelationshipType::from_uri(&u));
        let g = target(&mut c.s);
        if c.s.chance(60) {
            let id = guard(|| r.add(t, &g))?;
            log.push(format!("add -> {id}"));
            ensure!(!m.iter().any(|x| x.0 == id), "add gives the id {id:?}, which is taken");
            m.push((id, u, g));
        } else {
            let id = match c.s.below(6) {
                0 => format!("rId{}", u32::MAX - c.s.below(3) as u32),
                1 => format!("R{}", c.s.below(99)),
                2 => line(&mut c.s),
                _ => format!("rId{}", c.s.below(14)),
            };
            if m.iter().any(|x| x.0 == id) {
                continue;
            }
            log.push(format!("add_with_id {id}"));
            guard(|| r.add_with_id(&id, t, &g))?;
            m.push((id, u, g));
        }
    }
    c.note(|| format!("{log:?}"));
    let check = |r: &Relationships, what: &str| -> Res {
        let got: Vec<(String, String, String)> = r.all().iter().map(|x| (x.id.clone(), x.rel_type.uri().to_string(), x.target.clone())).collect();
        eq(what, got, m.clone())?;
        ensure!(r.len() == m.len() && r.is_empty() == m.is_empty(), "{what}: {} relationships counted, wanted {}", r.len(), m.len());
        for (id, u, t) in &m {
            let g = r.get(id).ok_or_else(|| Fail { msg: format!("{what}: {id:?} is not found") })?;
            ensure!(g.rel_type.uri() == u && g.target == *t, "{what}: {id:?} leads to {:?}", g);
        }
        for (t, u) in known() {
            let want: Vec<&String> = m.iter().filter(|x| x.1 == u).map(|x| &x.0).collect();
            let got: Vec<&String> = r.get_by_type(&t).into_iter().map(|x| &x.id).collect();
            eq(&format!("{what}: relationships of type {t:?}"), got, want)?;
        }
        ensure!(r.get("no such id!!").is_none(), "{what}: an unknown id is found");
        Ok(())
    };
    check(&r, "as built")?;
    let x = guard(|| r.to_xml())?;
    let e = xml::parse(&x).map_err(|e| Fail { msg: format!("the relationships are malformed: {e}: {x}") })?;
    let got = crate::opc::parse_rels(&e, "ppt/_rels/presentation.xml.rels").map_err(|e| Fail { msg: e })?;
    let got: Vec<_> = got.into_iter().map(|r| (r.id, r.typ, r.target)).collect();
    eq("as written", got, m.clone())?;
    let mut back = guard(|| Relationships::from_xml(&x))?.map_err(|e| Fail { msg: format!("the written relationships are refused: {e}") })?;
    check(&back, "read back")?;
    // ids given after reading are free ones
    let id = guard(|| back.add(RelationshipType::Image, "x.png"))?;
    ensure!(!m.iter().any(|y| y.0 == id), "after reading, add gives the id {id:?}, which is taken");
    // relationships with a target mode keep it
    let mode = c.s.opt(50, |s| *s.pick(&["External", "Internal"]));
    let foreign = format!(
        "<?xml version=\"1.0\"?><Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Target=\"https://example.com/?a=1&amp;b=2\" Id=\"rId7\"{} Type=\"{BASE}hyperlink\"/></Relationships>",
        mode.map(|m| format!(" TargetMode=\"{m}\"")).unwrap_or_default()
    );
    let f = guard(|| Relationships::from_xml(&foreign))?.map_err(|e| Fail { msg: format!("foreign relationships are refused: {e}") })?;
    let fe = xml::parse(&f.to_xml()).map_err(|e| Fail { msg: format!("rewritten relationships are malformed: {e}") })?;
    let fr = fe.els().next().ok_or_else(|| Fail { msg: "the relationship is lost".into() })?;
    ensure!(
        fr.attr("TargetMode") == mode && fr.attr("Target") == Some("https://example.com/?a=1&b=2") && fr.attr("Type") == Some(&format!("{BASE}hyperlink")) && fr.attr("Id") == Some("rId7"),
        "a relationship with mode {mode:?} is rewritten as {}",
        fe.canon()
    );
    Ok(())
}

fn ct_table(e: &El) -> Result<(BTreeMap<String, String>, BTreeMap<String, String>), Fail> {
    let (mut d, mut o) = (BTreeMap::new(), BTreeMap::new());
    for k in e.els() {
        let ct = k.attr("ContentType").unwrap_or("").to_string();
        let (m, key) = match k.name.as_str() {
            "Default" => (&mut d, k.attr("Extension").unwrap_or("").to_lowercase()),
            "Override" => (&mut o, k.attr("PartName").unwrap_or("").to_lowercase()),
            n => return fail(format!("<{n}> among the content types")),
        };
        if let Some(old) = m.insert(key.clone(), ct) {
            return fail(format!("{key:?} has two types, one is {old:?}"));
        }
    }
    Ok((d, o))
}
fn content_types(c: &mut Ctx) -> Res {
    let mut p = ContentTypesPart::new();
    let (_, e) = px(p.to_xml())?;
    let (mut d, mut o) = ct_table(&e)?;
    for (k, v) in [("rels", "application/vnd.openxmlformats-package.relationships+xml"), ("xml", "application/xml"), ("png", "image/png"), ("jpeg", "image/jpeg"), ("jpg", "image/jpeg"), ("gif", "image/gif")] {
        ensure!(d.get(k).map(|x| x.as_str()) == Some(v), "{k} files are {:?}", d.get(k));
    }
    ensure!(o.is_empty(), "overrides without parts: {o:?}");
    // sometimes continue from what was read
    if c.s.chance(30) {
        p = read(&px(p.to_xml())?.0)?;
    }
    const PRES: &str = "application/vnd.openxmlformats-officedocument.presentationml.";
    let n = c.s.len(0, 12);
    c.nontrivial(n > 1);
    for _ in 0..n {
        let k = c.s.usize(30);
        let (name, ct) = match c.s.below(11) {
            0 => {
                let (x, t) = (if c.s.bool() { gen::word(&mut c.s) } else { c.s.pick(&["png", "PNG", "Xml", "emf", "a&b"]).to_string() }, line(&mut c.s));
                p.add_default(x.clone(), t.clone());
                d.insert(x.to_lowercase(), t);
                continue;
            }
            1 => {
                let (x, t) = (format!("/{}", line(&mut c.s)), line(&mut c.s));
                p.add_override(x.clone(), t.clone());
                (x, t)
            }
            2 => {
                p.add_presentation();
                ("/ppt/presentation.xml".into(), format!("{PRES}presentation.main+xml"))
            }
            3 => {
                p.add_slide(k);
                (format!("/ppt/slides/slide{k}.xml"), format!("{PRES}slide+xml"))
            }
            4 => {
                p.add_slide_layout(k);
                (format!("/ppt/slideLayouts/slideLayout{k}.xml"), format!("{PRES}slideLayout+xml"))
            }
            5 => {
                p.add_slide_master(k);
                (format!("/ppt/slideMasters/slideMaster{k}.xml"), format!("{PRES}slideMaster+xml"))
            }
            6 => {
                p.add_theme(k);
                (format!("/ppt/theme/theme{k}.xml"), "application/vnd.openxmlformats-officedocument.theme+xml".into())
            }
            7 => {
                p.add_notes_slide(k);
                (format!("/ppt/notesSlides/notesSlide{k}.xml"), format!("{PRES}notesSlide+xml"))
            }
            8 => {
                p.add_chart(k);
                (format!("/ppt/charts/chart{k}.xml"), "application/vnd.openxmlformats-officedocument.drawingml.chart+xml".into())
            }
            9 => {
                p.add_core_properties();
                ("/docProps/core.xml".into(), "application/vnd.openxmlformats-package.core-properties+xml".into())
            }
            _ => {
                p.add_app_properties();
                ("/docProps/app.xml".into(), "application/vnd.openxmlformats-officedocument.extended-properties+xml".into())
            }
        };
        o.insert(name.to_lowercase(), ct);
    }
    let (x, e) = px(guard(|| p.to_xml())?)?;
    c.note(|| x.clone());
    ensure!(e.ns == "http://schemas.openxmlformats.org/package/2006/content-types" && e.name == "Types", "the root is {{{}}}{}", e.ns, e.name);
    eq("the content types", ct_table(&e)?, (d.clone(), o.clone()))?;
    let back: ContentTypesPart = read(&x)?;
    let (_, e) = px(back.to_xml())?;
    eq("the content types, read and written again", ct_table(&e)?, (d, o))?;
    ensure!(p.path() == "[Content_Types].xml", "path {}", p.path());
    Ok(())
}

fn core_props(c: &mut Ctx) -> Res {
    let mut p = CorePropertiesPart::new();
    let mut m: BTreeMap<&str, String> = BTreeMap::new();
    let base = px(p.to_xml())?.1;
    for k in base.els() {
        let n = match k.name.as_str() {
            "creator" => "creator",
            "lastModifiedBy" => "lastModifiedBy",
            "revision" => "revision",
            "created" => "created",
            "modified" => "modified",
            n => return fail(format!("a new part states <{n}>")),
        };
        m.insert(n, k.text());
    }
    for _ in 0..c.s.len(0, 8) {
        let t = gen::text(&mut c.s);
        let n = match c.s.below(8) {
            0 => {
                p.set_title(&t);
                "title"
            }
            1 => {
                p.set_subject(&t);
                "subject"
            }
            2 => {
                p.set_creator(&t);
                "creator"
            }
            3 => {
                p.set_keywords(&t);
                "keywords"
            }
            4 => {
                p.set_description(&t);
                "description"
            }
            5 => {
                p.last_modified_by = Some(t.clone());
                "lastModifiedBy"
            }
            6 => {
                let d = if c.s.bool() { "2024-02-29T23:59:59Z".to_string() } else { t.clone() };
                let which = c.s.bool();
                if which {
                    p.created = Some(d.clone())
                } else {
                    p.modified = Some(d.clone())
                }
                m.insert(if which { "created" } else { "modified" }, d);
                continue;
            }
            _ => {
                let r = if c.s.chance(30) { u32::MAX - c.s.below(2) as u32 } else { c.s.below(1000) as u32 };
                p.revision = Some(r);
                m.insert("revision", r.to_string());
                continue;
            }
        };
        m.insert(n, t);
    }
    if c.s.chance(30) {
        let before: Option<u32> = p.revision;
        guard(|| p.touch())?;
        let want = before.unwrap_or(0).saturating_add(1);
        eq("the revision after touch", p.revision, Some(want))?;
        m.insert("revision", want.to_string());
        let now = p.modified.clone().unwrap_or_default();
        ensure!(now.len() == 20 && now.ends_with('Z') && now > "2024".to_string(), "modified at {now:?}");
        m.insert("modified", now);
    }
    if c.s.chance(20) {
        p.revision = None;
        m.remove("revision");
        p.creator = None;
        m.remove("creator");
    }
    c.nontrivial(m.len() > 3);
    c.note(|| format!("{m:?}"));
    let want: BTreeMap<String, String> = m.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let table = |e: &El| -> Result<BTreeMap<String, String>, Fail> {
        let mut t = BTreeMap::new();
        for k in e.els() {
            let ns = match k.name.as_str() {
                "title" | "subject" | "creator" | "description" => "http://purl.org/dc/elements/1.1/",
                "created" | "modified" => "http://purl.org/dc/terms/",
                _ => "http://schemas.openxmlformats.org/package/2006/metadata/core-properties",
            };
            ensure!(k.ns == ns, "<{}> lives in {:?}", k.name, k.ns);
            ensure!(t.insert(k.name.clone(), k.text()).is_none(), "<{}> twice", k.name);
        }
        Ok(t)
    };
    let (x, e) = px(guard(|| p.to_xml())?)?;
    eq("the properties", table(&e)?, want.clone())?;
    let back: CorePropertiesPart = read(&x)?;
    let f = |o: &Option<String>| o.clone();
    let got: BTreeMap<String, String> = [
        ("title", f(&back.title)),
        ("subject", f(&back.subject)),
        ("creator", f(&back.creator)),
        ("keywords", f(&back.keywords)),
        ("description", f(&back.description)),
        ("lastModifiedBy", f(&back.last_modified_by)),
        ("revision", back.revision.map(|r| r.to_string())),
        ("created", f(&back.created)),
        ("modified", f(&back.modified)),
    ]
    .into_iter()
    .filter_map(|(k, v)| v.map(|v| (k.to_string(), v)))
    .collect();
    eq("the properties read", got, want.clone())?;
    eq("the properties, read and written again", table(&px(back.to_xml())?.1)?, want)
}

fn app_props(c: &mut Ctx) -> Res {
    let mut p = AppPropertiesPart::new();
    let fields = |e: &El| -> BTreeMap<String, String> { e.els().map(|k| (k.name.clone(), k.text())).collect() };
    let mut want = fields(&px(p.to_xml())?.1);
    let mut foreign = false;
    // a part written by another program
    if c.s.chance(40) {
        foreign = true;
        want = BTreeMap::from([("Application".to_string(), line(&mut c.s)), ("Slides".into(), c.s.below(500).to_string()), ("SharedDoc".into(), c.s.bool().to_string()), ("PresentationFormat".into(), line(&mut c.s)), ("AppVersion".into(), "15.0300".into()), ("HiddenSlides".into(), c.s.below(9).to_string())]);
        if c.s.bool() {
            want.insert("Company".into(), line(&mut c.s));
        }
        let mut items: Vec<String> = want.iter().map(|(k, v)| format!("<{k}>{}</{k}>", xml::esc(v))).collect();
        items.push("<TotalTime>7</TotalTime><TitlesOfParts><vt:vector size=\"1\" baseType=\"lpstr\"><vt:lpstr>Slide &amp; 1</vt:lpstr></vt:vector></TitlesOfParts>".into());
        crate::foreign::shuffle(&mut c.s, &mut items);
        let x = format!("<?xml version=\"1.0\"?>\n<Properties xmlns=\"http://schemas.openxmlformats.org/officeDocument/2006/extended-properties\" xmlns:vt=\"http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes\">{}</Properties>", items.concat());
        p = read(&x)?;
        // unchanged, it stays as it was
        let (y, _) = px(p.to_xml())?;
        ensure!(y == x, "a part read and not changed is rewritten: {y}");
    }
    let n = c.s.len(0, 6);
    for _ in 0..n {
        let (k, v) = match c.s.below(6) {
            0 => {
                let t = line(&mut c.s);
                p.set_application(t.clone());
                ("Application", t)
            }
            1 => {
                let t = line(&mut c.s);
                p.set_company(t.clone());
                ("Company", t)
            }
            2 => {
                let t = line(&mut c.s);
                p.set_presentation_format(t.clone());
                ("PresentationFormat", t)
            }
            3 => {
                let v = c.s.below(1 << 32) as u32;
                p.set_slides(v);
                ("Slides", v.to_string())
            }
            4 => {
                let v = c.s.below(1000) as u32;
                match c.s.below(5) {
                    0 => {
                        p.words = v;
                        ("Words", v.to_string())
                    }
                    1 => {
                        p.paragraphs = v;
                        ("Paragraphs", v.to_string())
                    }
                    2 => {
                        p.notes = v;
                        ("Notes", v.to_string())
                    }
                    3 => {
                        p.hidden_slides = v;
                        ("HiddenSlides", v.to_string())
                    }
                    _ => {
                        p.mm_clips = v;
                        ("MMClips", v.to_string())
                    }
                }
            }
            _ => {
                let b = c.s.bool();
                match c.s.below(4) {
                    0 => {
                        p.scale_crop = b;
                        ("ScaleCrop", b.to_string())
                    }
                    1 => {
                        p.links_up_to_date = b;
                        ("LinksUpToDate", b.to_string())
                    }
                    2 => {
                        p.shared_doc = b;
                        ("SharedDoc", b.to_string())
                    }
                    _ => {
                        p.hyperlinks_changed = b;
                        ("HyperlinksChanged", b.to_string())
                    }
                }
            }
        };
        want.insert(k.into(), v);
    }
    c.label(if foreign { "read first" } else { "new" });
    c.nontrivial(n > 0);
    c.note(|| format!("{want:?}"));
    let (x, e) = px(guard(|| p.to_xml())?)?;
    let got = fields(&e);
    for (k, v) in &want {
        // a value that is not stated is zero, false or empty
        let unstated = foreign && !got.contains_key(k) && matches!(v.as_str(), "0" | "false" | "");
        ensure!(unstated || got.get(k) == Some(v), "{k} is {:?}, wanted {v:?}", got.get(k));
    }
    let q: AppPropertiesPart = read(&x)?;
    let w = |k: &str| want.get(k).cloned().unwrap_or_default();
    eq("application read", q.application.clone(), w("Application"))?;
    eq("company read", q.company.clone(), want.get("Company").cloned())?;
    eq("format read", q.presentation_format.clone(), w("PresentationFormat"))?;
    eq("slides read", q.slides.to_string(), w("Slides"))?;
    eq("hidden slides read", q.hidden_slides.to_string(), w("HiddenSlides"))?;
    eq("shared read", q.shared_doc.to_string(), w("SharedDoc"))
}

fn presentation(c: &mut Ctx) -> Res {
    let mut p = PresentationPart::new();
    let mut size = (9144000u32, 6858000u32);
    let mut slides: Vec<(u32, String)> = vec![];
    let (mut master, mut theme) = (None::<String>, None::<String>);
    let mut used: Vec<String> = vec![];
    fn rid(s: &mut Src, used: &mut Vec<String>) -> String {
        loop {
            let id = if s.chance(80) { format!("rId{}", 1 + s.below(24)) } else { format!("R{}", gen::word(s)) };
            if !used.contains(&id) {
                used.push(id.clone());
                return id;
            }
            if used.len() > 22 {
                let id = format!("X{}", used.len());
                used.push(id.clone());
                return id;
            }
        }
    }
    if c.s.chance(35) {
        // start from a presentation of another program
        c.label("read first");
        let mut ids: Vec<u32> = vec![];
        for _ in 0..c.s.len(0, 6) {
            let id = 256 + c.s.below(40) as u32;
            if !ids.contains(&id) {
                ids.push(id);
                slides.push((id, rid(&mut c.s, &mut used)));
            }
        }
        master = Some(rid(&mut c.s, &mut used));
        size = (914400 + c.s.below(20_000_000) as u32, 914400 + c.s.below(20_000_000) as u32);
        let x = format!(
            "<?xml version=\"1.0\"?><p:presentation xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" xmlns:r=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships\" xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\"><p:sldMasterIdLst><p:sldMasterId id=\"2147483660\" r:id=\"{}\"/></p:sldMasterIdLst><p:sldIdLst>{}</p:sldIdLst><p:sldSz cx=\"{}\" cy=\"{}\"/><p:notesSz cx=\"6858000\" cy=\"9144000\"/></p:presentation>",
            master.as_ref().unwrap(),
            slides.iter().map(|(i, r)| format!("<p:sldId id=\"{i}\" r:id=\"{r}\"/>")).collect::<String>(),
            size.0,
            size.1
        );
        p = read(&x)?;
    }
    for _ in 0..c.s.len(0, 12) {
        match c.s.below(8) {
            0 => {
                let r = rid(&mut c.s, &mut used);
                p.set_slide_master(&r);
                master = Some(r);
            }
            1 => {
                let r = rid(&mut c.s, &mut used);
                p.set_theme(&r);
                theme = Some(r);
            }
            2 => {
                size = if c.s.bool() { (12192000, 6858000) } else { (914400 + c.s.below(20_000_000) as u32, 914400 + c.s.below(20_000_000) as u32) };
                p.set_dimensions(size.0, size.1);
            }
            _ => {
                let r = rid(&mut c.s, &mut used);
                let id = guard(|| p.add_slide(&r))?;
                ensure!(id >= 256 && id < 1 << 31 && !slides.iter().any(|s| s.0 == id), "the new slide gets the id {id}, among {slides:?}");
                slides.push((id, r));
            }
        }
    }
    c.nontrivial(slides.len() > 1);
    c.note(|| format!("slides {slides:?} master {master:?} theme {theme:?} size {size:?}"));
    let check = |p: &PresentationPart, what: &str| -> Res {
        eq(&format!("{what}: slides"), p.slides().iter().map(|s| (s.id, s.r_id.clone())).collect::<Vec<_>>(), slides.clone())?;
        eq(&format!("{what}: slide count"), p.slide_count(), slides.len())?;
        let (_, e) = px(p.to_xml())?;
        schema::check_tree(&e, "presentation.xml")?;
        let got: Vec<(u32, String)> = e.all("sldId").iter().map(|k| (k.attr("id").and_then(|i| i.parse().ok()).unwrap_or(0), k.attr_ns(&BASE[..BASE.len() - 1], "id").unwrap_or("").to_string())).collect();
        eq(&format!("{what}: slides written"), got, slides.clone())?;
        let sz = e.child("sldSz").ok_or_else(|| Fail { msg: "no slide size".into() })?;
        eq(&format!("{what}: size written"), (sz.attr("cx").unwrap_or(""), sz.attr("cy").unwrap_or("")), (&size.0.to_string(), &size.1.to_string()))?;
        ensure!(sz.attr("type").is_none() || (sz.attr("type") == Some("screen4x3") && size == (9144000, 6858000)), "{what}: a slide of {size:?} is typed {:?}", sz.attr("type"));
        let mid = e.find("sldMasterId").and_then(|m| m.attr_ns(&BASE[..BASE.len() - 1], "id")).unwrap_or("").to_string();
        if let Some(m) = &master {
            eq(&format!("{what}: master written"), &mid, m)?;
        }
        // the relationships agree with the part, and no id is used twice
        let rels = guard(|| p.create_relationships())?;
        let mut ids: Vec<&str> = rels.all().iter().map(|r| r.id.as_str()).collect();
        ids.sort();
        ids.dedup();
        ensure!(ids.len() == rels.len(), "{what}: an id is used twice among {:?}", rels.all());
        let m = rels.get(&mid).ok_or_else(|| Fail { msg: format!("{what}: no relationship {mid:?} for the master") })?;
        ensure!(m.rel_type == RelationshipType::SlideMaster && m.target == "slideMasters/slideMaster1.xml", "{what}: the master is {m:?}");
        let t = rels.get_by_type(&RelationshipType::Theme);
        ensure!(t.len() == 1 && t[0].target == "theme/theme1.xml", "{what}: themes {t:?}");
        if let Some(w) = &theme {
            eq(&format!("{what}: theme id"), &t[0].id, w)?;
        }
        for (i, (_, r)) in slides.iter().enumerate() {
            let g = rels.get(r).ok_or_else(|| Fail { msg: format!("{what}: no relationship {r:?}") })?;
            ensure!(g.rel_type == RelationshipType::Slide && g.target == format!("slides/slide{}.xml", i + 1), "{what}: slide {} is {g:?}", i + 1);
        }
        ensure!(rels.len() == slides.len() + 2, "{what}: {} relationships", rels.len());
        Ok(())
    };
    check(&p, "as built")?;
    let (x, e) = px(p.to_xml())?;
    // read back: the theme's id is not part of the presentation part
    let q: PresentationPart = read(&x)?;
    eq("slides read", q.slides().iter().map(|s| (s.id, s.r_id.clone())).collect::<Vec<_>>(), slides.clone())?;
    eq("written again", px(q.to_xml())?.1.canon(), e.canon())
}

fn binary(c: &mut Ctx) -> Res {
    let data = c.s.blob(0, 64);
    let n = c.s.usize(40);
    c.nontrivial(!data.is_empty());
    let img: &[(&str, &str, &str)] = &[("png", "png", "image/png"), ("jpg", "jpg", "image/jpeg"), ("jpeg", "jpg", "image/jpeg"), ("gif", "gif", "image/gif"), ("bmp", "bmp", "image/bmp"), ("tiff", "tiff", "image/tiff"), ("tif", "tif", "image/tiff"), ("svg", "svg", "image/svg+xml"), ("xyz", "xyz", "application/octet-stream")];
    let (fmt, ext, mime) = *c.s.pick(img);
    let given = if c.s.bool() { fmt.to_uppercase() } else { fmt.to_string() };
    let f = c.file(&format!("pic.{given}"));
    let by_file = c.s.chance(30);
    c.note(|| format!("image {n} {given}"));
    let mut p = if by_file {
        std::fs::write(&f, &data).unwrap();
        guard(|| ImagePart::from_file(n, f.to_str().unwrap()))?.map_err(|e| Fail { msg: format!("image file refused: {e}") })?
    } else {
        guard(|| ImagePart::new(n, &given, data.clone()))?
    };
    ensure!(p.data() == data, "image data differ");
    eq("image number", p.image_number(), n)?;
    eq("image path", p.path().to_string(), format!("ppt/media/image{n}.{ext}"))?;
    eq("image target", crate::opc::resolve("ppt/slides/slide1.xml", &p.rel_target()), p.path().to_string())?;
    eq("image extension", p.extension(), ext)?;
    eq("image type", p.mime_type(), mime)?;
    eq("image content type", p.content_type().mime_type(), mime)?;
    ensure!(p.part_type() == PartType::Image, "part type {:?}", p.part_type());
    let (w, h) = (gen::emu(&mut c.s), gen::emu(&mut c.s));
    p.set_dimensions(w, h);
    eq("image size", (p.width(), p.height()), (w, h))?;
    ensure!(p.to_xml().is_err(), "an image has no XML");

    let med: &[(&str, &str, bool)] = &[("mp4", "video/mp4", true), ("webm", "video/webm", true), ("avi", "video/x-msvideo", true), ("wmv", "video/x-ms-wmv", true), ("mov", "video/quicktime", true), ("mp3", "audio/mpeg", false), ("wav", "audio/wav", false), ("wma", "audio/x-ms-wma", false), ("m4a", "audio/mp4", false), ("ogg", "audio/ogg", false)];
    let (ext, mime, video) = *c.s.pick(med);
    let given = if c.s.bool() { ext.to_uppercase() } else { ext.to_string() };
    let fm = MediaFormat::from_extension(&given).ok_or_else(|| Fail { msg: format!("{given} is unknown") })?;
    let f = c.file(&format!("clip.{given}"));
    let mut m = if by_file {
        std::fs::write(&f, &data).unwrap();
        guard(|| MediaPart::from_file(n, f.to_str().unwrap()))?.map_err(|e| Fail { msg: format!("media file refused: {e}") })?
    } else {
        MediaPart::new(n, fm, data.clone())
    };
    ensure!(m.data() == data && m.format() == fm, "media data or format differ");
    eq("media number", m.media_number(), n)?;
    eq("media path", m.path().to_string(), format!("ppt/media/media{n}.{ext}"))?;
    eq("media target", crate::opc::resolve("ppt/slides/slide1.xml", &m.rel_target()), m.path().to_string())?;
    eq("media type", (fm.extension(), fm.mime_type(), fm.is_video(), fm.is_audio()), (ext, mime, video, !video))?;
    eq("media kind", (m.is_video(), m.is_audio()), (video, !video))?;
    eq("media content type", m.content_type().mime_type(), mime)?;
    ensure!(m.part_type() == PartType::Media, "part type {:?}", m.part_type());
    eq("duration", m.duration(), None)?;
    let ms = c.s.below(u64::MAX);
    m.set_duration(ms);
    eq("duration", m.duration(), Some(ms))?;
    for bad in ["xyz", "", "mp44", "m p4"] {
        ensure!(MediaFormat::from_extension(bad).is_none(), "{bad:?} is a media format");
    }
    ensure!(MediaPart::from_file(1, c.file("none.mp4").to_str().unwrap()).is_err(), "a missing media file is read");
    ensure!(ImagePart::from_file(1, c.file("none.png").to_str().unwrap()).is_err(), "a missing image file is read");
    Ok(())
}

fn norm(t: &str) -> String {
    deck_p::norm(t)
}
fn notes(c: &mut Ctx) -> Res {
    let n = c.s.usize(30);
    let t = if c.s.chance(15) { String::new() } else { gen::multiline(&mut c.s).replace('\t', " ") };
    let mut p = if c.s.bool() { NotesSlidePart::with_text(n, t.clone()) } else { NotesSlidePart::new(n) };
    if p.notes_text() != t {
        p.set_notes_text(t.clone());
    }
    c.note(|| format!("{t:?}"));
    c.nontrivial(!t.is_empty());
    eq("number", p.notes_number(), n)?;
    eq("text", p.notes_text(), &t)?;
    eq("path", crate::opc::resolve("ppt/slides/slide1.xml", &p.rel_target()), p.path().to_string())?;
    ensure!(p.content_type().mime_type().ends_with("notesSlide+xml") && p.part_type().relationship_type().ends_with("/notesSlide"), "a notes part is {:?}", p.content_type());
    fn lines(t: &str) -> Vec<String> {
        let mut v: Vec<String> = t.split('\n').map(|l| l.to_string()).collect();
        while v.last().is_some_and(|l| l.is_empty()) {
            v.pop();
        }
        v
    }
    let body = |e: &El| -> Vec<String> {
        let mut v: Vec<String> = e.all("sp").iter().filter(|s| s.find("ph").and_then(|p| p.attr("type")) == Some("body")).flat_map(|s| deck_p::paras(s.find("txBody").unwrap()).into_iter().map(deck_p::para_text).collect::<Vec<_>>()).collect();
        while v.last().is_some_and(|l| l.is_empty()) {
            v.pop();
        }
        v
    };
    let (x, e) = px(guard(|| p.to_xml())?)?;
    schema::check_tree(&e, "notesSlide")?;
    schema::check_ids(&e, "notesSlide")?;
    eq("notes written", body(&e), lines(&t))?;
    let mut q: NotesSlidePart = read(&x)?;
    eq("notes read", lines(q.notes_text()), lines(&t))?;
    eq("notes read and written", px(q.to_xml())?.0, x)?;
    let t2 = gen::text(&mut c.s);
    q.set_notes_text(t2.clone());
    let (_, e) = px(q.to_xml())?;
    eq("notes changed", body(&e), lines(&t2))
}

fn theme(c: &mut Ctx) -> Res {
    const NAMES: &[&str] = &["dk1", "lt1", "dk2", "lt2", "accent1", "accent2", "accent3", "accent4", "accent5", "accent6", "hlink", "folHlink"];
    let n = c.s.usize(9);
    let mut p = ThemePart::new(n);
    let mut cols: BTreeMap<String, String> = BTreeMap::new();
    let (mut name, mut major, mut minor) = ("Office Theme".to_string(), "Calibri Light".to_string(), "Calibri".to_string());
    for k in px(p.to_xml())?.1.find("clrScheme").unwrap().els() {
        cols.insert(k.name.clone(), k.els().next().and_then(|v| v.attr("val")).unwrap_or("").into());
    }
    let k = c.s.len(0, 8);
    c.nontrivial(k > 0);
    for _ in 0..k {
        match c.s.below(6) {
            0 => {
                name = line(&mut c.s);
                p.set_name(name.clone());
            }
            1 => {
                major = line(&mut c.s);
                p.set_major_font(major.clone());
            }
            2 => {
                minor = line(&mut c.s);
                p.set_minor_font(minor.clone());
            }
            _ => {
                let h = gen::hex(&mut c.s).to_uppercase();
                let hash = c.s.chance(20);
                let key = if c.s.chance(5) { "brand" } else { *c.s.pick(NAMES) };
                p.set_color(key, if hash { format!("#{h}") } else { h.clone() });
                if key != "brand" {
                    cols.insert(key.into(), h);
                }
            }
        }
    }
    c.note(|| format!("{name:?} {major:?} {minor:?} {cols:?}"));
    eq("name", p.name(), &name)?;
    eq("number", p.theme_number(), n)?;
    eq("path", crate::opc::resolve("ppt/slideMasters/slideMaster1.xml", &p.rel_target()), p.path().to_string())?;
    let (x, e) = px(guard(|| p.to_xml())?)?;
    schema::check_tree(&e, "theme")?;
    let look = |e: &El| -> Res {
        eq("theme name", e.attr("name").unwrap_or(""), &name)?;
        let order: Vec<&str> = e.find("clrScheme").map(|s| s.els().map(|k| k.name.as_str()).collect()).unwrap_or_default();
        eq("colour entries", order, NAMES.to_vec())?;
        for k in e.find("clrScheme").unwrap().els() {
            ensure!(k.attrs.is_empty(), "<{}> has attributes {:?}", k.name, k.attrs);
            eq(&format!("colour {}", k.name), k.els().next().and_then(|v| v.attr("val")).unwrap_or("").to_uppercase(), cols[&k.name].clone())?;
        }
        let font = |k: &str| e.find(k).and_then(|f| f.child("latin")).and_then(|l| l.attr("typeface")).unwrap_or("").to_string();
        eq("major font", font("majorFont"), major.clone())?;
        eq("minor font", font("minorFont"), minor.clone())
    };
    look(&e)?;
    let q: ThemePart = read(&x)?;
    eq("name read", q.name(), &name)?;
    look(&px(q.to_xml())?.1)?;
    // a colour set on the part read changes nothing else that was read
    Ok(())
}

fn layouts(c: &mut Ctx) -> Res {
    use LayoutType::*;
    let all = [(Title, "title"), (TitleAndContent, "obj"), (SectionHeader, "secHead"), (TwoContent, "twoObj"), (Comparison, "twoTxTwoObj"), (TitleOnly, "titleOnly"), (Blank, "blank"), (ContentWithCaption, "objTx"), (PictureWithCaption, "picTx"), (TitleAndVerticalText, "vertTx"), (VerticalTitleAndText, "vertTitleAndTx"), (Custom, "cust")];
    let (t, v) = *c.s.pick(&all);
    let n = c.s.usize(30);
    let mut p = SlideLayoutPart::new(n, t);
    let mut name = t.name().to_string();
    if c.s.chance(70) {
        name = line(&mut c.s);
        p.set_name(name.clone());
    }
    p.set_master_rel_id("rId1");
    c.note(|| format!("{t:?} {name:?}"));
    c.nontrivial(true);
    eq("layout", (p.layout_number(), p.layout_type(), p.name()), (n, t, name.as_str()))?;
    eq("layout path", crate::opc::resolve("ppt/presentation.xml", &p.rel_target()), p.path().to_string())?;
    let (x, e) = px(guard(|| p.to_xml())?)?;
    schema::check_tree(&e, "slideLayout")?;
    eq("layout type written", e.attr("type").unwrap_or(""), v)?;
    eq("layout name written", e.child("cSld").and_then(|k| k.attr("name")).unwrap_or(""), &name)?;
    let q: SlideLayoutPart = read(&x)?;
    eq("layout read", (q.layout_type(), q.name()), (t, name.as_str()))?;
    eq("layout read and written", px(q.to_xml())?.0, x)?;

    let mut m = SlideMasterPart::new(n);
    let mut name = "Office Theme".to_string();
    if c.s.chance(70) {
        name = line(&mut c.s);
        m.set_name(name.clone());
    }
    m.set_theme_rel_id("rId9");
    let ids: Vec<String> = (0..c.s.len(0, 12)).map(|i| if c.s.chance(80) { format!("rId{}", i + 2) } else { format!("R{i}") }).collect();
    for i in &ids {
        m.add_layout_rel_id(i.clone());
    }
    eq("master", (m.master_number(), m.name(), m.layout_rel_ids().to_vec()), (n, name.as_str(), ids.clone()))?;
    eq("master path", crate::opc::resolve("ppt/presentation.xml", &m.rel_target()), m.path().to_string())?;
    let (x, e) = px(guard(|| m.to_xml())?)?;
    schema::check_tree(&e, "slideMaster")?;
    let got: Vec<String> = e.all("sldLayoutId").iter().map(|k| k.attr_ns(&BASE[..BASE.len() - 1], "id").unwrap_or("").to_string()).collect();
    eq("layouts of the master written", got, ids.clone())?;
    let mut nums: Vec<u64> = e.all("sldLayoutId").iter().map(|k| k.attr("id").and_then(|i| i.parse().ok()).unwrap_or(0)).collect();
    ensure!(nums.iter().all(|i| (1 << 31..1u64 << 32).contains(i)), "layout ids {nums:?}");
    nums.sort();
    nums.dedup();
    ensure!(nums.len() == ids.len(), "layout ids used twice: {nums:?}");
    let q: SlideMasterPart = read(&x)?;
    eq("master read", (q.name(), q.layout_rel_ids().to_vec()), (name.as_str(), ids))?;
    eq("master read and written", px(q.to_xml())?.0, x)
}

fn charts(c: &mut Ctx) -> Res {
    let n = 1 + c.s.usize(30);
    let ch = gen::chart(&mut c.s, gen::text);
    c.note(|| format!("{ch:?}"));
    c.nontrivial(!ch.series.is_empty());
    let mut p = ChartPart::new(n);
    ensure!(p.to_xml().is_err() && p.chart().is_none(), "a chart part without chart has XML");
    if c.s.bool() {
        p = ChartPart::from_chart(n, ch.clone());
    } else {
        if c.s.bool() {
            let other = gen::chart(&mut c.s, gen::words);
            p.set_chart(other);
        }
        p.set_chart(ch.clone());
    }
    eq("chart number", p.chart_number(), n)?;
    eq("chart path", crate::opc::resolve("ppt/slides/slide1.xml", &p.rel_target()), p.path().to_string())?;
    let (x, e) = px(guard(|| p.to_xml())?)?;
    schema::check_tree(&e, "chart")?;
    let mut pkg = Pkg { parts: BTreeMap::new(), order: vec![] };
    pkg.put(p.path(), x.clone());
    deck_p::check_chart(&pkg, p.path(), &ch)?;
    let mut q: ChartPart = read(&x)?;
    eq("chart read and written", px(q.to_xml())?.0, x)?;
    let other = gen::chart(&mut c.s, gen::words);
    q.set_chart(other.clone());
    let mut pkg = Pkg { parts: BTreeMap::new(), order: vec![] };
    pkg.put(q.path(), px(q.to_xml())?.0);
    deck_p::check_chart(&pkg, q.path(), &other)
}

fn slides(c: &mut Ctx) -> Res {
    fn content(s: &mut Src) -> (SlideContent, String, Vec<String>) {
        let t = gen::text(s);
        let mut sc = SlideContent::new(&t);
        let b: Vec<String> = s.vec(0, 5, gen::text);
        for x in &b {
            sc = sc.add_bullet(x);
        }
        (sc, t, b)
    }
    let n = 1 + c.s.usize(30);
    let (sc, t, b) = content(&mut c.s);
    c.note(|| format!("{t:?} {b:?}"));
    c.nontrivial(!b.is_empty());
    let mut p = SlidePart::new(n);
    let (_, e) = px(p.to_xml())?;
    schema::check_tree(&e, "empty slide")?;
    ensure!(e.text().trim().is_empty() && p.content().is_none() && p.title().is_none() && p.body_text().is_empty(), "an empty slide part shows something");
    if c.s.bool() {
        p = SlidePart::from_content(n, sc.clone());
    } else {
        p.set_content(sc.clone());
    }
    eq("slide number", p.slide_number(), n)?;
    eq("slide path", p.path().to_string(), format!("ppt/slides/slide{n}.xml"))?;
    eq("slide rels path", p.rels_path(), crate::opc::rels_path(p.path()))?;
    let rels = xml::parse(&p.rels_xml()).map_err(|e| Fail { msg: format!("slide relationships malformed: {e}") })?;
    let rels = crate::opc::parse_rels(&rels, &p.rels_path())?;
    ensure!(rels.iter().any(|r| r.typ == format!("{BASE}slideLayout") && crate::opc::resolve(p.path(), &r.target).starts_with("ppt/slideLayouts/")), "the slide has no layout: {:?}", rels.len());
    let shown = |e: &El| -> Vec<String> { e.all("txBody").into_iter().flat_map(|b| deck_p::paras(b).into_iter().map(deck_p::para_text).collect::<Vec<_>>()).filter(|t| !t.is_empty()).collect() };
    let all = |t: &String, b: &[String]| [std::slice::from_ref(t), b].concat();
    let (x, e) = px(guard(|| p.to_xml())?)?;
    schema::check_tree(&e, "slide")?;
    schema::check_ids(&e, "slide")?;
    eq("slide text", shown(&e), all(&t, &b))?;
    let q: SlidePart = read(&x)?;
    let tr = |v: &[String]| v.iter().map(|x| norm(x)).collect::<Vec<_>>();
    let look = |q: &SlidePart| -> Res {
        eq("title read", norm(q.title().unwrap_or("")), norm(&t))?;
        eq("body read", tr(&q.body_text().iter().map(|s| s.to_string()).collect::<Vec<_>>()), tr(&b))
    };
    look(&q)?;
    ensure!(q.parsed().is_some(), "no parsed slide");
    eq("slide read and written", px(q.to_xml())?.0, x.clone())?;
    let mut q = guard(|| ppt_rs::parts::slide::parse_slide(&x, n))?.map_err(|e| Fail { msg: format!("parse_slide: {e}") })?;
    look(&q)?;
    eq("slide number", (q.slide_number(), q.path().to_string()), (n, format!("ppt/slides/slide{n}.xml")))?;
    let (sc2, t2, b2) = content(&mut c.s);
    q.set_content(sc2);
    ensure!(q.title().is_none_or(|x| norm(x) == norm(&t2)), "a part with new content still has the title {:?}", q.title());
    eq("new content", shown(&px(q.to_xml())?.1), all(&t2, &b2))
}

fn tables(c: &mut Ctx) -> Res {
    let (nr, nc) = (c.s.len(1, 6), c.s.len(1, 6));
    // merged regions that do not overlap
    let mut owner = vec![vec![None::<(usize, usize)>; nc]; nr];
    let mut span = BTreeMap::new();
    for _ in 0..c.s.below(4) {
        let (r, k) = (c.s.usize(nr), c.s.usize(nc));
        let (h, w) = (1 + c.s.usize(nr - r), 1 + c.s.usize(nc - k));
        if h * w > 1 && (r..r + h).all(|y| (k..k + w).all(|x| owner[y][x].is_none())) {
            for y in r..r + h {
                for x in k..k + w {
                    owner[y][x] = Some((r, k));
                }
            }
            span.insert((r, k), (h, w));
        }
    }
    let mut rows = vec![];
    let mut cells: Vec<Vec<TableCellPart>> = vec![];
    for r in 0..nr {
        let mut row = vec![];
        for k in 0..nc {
            if owner[r][k].is_some_and(|o| o != (r, k)) {
                row.push(TableCellPart::merged());
                continue;
            }
            let s = &mut c.s;
            let mut t = TableCellPart::new(gen::text0(s));
            if let Some((h, w)) = span.get(&(r, k)) {
                t = t.row_span(*h as u32).col_span(*w as u32);
            }
            if s.chance(20) {
                t = t.bold();
            }
            if s.chance(20) {
                t = t.italic();
            }
            if s.chance(20) {
                t = t.underline();
            }
            if s.chance(20) {
                t = t.strikethrough();
            }
            if s.chance(30) {
                let h = gen::hex(s);
                t = t.background(if s.bool() { format!("#{h}") } else { h });
            }
            if s.chance(30) {
                t = t.color(gen::hex(s));
            }
            if s.chance(30) {
                t = t.font_size(1 + s.below(4000) as u32);
            }
            if s.chance(20) {
                t = t.font(line(s));
            }
            if s.chance(40) {
                t = t.align(*s.pick(&[HorizontalAlign::Left, HorizontalAlign::Center, HorizontalAlign::Right, HorizontalAlign::Justify]));
            }
            if s.chance(40) {
                t = t.valign(*s.pick(&[VerticalAlign::Top, VerticalAlign::Middle, VerticalAlign::Bottom]));
            }
            if s.chance(10) {
                t = t.center();
            }
            if s.chance(15) {
                t = t.border(s.below(20) as f32 / 2.0, gen::hex(s));
            } else if s.chance(20) {
                let one = |s: &mut Src| s.opt(50, |s| CellBorder::new(s.below(10) as f32, gen::hex(s)).style(*s.pick(&[BorderStyle::Solid, BorderStyle::Dashed, BorderStyle::Dotted, BorderStyle::Double, BorderStyle::None])));
                t = t.borders(CellBorders { left: one(s), right: one(s), top: one(s), bottom: one(s) });
            } else if s.chance(5) {
                t = t.borders(CellBorders::none());
            }
            if s.chance(20) {
                t = t.margins(if s.bool() { CellMargins::default() } else { CellMargins::uniform(s.below(1_000_000) as i32) });
            }
            row.push(t);
        }
        cells.push(row.clone());
        let mut rp = TableRowPart::new(row);
        if c.s.chance(50) {
            rp = rp.height(1 + c.s.below(5_000_000) as i64);
        }
        rows.push(rp);
    }
    let mut t = if c.s.bool() { TablePart::new() } else { TablePart::default() };
    let mut place = (t.x, t.y);
    let mut size = (t.width, t.height);
    if c.s.chance(60) {
        place = (c.s.below(9_000_000) as i64, c.s.below(6_000_000) as i64);
        t = t.position(place.0, place.1);
    }
    if c.s.chance(60) {
        size = (1 + c.s.below(9_000_000) as i64, 1 + c.s.below(6_000_000) as i64);
        t = t.size(size.0, size.1);
    }
    let mut widths = vec![size.0 / nc as i64; nc];
    let early = c.s.chance(30);
    if early {
        widths = (0..nc).map(|_| 1 + c.s.below(5_000_000) as i64).collect();
        t = t.col_widths(widths.clone());
    }
    let heights: Vec<Option<i64>> = rows.iter().map(|r| r.height).collect();
    for r in rows {
        t = t.add_row(r);
    }
    let id = 2 + c.s.usize(50);
    c.nontrivial(nr * nc > 1);
    if !span.is_empty() {
        c.label("merged");
    }
    c.note(|| format!("{t:?}"));
    let x = guard(|| t.to_slide_xml(id))?;
    let wrap = |x: &str| format!("<p:sld xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" xmlns:r=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships\" xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\"><p:cSld><p:spTree><p:nvGrpSpPr><p:cNvPr id=\"1\" name=\"\"/><p:cNvGrpSpPr/><p:nvPr/></p:nvGrpSpPr><p:grpSpPr/>{x}</p:spTree></p:cSld></p:sld>");
    let doc = wrap(&x);
    let e = xml::parse(&doc).map_err(|e| Fail { msg: format!("the table is malformed: {e}: {x}") })?;
    schema::check_tree(&e, "table")?;
    let f = e.find("graphicFrame").ok_or_else(|| Fail { msg: "no table".into() })?;
    eq("id", f.find("cNvPr").and_then(|k| k.attr("id")).unwrap_or(""), &id.to_string())?;
    let g = |p: &[&str], a: &str| f.path(p).and_then(|k| k.attr(a)).and_then(|v| v.parse::<i64>().ok()).unwrap_or(-1);
    eq("place", (g(&["xfrm", "off"], "x"), g(&["xfrm", "off"], "y")), place)?;
    eq("size", (g(&["xfrm", "ext"], "cx"), g(&["xfrm", "ext"], "cy")), size)?;
    eq("column widths", f.all("gridCol").iter().map(|k| k.attr("w").unwrap_or("").to_string()).collect::<Vec<_>>(), widths.iter().map(|w| w.to_string()).collect())?;
    let trs = f.all("tr");
    eq("rows", trs.len(), nr)?;
    let solid = |k: Option<&El>| k.and_then(|k| k.child("solidFill")).and_then(|f| f.child("srgbClr")).and_then(|v| v.attr("val")).unwrap_or("").to_string();
    let bare = |c: &Option<String>| c.as_deref().unwrap_or("").trim_start_matches('#').to_string();
    for (r, tr) in trs.iter().enumerate() {
        let h = tr.attr("h").unwrap_or("");
        match heights[r] {
            Some(w) => eq(&format!("height of row {r}"), h, &w.to_string())?,
            None => ensure!(h.parse::<i64>().is_ok_and(|h| h > 0), "row {r} has the height {h:?}"),
        }
        let tcs: Vec<&El> = tr.els().filter(|k| k.name == "tc").collect();
        eq(&format!("cells of row {r}"), tcs.len(), nc)?;
        for (k, tc) in tcs.iter().enumerate() {
            let w = format!("cell {r},{k}");
            let want = &cells[r][k];
            let flag = |a: &str| tc.attr(a) == Some("1");
            if let Some(o) = owner[r][k].filter(|o| *o != (r, k)) {
                eq(&format!("{w}: merged left/up"), (flag("hMerge"), flag("vMerge")), (o.1 < k, o.0 < r))?;
                ensure!(tc.text().trim().is_empty(), "{w} is covered but shows {:?}", tc.text());
                continue;
            }
            ensure!(!flag("hMerge") && !flag("vMerge"), "{w} is marked as covered");
            let n = |a: &str| tc.attr(a).unwrap_or("1").to_string();
            eq(&format!("{w}: spans"), (n("rowSpan"), n("gridSpan")), (want.row_span.to_string(), want.col_span.to_string()))?;
            eq(&format!("{w}: text"), tc.child("txBody").map(deck_p::body_text).unwrap_or_default(), want.text.clone())?;
            let rpr = tc.find("rPr");
            let a = |k: &str| rpr.and_then(|r| r.attr(k)).unwrap_or("").to_string();
            let on = |b: bool, v: &str| if b { v.to_string() } else { String::new() };
            eq(&format!("{w}: bold, italic, underline, strike"), (a("b"), a("i"), a("u"), a("strike")), (on(want.bold, "1"), on(want.italic, "1"), on(want.underline, "sng"), on(want.strikethrough, "sngStrike")))?;
            eq(&format!("{w}: size"), a("sz"), want.font_size.map(|s| (s * 100).to_string()).unwrap_or_default())?;
            eq(&format!("{w}: colour"), solid(rpr), bare(&want.text_color))?;
            eq(&format!("{w}: font"), rpr.and_then(|r| r.child("latin")).and_then(|l| l.attr("typeface")).unwrap_or("").to_string(), want.font_family.clone().unwrap_or_default())?;
            eq(&format!("{w}: alignment"), tc.find("pPr").and_then(|p| p.attr("algn")).unwrap_or("l"), want.h_align.as_str())?;
            let pr = tc.child("tcPr");
            eq(&format!("{w}: anchor"), pr.and_then(|p| p.attr("anchor")).unwrap_or("t"), want.v_align.as_str())?;
            eq(&format!("{w}: fill"), solid(pr), bare(&want.background_color))?;
            let m = |a: &str| pr.and_then(|p| p.attr(a)).unwrap_or("").to_string();
            let wm = want.margins.as_ref().map(|m| [m.left, m.right, m.top, m.bottom].map(|v| v.to_string())).unwrap_or_default();
            eq(&format!("{w}: margins"), [m("marL"), m("marR"), m("marT"), m("marB")], wm)?;
            for (tag, b) in [("lnL", want.borders.as_ref().and_then(|b| b.left.as_ref())), ("lnR", want.borders.as_ref().and_then(|b| b.right.as_ref())), ("lnT", want.borders.as_ref().and_then(|b| b.top.as_ref())), ("lnB", want.borders.as_ref().and_then(|b| b.bottom.as_ref()))] {
                let ln = pr.and_then(|p| p.child(tag));
                match (b, ln) {
                    (None, None) => {}
                    (Some(b), Some(ln)) if b.style == BorderStyle::None => ensure!(ln.child("noFill").is_some(), "{w}: the border {tag} that should be off is drawn"),
                    (Some(b), Some(ln)) => {
                        eq(&format!("{w}: {tag} width"), ln.attr("w").unwrap_or(""), &b.width.to_string())?;
                        eq(&format!("{w}: {tag} colour"), solid(Some(ln)), b.color.trim_start_matches('#').to_string())?;
                        let d = ln.child("prstDash").and_then(|d| d.attr("val")).unwrap_or("solid");
                        let dbl = ln.attr("cmpd") == Some("dbl");
                        eq(&format!("{w}: {tag} style"), (d, dbl), match b.style {
                            BorderStyle::Dashed => ("dash", false),
                            BorderStyle::Dotted => ("dot", false),
                            BorderStyle::Double => ("solid", true),
                            _ => ("solid", false),
                        })?;
                    }
                    (b, ln) => return fail(format!("{w}: border {tag} {b:?} is written as {:?}", ln.map(|l| l.canon()))),
                }
            }
        }
    }
    eq("Part::to_xml is the table", Part::to_xml(&t).is_ok(), true)?;
    // the crate's slide reader sees the same texts
    let s = guard(|| ppt_rs::oxml::SlideParser::parse(&doc))?.map_err(|e| Fail { msg: format!("the table is not read back: {e}") })?;
    ensure!(s.tables.len() == 1, "{} tables are read back", s.tables.len());
    let got: Vec<Vec<String>> = s.tables[0].rows.iter().map(|r| r.iter().map(|c| norm(&c.text)).collect()).collect();
    let want: Vec<Vec<String>> = cells.iter().map(|r| r.iter().map(|c| norm(&c.text)).collect()).collect();
    eq("texts read back", got, want)
}

/// Malformed XML is refused by every part, without a crash.
fn refuse(c: &mut Ctx) -> Res {
    let x = match c.s.below(5) {
        0 => String::new(),
        1 => "<a><b></a>".into(),
        2 => gen::text0(&mut c.s),
        3 => "<p:sld/>".into(),
        _ => {
            let p = NotesSlidePart::with_text(1, gen::text(&mut c.s));
            let x = p.to_xml().unwrap();
            let mut k = c.s.usize(x.len());
            while !x.is_char_boundary(k) {
                k -= 1;
            }
            x[..k].to_string()
        }
    };
    let bad = xml::parse(&x).is_err();
    c.nontrivial(bad);
    c.note(|| x.clone());
    macro_rules! t {
        ($($t:ty),*) => {$(
            let r = guard(|| <$t>::from_xml(&x).is_ok())?;
            ensure!(!(bad && r), "{} accepts malformed XML", stringify!($t));
        )*};
    }
    t!(PresentationPart, SlidePart, SlideLayoutPart, SlideMasterPart, ThemePart, NotesSlidePart, ChartPart, CorePropertiesPart, AppPropertiesPart, ContentTypesPart);
    let r = guard(|| Relationships::from_xml(&x).is_ok())?;
    ensure!(!(bad && r), "Relationships accept malformed XML");
    ensure!(ImagePart::from_xml(&x).is_err() && MediaPart::from_xml(&x).is_err(), "a binary part is read from XML");
    Ok(())
}

fn probe_setters() -> Res {
    let x = SlideLayoutPart::new(1, LayoutType::Blank).to_xml().unwrap();
    let mut p = SlideLayoutPart::from_xml(&x).unwrap();
    p.set_name("Renamed");
    let mut t = ThemePart::from_xml(&ThemePart::new(1).to_xml().unwrap()).unwrap();
    t.set_color("accent1", "123456");
    let mut m = SlideMasterPart::from_xml(&SlideMasterPart::new(1).to_xml().unwrap()).unwrap();
    m.add_layout_rel_id("rId5");
    ensure!(
        p.to_xml().unwrap().contains("Renamed") && t.to_xml().unwrap().contains("123456") && m.to_xml().unwrap().contains("rId5"),
        "changes to layout, master and theme parts that were read are not written"
    );
    Ok(())
}
fn probe_table() -> Res {
    let t = TablePart::new().add_row(TableRowPart::new(vec![TableCellPart::new("here")]));
    let x = Part::to_xml(&t).unwrap();
    let x = x.replacen("<p:graphicFrame>", "<p:graphicFrame xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\">", 1);
    let q = TablePart::from_xml(&x).map_err(|e| Fail { msg: e.to_string() })?;
    ensure!(q.rows.len() == 1 && q.rows[0].cells[0].text == "here", "a table part read from XML has no rows");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "a case is non-trivial when something was added or set (relationships, content types: more than one entry; presentation: more than one slide; table: more than one cell; refusal: the XML is malformed)",
        assumptions: &["cell texts of table parts are one line", "the harness' own XML parser and content model are the reference"],
        subs: vec![
            Sub { name: "relationships", quick: 30000, run: relationships },
            Sub { name: "content-types", quick: 20000, run: content_types },
            Sub { name: "core-properties", quick: 20000, run: core_props },
            Sub { name: "app-properties", quick: 20000, run: app_props },
            Sub { name: "presentation", quick: 20000, run: presentation },
            Sub { name: "binary", quick: 10000, run: binary },
            Sub { name: "notes", quick: 10000, run: notes },
            Sub { name: "theme", quick: 6000, run: theme },
            Sub { name: "layouts", quick: 8000, run: layouts },
            Sub { name: "charts", quick: 4000, run: charts },
            Sub { name: "slides", quick: 6000, run: slides },
            Sub { name: "tables", quick: 4000, run: tables },
            Sub { name: "refuse", quick: 5000, run: refuse },
        ],
        probes: vec![Probe { key: "read-part-setters", run: probe_setters }, Probe { key: "table-part-reading", run: probe_table }],
    }
}

//! C06: histories of edits against a list of slides.
use super::deck_p::*;
use super::schema_p;
use crate::engine::*;
use crate::foreign::*;
use crate::opc::{self, Pkg};
use crate::gen;
use ppt_rs::generator::*;
use ppt_rs::oxml::{PresentationEditor, PresentationReader};
use std::collections::BTreeSet;

#[derive(Clone)]
enum Item {
    /// slide of the opened presentation: its part, and index in the deck
    Old(String, usize),
    New(Box<SlideContent>),
}
fn opts(s: &mut Src, base: bool) -> gen::SlideOpts {
    let imgs = (0..3).map(|_| gen::image_bytes(s)).collect();
    gen::SlideOpts { txt: gen::text0, slides: 1, rich: true, ink: base, notes: base, links: false, imgs: if base { imgs } else { vec![] } }
}
fn new_slide(s: &mut Src) -> SlideContent {
    let o = opts(s, false);
    let mut c = gen::slide(s, &o);
    // the editor writes slide text, shapes and tables; what needs parts of its own is a recorded finding
    c.charts.clear();
    c.has_chart = false;
    c.images.clear();
    c.has_image = false;
    c
}
fn bytes_of(ed: &PresentationEditor, f: &std::path::Path) -> Result<Vec<u8>, Fail> {
    ed.save(f.to_str().unwrap()).map_err(|e| Fail { msg: format!("save: {e}") })?;
    std::fs::read(f).map_err(|e| Fail { msg: e.to_string() })
}
fn title_of(d: &[SlideContent], i: &Item) -> String {
    let s = match i {
        Item::Old(_, k) => &d[*k],
        Item::New(s) => s,
    };
    if s.layout == SlideLayout::Blank { String::new() } else { norm(&s.title) }
}
fn run(c: &mut Ctx) -> Res {
    let o = opts(&mut c.s, true);
    let n = c.s.len(1, 5);
    let slides: Vec<SlideContent> = (0..n).map(|_| gen::slide(&mut c.s, &o)).collect();
    let mut d = gen::Deck { title: gen::text0(&mut c.s), slides, settings: None };
    if c.s.chance(40) {
        d.settings = Some(gen::settings(&mut c.s, n));
        c.label("settings");
    }
    let mut b = build(&d)?;
    let mut order: Vec<usize> = (0..n).collect();
    let mut p0 = e(Pkg::read(&b))?;
    if c.s.chance(40) {
        order = e(foreignize(&mut p0, &mut c.s))?;
        b = p0.write(true);
        c.label("respelled");
    }
    let ct0 = e(opc::content_types(&p0))?;
    let sl0 = e(p0.slide_paths())?;
    let mut model: Vec<Item> = sl0.iter().zip(&order).map(|(p, &i)| Item::Old(p.clone(), i)).collect();
    let f = c.file("e.pptx");
    std::fs::write(&f, &b).map_err(|e| Fail { msg: e.to_string() })?;
    let mut ed = PresentationEditor::open(f.to_str().unwrap()).map_err(|e| Fail { msg: format!("open: {e}") })?;
    let mut log = vec![];
    let nops = c.s.len(1, 10);
    let mut removed = false;
    for _ in 0..nops {
        let len = model.len();
        // sometimes one past the end
        let at = |s: &mut Src| s.usize(len + 1);
        let what;
        let ok;
        let want;
        match c.s.below(7) {
            0 => {
                let sl = new_slide(&mut c.s);
                what = "add".to_string();
                want = true;
                let r = ed.add_slide(sl.clone());
                ok = r.is_ok();
                if let Ok(i) = r {
                    ensure!(i == len, "{what}: returned index {i}, list had {len} slides");
                }
                model.push(Item::New(Box::new(sl)));
            }
            1 => {
                let sl = new_slide(&mut c.s);
                let i = c.s.usize(len + 2);
                what = format!("insert {i}");
                want = i <= len;
                let r = ed.insert_slide(i, sl.clone());
                ok = r.is_ok();
                if let Ok(j) = r {
                    ensure!(j == i, "{what}: returned index {j}");
                    if want {
                        model.insert(i, Item::New(Box::new(sl)));
                    }
                }
            }
            2 => {
                let sl = new_slide(&mut c.s);
                let i = at(&mut c.s);
                what = format!("update {i}");
                want = i < len;
                ok = ed.update_slide(i, sl.clone()).is_ok();
                if want {
                    // notes of the slide stay with it
                    let keep = match &model[i] {
                        Item::Old(_, k) => d.slides[*k].notes.clone(),
                        Item::New(o) => o.notes.clone(),
                    };
                    let mut sl = sl;
                    sl.notes = keep;
                    model[i] = Item::New(Box::new(sl));
                }
            }
            3 => {
                let i = at(&mut c.s);
                what = format!("remove {i}");
                want = i < len;
                ok = ed.remove_slide(i).is_ok();
                if want {
                    model.remove(i);
                    removed = true;
                }
            }
            4 => {
                let i = at(&mut c.s);
                what = format!("duplicate {i}");
                want = i < len;
                let r = ed.duplicate_slide(i);
                ok = r.is_ok();
                if want {
                    ensure!(r.as_ref().ok() == Some(&(i + 1)), "{what}: returned {:?}", r.ok());
                    let m = model[i].clone();
                    model.insert(i + 1, m);
                }
            }
            5 => {
                let (i, j) = (at(&mut c.s), at(&mut c.s));
                what = format!("reorder {i} to {j}");
                want = i < len && j < len;
                ok = ed.reorder_slide(i, j).is_ok();
                if want {
                    let m = model.remove(i);
                    model.insert(j, m);
                }
            }
            _ => {
                what = "save and open".into();
                want = true;
                bytes_of(&ed, &f)?;
                let r = PresentationEditor::open(f.to_str().unwrap());
                ok = r.is_ok();
                if let Ok(x) = r {
                    ed = x;
                }
            }
        }
        log.push(what.clone());
        c.note(|| format!("{log:?}\n{d:#?}"));
        ensure!(ok == want, "{what} with {len} slides: {}", if ok { "accepted" } else { "refused" });
        ensure!(ed.slide_count() == model.len(), "after {what}: {} slides, expected {}", ed.slide_count(), model.len());
        for (k, m) in model.iter().enumerate() {
            let g = ed.get_slide(k).map_err(|e| Fail { msg: format!("after {what}: slide {k}: {e}") })?;
            let t = title_of(&d.slides, m);
            ensure!(g.title.clone().unwrap_or_default() == t, "after {what}: slide {k} is {:?}, expected {t:?}", g.title);
        }
        ensure!(ed.get_slide(model.len()).is_err(), "after {what}: a slide past the end was read");
    }
    c.nontrivial(log.len() > 1);
    let b = bytes_of(&ed, &f)?;
    let rd = PresentationReader::open(f.to_str().unwrap()).map_err(|e| Fail { msg: format!("reader: {e}") })?;
    ensure!(rd.slide_count() == model.len(), "reader counts {} slides, expected {}", rd.slide_count(), model.len());
    let p = e(opc::check_package(&b))?;
    schema_p::check_all(&p)?;
    let sl = e(p.slide_paths())?;
    ensure!(sl.len() == model.len(), "{} slides saved, expected {}", sl.len(), model.len());
    let mut gone: BTreeSet<&String> = sl0.iter().collect();
    for (k, (m, path)) in model.iter().zip(&sl).enumerate() {
        let g = rd.get_slide(k).map_err(|e| Fail { msg: e.to_string() })?;
        let t = title_of(&d.slides, m);
        ensure!(g.title.clone().unwrap_or_default() == t, "reader: slide {k} is {:?}, expected {t:?}", g.title);
        match m {
            Item::New(s) => check_slide_text(&p, path, s, k + 1)?,
            Item::Old(op, i) => {
                gone.remove(op);
                check_slide_text(&p, path, &d.slides[*i], k + 1)?;
                ensure!(p.parts[path] == p0.parts[op], "slide {k}: an untouched slide changed");
                // everything it refers to is still there and the same
                let (ra, rb) = (e(p0.rels(op))?, e(p.rels(path))?);
                ensure!(ra.len() == rb.len(), "slide {k}: {} relationships, had {}", rb.len(), ra.len());
                for r in &ra {
                    let Some(q) = rb.iter().find(|q| q.id == r.id) else { return fail(format!("slide {k}: relationship {} lost", r.id)) };
                    ensure!(q.typ == r.typ && q.external == r.external, "slide {k}: relationship {} changed kind", r.id);
                    if r.external {
                        ensure!(q.target == r.target, "slide {k}: link {} changed target", r.id);
                    } else {
                        let (x, y) = (opc::resolve(op, &r.target), opc::resolve(path, &q.target));
                        ensure!(p0.parts.get(&x) == p.parts.get(&y), "slide {k}: {} behind relationship {} changed", r.kind(), r.id);
                    }
                }
            }
        }
    }
    // parts that no edit concerns are untouched, with the same content type
    let ct = e(opc::content_types(&p))?;
    for (n, v) in &p0.parts {
        let own = n == "[Content_Types].xml" || n == "ppt/presentation.xml" || n.contains("_rels/") || sl0.contains(n) || n.starts_with("ppt/notesSlides/");
        if own {
            continue;
        }
        let still = p.parts.get(n);
        ensure!(still.is_some() || !gone.is_empty(), "{n} is gone although no slide was removed");
        ensure!(still.is_none() || still == Some(v), "{n} changed");
        if still.is_some() {
            ensure!(ct.of(n) == ct0.of(n), "{n}: content type {:?}, was {:?}", ct.of(n), ct0.of(n));
        }
    }
    // the presentation part differs only in its list of slides
    let strip = |x: &crate::xml::El| x.els().filter(|k| !matches!(k.name.as_str(), "sldIdLst" | "extLst" | "custShowLst")).map(|k| k.name.clone()).collect::<Vec<_>>();
    let (a, bb) = (e(p0.xml("ppt/presentation.xml"))?, e(p.xml("ppt/presentation.xml"))?);
    ensure!(strip(&a) == strip(&bb), "presentation has {:?}, had {:?}", strip(&bb), strip(&a));
    let size = |x: &crate::xml::El| x.child("sldSz").map(|s| s.canon());
    ensure!(size(&a) == size(&bb), "slide size changed");
    let ids: Vec<&str> = bb.child("sldIdLst").map(|l| l.els().filter_map(|s| s.attr("id")).collect()).unwrap_or_default();
    ensure!(ids.iter().collect::<BTreeSet<_>>().len() == ids.len(), "slide ids repeat: {ids:?}");
    for s in bb.all("sldId").iter().filter(|s| s.ns.contains("2010")) {
        ensure!(ids.contains(&s.attr("id").unwrap_or("")), "a section lists slide id {:?}, which no slide has", s.attr("id"));
    }
    if removed {
        c.label("removed");
    }
    Ok(())
}
/// content that needs parts of its own is not packaged by the editor
fn probe_content() -> Res {
    let dir = std::env::temp_dir().join(format!("vh-ed-{}", std::process::id()));
    std::fs::create_dir_all(&dir).ok();
    let f = dir.join("p.pptx");
    let r = (|| {
        std::fs::write(&f, create_pptx_with_content("t", vec![SlideContent::new("a")]).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        let mut ed = PresentationEditor::open(f.to_str().unwrap()).map_err(|e| e.to_string())?;
        ed.add_slide(SlideContent::new("b").add_chart(Chart::new("c", ChartType::Bar, vec!["x".into()], 0, 0, 1000, 1000).add_series(ChartSeries::new("s", vec![1.0]))).notes("n")).map_err(|e| e.to_string())?;
        ed.save(f.to_str().unwrap()).map_err(|e| e.to_string())?;
        let p = opc::check_package(&std::fs::read(&f).map_err(|e| e.to_string())?)?;
        let sl = p.slide_paths()?;
        if p.related(&sl[1], "chart")?.is_empty() {
            return Err("chart of an added slide is not packaged".to_string());
        }
        if notes_text(&p, &sl[1])? != Some("n".into()) {
            return Err("notes of an added slide are not packaged".to_string());
        }
        Ok(())
    })();
    std::fs::remove_dir_all(&dir).ok();
    r.map_err(|m| Fail { msg: m })
}
fn probe_link() -> Res {
    let dir = std::env::temp_dir().join(format!("vh-el-{}", std::process::id()));
    std::fs::create_dir_all(&dir).ok();
    let f = dir.join("p.pptx");
    let r = (|| {
        let sh = Shape::new(ShapeType::Rectangle, 0, 0, 1000, 1000).with_hyperlink(Hyperlink::new(HyperlinkAction::slide(2)));
        std::fs::write(&f, create_pptx_with_content("t", vec![SlideContent::new("a").add_shape(sh), SlideContent::new("b")]).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        let mut ed = PresentationEditor::open(f.to_str().unwrap()).map_err(|e| e.to_string())?;
        ed.remove_slide(1).map_err(|e| e.to_string())?;
        ed.save(f.to_str().unwrap()).map_err(|e| e.to_string())?;
        opc::check_package(&std::fs::read(&f).map_err(|e| e.to_string())?).map(|_| ())
    })();
    std::fs::remove_dir_all(&dir).ok();
    r.map_err(|m| Fail { msg: m })
}
pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "a history of at least two operations",
        assumptions: &["slides given to the editor carry text, shapes, tables, connectors and code (recorded finding: it does not package charts, images, notes and links of new slides)", "no slide links in the opened deck (recorded finding: removing their target leaves them dangling)"],
        subs: vec![Sub { name: "history", quick: 1200, run }],
        probes: vec![Probe { key: "editor-new-slide-parts", run: probe_content }, Probe { key: "editor-remove-linked-slide", run: probe_link }],
    }
}

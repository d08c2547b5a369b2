//! C04: every way of producing the same presentation yields the same presentation, and reports write errors.
use super::deck_p::e;
use crate::engine::*;
use crate::opc::{self, Pkg};
use crate::gen;
use ppt_rs::generator::*;
use ppt_rs::Presentation;
use std::io::{self, Cursor, Seek, SeekFrom, Write};

/// Why two packages differ, ignoring zip details, order of declarations and the time of creation.
pub fn differ(a: &Pkg, b: &Pkg) -> Result<Option<String>, String> {
    let (ka, kb): (Vec<_>, Vec<_>) = (a.parts.keys().collect(), b.parts.keys().collect());
    if ka != kb {
        let x: Vec<_> = ka.iter().filter(|k| !kb.contains(k)).collect();
        let y: Vec<_> = kb.iter().filter(|k| !ka.contains(k)).collect();
        return Ok(Some(format!("parts only in the first: {x:?}, only in the second: {y:?}")));
    }
    for k in ka {
        let (da, db) = (&a.parts[k], &b.parts[k]);
        if da == db {
            continue;
        }
        if k == "[Content_Types].xml" {
            let (ca, cb) = (opc::content_types(a)?, opc::content_types(b)?);
            for p in a.parts.keys() {
                if ca.of(p) != cb.of(p) {
                    return Ok(Some(format!("{p} declared as {:?} and {:?}", ca.of(p), cb.of(p))));
                }
            }
            continue;
        }
        if k.ends_with(".rels") {
            let key = |p: &Pkg| -> Result<Vec<String>, String> {
                let x = p.xml(k)?;
                let mut v: Vec<String> = opc::parse_rels(&x, k)?.iter().map(|r| format!("{} {} {} {}", r.id, r.typ, r.target, r.external)).collect();
                v.sort();
                Ok(v)
            };
            let (x, y) = (key(a)?, key(b)?);
            if x != y {
                return Ok(Some(format!("{k}: {x:?} / {y:?}")));
            }
            continue;
        }
        if k.ends_with(".xml") {
            let (mut x, mut y) = (a.xml(k)?, b.xml(k)?);
            if k == "docProps/core.xml" {
                for t in [&mut x, &mut y] {
                    t.kids.retain(|n| !matches!(n, crate::xml::Node::El(e) if e.name == "created" || e.name == "modified"));
                }
            }
            let (x, y) = (x.canon(), y.canon());
            if x != y {
                let i = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count();
                let cut = |s: &str| s.chars().skip(i.saturating_sub(60)).take(160).collect::<String>();
                return Ok(Some(format!("{k} differs: …{}… / …{}…", cut(&x), cut(&y))));
            }
            continue;
        }
        return Ok(Some(format!("{k}: {} and {} bytes", da.len(), db.len())));
    }
    Ok(None)
}
pub struct Lazy(pub Vec<SlideContent>);
impl LazySlideSource for Lazy {
    fn slide_count(&self) -> usize {
        self.0.len()
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        self.0.get(i).cloned()
    }
}
fn same(what: &str, base: &Pkg, bytes: &[u8]) -> Res {
    let p = e(Pkg::read(bytes))?;
    if let Some(d) = e(differ(base, &p))? {
        return fail(format!("{what} differs from the in-memory build: {d}"));
    }
    Ok(())
}
fn g<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Result<T, Fail> {
    r.map_err(|x| Fail { msg: format!("{what}: {x}") })
}
fn paths(c: &mut Ctx) -> Res {
    let mut d = gen::deck(&mut c.s, gen::text0, true);
    if c.s.chance(50) {
        d.settings = Some(gen::settings(&mut c.s, d.slides.len()));
        c.label("settings");
    }
    c.note(|| format!("{d:#?}"));
    c.nontrivial(d.slides.len() > 1);
    let base = g("build", create_pptx_with_settings(&d.title, &d.slides, d.settings.clone()))?;
    let base = e(Pkg::read(&base))?;
    let again = g("build", create_pptx_with_settings(&d.title, &d.slides, d.settings.clone()))?;
    same("a second build", &base, &again)?;
    let w = g("writer", create_pptx_with_content_to_writer(Cursor::new(vec![]), &d.title, &d.slides, d.settings.clone()))?;
    same("the streaming build", &base, w.get_ref())?;
    let w = g("lazy", create_pptx_lazy_to_writer(Cursor::new(vec![]), &d.title, Box::new(Lazy(d.slides.clone())), d.settings.clone()))?;
    same("the lazy build", &base, w.get_ref())?;
    let mut p = Presentation::with_title(&d.title);
    for s in &d.slides {
        p = p.add_slide(s.clone());
    }
    if let Some(s) = &d.settings {
        p = p.with_settings(s.clone());
    }
    same("the presentation object", &base, &g("build", p.build())?)?;
    let f = c.file("p.pptx");
    g("save", p.save(&f))?;
    same("the saved file", &base, &g("read", std::fs::read(&f))?)?;
    same("the consumed presentation", &base, &g("into_bytes", p.into_bytes())?)?;
    if d.settings.is_none() {
        same("the content build", &base, &g("content", create_pptx_with_content(&d.title, d.slides.clone()))?)?;
    }
    Ok(())
}
/// joining presentations appends slides and keeps the first one's title
fn join(c: &mut Ctx) -> Res {
    let n = c.s.len(1, 4);
    let mut model: Vec<SlideContent> = vec![];
    let title = gen::text0(&mut c.s);
    let mut p = Presentation::with_title(&title);
    for _ in 0..n {
        let rich = c.s.bool();
        let d = gen::deck(&mut c.s, gen::words, rich);
        let mut q = Presentation::with_title(&d.title);
        for s in &d.slides {
            q = q.add_slide(s.clone());
        }
        if c.s.bool() {
            p = p.add_presentation(q);
            model.extend(d.slides);
        } else {
            let mut s = d.slides[0].clone();
            for sh in &mut s.shapes {
                sh.hyperlink = None;
            }
            p = p.add_slide(s.clone());
            model.push(s);
        }
    }
    c.note(|| format!("{title:?} {model:#?}"));
    c.nontrivial(model.len() > 2);
    ensure!(p.slide_count() == model.len() && p.get_title() == title, "{} slides titled {:?}, expected {} titled {title:?}", p.slide_count(), p.get_title(), model.len());
    for (a, b) in p.slides().iter().zip(&model) {
        ensure!(format!("{a:?}") == format!("{b:?}"), "slide changed while joining");
    }
    let base = e(Pkg::read(&g("build", create_pptx_with_settings(&title, &model, None))?))?;
    same("the joined presentation", &base, &g("build", p.build())?)
}
struct Bad {
    inner: Cursor<Vec<u8>>,
    left: u64,
    seeks: u64,
    hit: std::rc::Rc<std::cell::Cell<bool>>,
    short: bool,
}
impl Write for Bad {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 {
            self.hit.set(true);
            return Err(io::Error::new(io::ErrorKind::Other, "disk full"));
        }
        let n = (b.len() as u64).min(self.left) as usize;
        let n = if self.short { n.min(7) } else { n };
        self.left -= n as u64;
        self.inner.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.left == 0 {
            self.hit.set(true);
            return Err(io::Error::new(io::ErrorKind::Other, "disk full"));
        }
        Ok(())
    }
}
impl Seek for Bad {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if self.seeks == 0 {
            self.hit.set(true);
            return Err(io::Error::new(io::ErrorKind::Other, "not seekable"));
        }
        self.seeks -= 1;
        self.inner.seek(p)
    }
}
fn faults(c: &mut Ctx) -> Res {
    let mut d = gen::deck(&mut c.s, gen::words, true);
    if c.s.chance(40) {
        d.settings = Some(gen::settings(&mut c.s, d.slides.len()));
    }
    let base = g("build", create_pptx_with_settings(&d.title, &d.slides, d.settings.clone()))?;
    let left = match c.s.below(4) {
        0 => u64::MAX,
        1 => base.len() as u64 - c.s.below(400.min(base.len() as u64)),
        _ => c.s.below(base.len() as u64 + 2000),
    };
    let seeks = if c.s.chance(30) { c.s.below(120) } else { u64::MAX };
    let hit = std::rc::Rc::new(std::cell::Cell::new(false));
    let short = c.s.bool();
    let w = Bad { inner: Cursor::new(vec![]), left, seeks, hit: hit.clone(), short };
    let kind = c.s.below(3);
    c.note(|| format!("fail after {left} bytes / {seeks} seeks, short writes {short}, path {kind}, {d:#?}"));
    let r = guard(|| match kind {
        0 => create_pptx_with_content_to_writer(w, &d.title, &d.slides, d.settings.clone()),
        1 => create_pptx_lazy_to_writer(w, &d.title, Box::new(Lazy(d.slides.clone())), d.settings.clone()),
        _ => create_pptx_to_writer(w, &d.title, d.slides.len()),
    })?;
    c.nontrivial(hit.get());
    c.label(if hit.get() { "fault" } else { "no fault" });
    match r {
        Ok(w) => {
            ensure!(!hit.get(), "a write error was reported as success");
            e(opc::check_package(w.inner.get_ref()))?;
            if kind < 2 {
                same("the file written", &e(Pkg::read(&base))?, w.inner.get_ref())?;
            }
        }
        Err(x) => ensure!(hit.get(), "error without a fault: {x}"),
    }
    Ok(())
}
/// decks asked for by slide count
fn counted(c: &mut Ctx) -> Res {
    let n = c.s.len(1, 60);
    let t = gen::text0(&mut c.s);
    c.note(|| format!("{n} slides titled {t:?}"));
    c.nontrivial(n > 9);
    let a = g("build", create_pptx(&t, n))?;
    let p = e(opc::check_package(&a))?;
    let sl = e(p.slide_paths())?;
    ensure!(sl.len() == n, "{} slides, expected {n}", sl.len());
    crate::props::schema_p::check_all(&p)?;
    super::deck_p::check_core_title(&p, &t)?;
    let w = g("writer", create_pptx_to_writer(Cursor::new(vec![]), &t, n))?;
    same("the streaming build", &p, w.get_ref())
}
pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "more than one slide (paths), more than two slides joined (join), an injected fault was hit (faults), more than nine slides (counted)",
        assumptions: &["zip timestamps, the order of declarations and the creation time in the core properties are ignored", "a lazy source returns the same slide each time it is asked"],
        subs: vec![Sub { name: "paths", quick: 700, run: paths }, Sub { name: "join", quick: 300, run: join }, Sub { name: "faults", quick: 1500, run: faults }, Sub { name: "counted", quick: 250, run: counted }],
        probes: vec![],
    }
}

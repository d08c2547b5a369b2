use crate::engine::*;
use crate::{gen, opc, schema};
use ppt_rs::generator::{create_pptx_with_settings, Shape, ShapeType, SlideContent};

pub fn check_all(p: &opc::Pkg) -> Res {
    for n in p.parts.keys() {
        if !n.ends_with(".xml") || n == "[Content_Types].xml" || n.starts_with("docProps/") {
            continue;
        }
        let x = p.xml(n)?;
        schema::check_tree(&x, n)?;
        if x.find("cSld").is_some() {
            schema::check_ids(&x, n)?;
        }
    }
    Ok(())
}
fn deck(c: &mut Ctx) -> Res {
    let mut d = gen::deck(&mut c.s, gen::text0, true);
    if c.s.bool() {
        d.settings = Some(gen::settings(&mut c.s, d.slides.len()));
    }
    c.note(|| format!("{d:#?}"));
    c.nontrivial(true);
    let b = create_pptx_with_settings(&d.title, &d.slides, d.settings.clone()).map_err(|e| Fail { msg: format!("build: {e}") })?;
    check_all(&opc::Pkg::read(&b)?)
}
fn probe_ids() -> Res {
    let s = SlideContent::new("t").add_bullet("b").add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_id(2));
    let b = create_pptx_with_settings("t", &[s], None).map_err(|e| Fail { msg: format!("build: {e}") })?;
    let p = opc::Pkg::read(&b)?;
    ensure!(schema::check_ids(&p.xml(&p.slide_paths()?[0])?, "slide").is_ok(), "a shape given an id the slide's own title, body or table uses leaves two elements with that id");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "every generated deck",
        assumptions: &["the content model lists the elements of the schemas the library can emit; elements outside it are reported"],
        subs: vec![Sub { name: "deck", quick: 1200, run: deck }],
        probes: vec![Probe { key: "shape-id-reserved", run: probe_ids }],
    }
}

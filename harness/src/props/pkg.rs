use crate::engine::*;
use crate::{gen, opc};
use ppt_rs::generator::create_pptx_with_settings;

fn deck_plain(c: &mut Ctx) -> Res {
    let d = gen::deck(&mut c.s, gen::text0, true);
    c.note(|| format!("{d:#?}"));
    c.nontrivial(true);
    let b = create_pptx_with_settings(&d.title, &d.slides, None).map_err(|e| Fail { msg: format!("build: {e}") })?;
    opc::check_package(&b)?;
    Ok(())
}
fn deck_settings(c: &mut Ctx) -> Res {
    let mut d = gen::deck(&mut c.s, gen::text0, false);
    d.settings = Some(gen::settings(&mut c.s, d.slides.len()));
    c.note(|| format!("{d:#?}"));
    c.nontrivial(true);
    let b = create_pptx_with_settings(&d.title, &d.slides, d.settings.clone()).map_err(|e| Fail { msg: format!("build: {e}") })?;
    opc::check_package(&b)?;
    Ok(())
}
pub fn prop() -> Prop {
    Prop { id: "C01", rule: "every generated deck (packages always have at least the fixed parts; decks have up to six slides with a random mix of features)", assumptions: &["image bytes given are readable, or the image is skipped", "slide links point at slides of the deck"], subs: vec![Sub { name: "rich", quick: 800, run: deck_plain }, Sub { name: "settings", quick: 800, run: deck_settings }], probes: vec![] }
}

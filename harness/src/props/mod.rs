use crate::engine::Prop;
pub mod cli_p;
pub mod deck_p;
pub mod container_p;
pub mod markdown_p;
pub mod helpers_p;
pub mod html_p;
pub mod export_p;
pub mod paths;
pub mod editor_p;
pub mod pdf_p;
pub mod pkg;
pub mod reader_p;
pub mod repair_p;
pub mod render_p;
pub mod robust_p;
pub mod schema_p;
pub mod settings_p;
pub mod mermaid_p;
pub mod web_p;
pub mod builder_p;
pub mod parts_p;
pub mod xmlcore_p;
pub mod validate_p;
pub fn all() -> Vec<Prop> {
    vec![pkg::prop(), schema_p::prop(), deck_p::c03(), paths::prop(), reader_p::prop(), editor_p::prop(), container_p::c07(), container_p::c11(), robust_p::prop(), validate_p::prop(), repair_p::prop(), deck_p::c12(), deck_p::c13(), deck_p::c14(), deck_p::c16(), deck_p::c17(), deck_p::c18(), html_p::prop(), settings_p::prop(), markdown_p::prop(), export_p::md_prop(), export_p::html_prop(), helpers_p::c25(), helpers_p::c29(), cli_p::prop(), pdf_p::prop(), mermaid_p::prop(), web_p::prop(), xmlcore_p::prop(), parts_p::prop(), builder_p::prop(), render_p::prop()]
}

//! Structured generators for presentations.
use crate::engine::Src;
use ppt_rs::generator::slide_content::{BulletTextFormat, CodeBlock, TransitionType};
use ppt_rs::generator::*;

const SPECIAL: &[char] = &['&', '<', '>', '"', '\'', ';', '#', '*', '_', '`', '|', '[', ']', '(', ')', '{', '}', '\\', '/', '-', '+', '!', '~', '$', '%', '=', ':', ',', '.'];
const UNI: &[char] = &['é', 'ß', 'ñ', '中', '文', 'я', 'ا', 'ש', '한', '€', '—', '“', '…', '\u{a0}', '😀', '𝒳', 'İ', 'ﬁ', '\u{301}', '\u{200b}', '\u{feff}', '\u{2028}', '\u{fffd}', '\u{10ffff}', '\u{85}'];
const SNIPS: &[&str] = &["&amp;", "&lt;b&gt;", "<b>", "</a:t>", "]]>", "<!--", "-->", "<![CDATA[", "<?xml?>", "&#65;", "&#x0;", "{}", "{{x}}", "rId1", "%s", "</p:sld>", "\\n", "a:t", "p:sp", "\"/>", "' x='"];

/// One XML-legal character.
pub fn ch(s: &mut Src) -> char {
    match s.below(10) {
        0..=5 => *s.pick(&['a', 'b', 'c', 'X', 'Y', '1', '2', 'z', 'q', 'W', '0', '9']),
        6 => ' ',
        7 | 8 => *s.pick(SPECIAL),
        _ => *s.pick(UNI),
    }
}
/// Any XML-legal text on one line, possibly empty, possibly with leading/trailing blanks.
pub fn text0(s: &mut Src) -> String {
    let mut t = String::new();
    let n = s.len(0, 12);
    for _ in 0..n {
        if s.chance(6) {
            t.push_str(*s.pick(SNIPS));
        } else {
            t.push(ch(s));
        }
    }
    t
}
/// Non-empty, with at least one visible character.
pub fn text(s: &mut Src) -> String {
    let mut t = text0(s);
    if t.trim().is_empty() {
        t.push('a');
    }
    t
}
/// plain words: letters, digits, single inner blanks
pub fn word(s: &mut Src) -> String {
    let n = s.len(1, 8);
    (0..n).map(|_| *s.pick(&['a', 'b', 'c', 'd', 'e', 'X', 'Y', 'Z', '1', '7', 'é', '中'])).collect()
}
pub fn words(s: &mut Src) -> String {
    let n = s.len(1, 4);
    (0..n).map(|_| word(s)).collect::<Vec<_>>().join(" ")
}
/// text with newlines/tabs
pub fn multiline(s: &mut Src) -> String {
    let n = s.len(1, 4);
    let v: Vec<String> = (0..n).map(|_| text0(s)).collect();
    v.join(*s.pick(&["\n", "\n", "\n\n", "\t"]))
}
/// text including characters XML 1.0 cannot represent
pub fn hostile(s: &mut Src) -> String {
    let mut t = String::new();
    let n = s.len(0, 10);
    for _ in 0..n {
        match s.below(6) {
            0 => t.push(*s.pick(&['\u{0}', '\u{1}', '\u{8}', '\u{b}', '\u{c}', '\u{1f}', '\u{7f}', '\u{fffe}', '\u{ffff}', '\r', '\n', '\t'])),
            1 => t.push_str(*s.pick(SNIPS)),
            _ => t.push(ch(s)),
        }
    }
    t
}
pub fn hex(s: &mut Src) -> String {
    let v = s.below(1 << 24);
    format!("{v:06X}")
}
/// A colour as a user may write it.
pub fn color(s: &mut Src) -> String {
    let h = hex(s);
    match s.below(3) {
        0 => h,
        1 => format!("#{h}"),
        _ => h.to_lowercase(),
    }
}
pub fn emu(s: &mut Src) -> u32 {
    match s.below(8) {
        0 => 0,
        1 => 1,
        2 => 20_000_000 + s.below(30_000_000) as u32,
        _ => s.below(9_144_000) as u32,
    }
}
pub fn ext(s: &mut Src) -> u32 {
    emu(s).max(1)
}
pub const BULLETS: &[BulletStyle] = &[BulletStyle::Bullet, BulletStyle::Number, BulletStyle::LetterLower, BulletStyle::LetterUpper, BulletStyle::RomanLower, BulletStyle::RomanUpper, BulletStyle::None];
pub fn bullet_style(s: &mut Src) -> BulletStyle {
    if s.chance(20) {
        BulletStyle::Custom(*s.pick(&['→', '*', '✓', '<', '&', '"', '\'', '>', '😀', 'x']))
    } else {
        *s.pick(BULLETS)
    }
}
pub fn bullet_format(s: &mut Src) -> BulletTextFormat {
    let mut f = BulletTextFormat::new();
    if s.bool() {
        f = f.bold();
    }
    if s.bool() {
        f = f.italic();
    }
    if s.chance(30) {
        f = f.underline();
    }
    if s.chance(30) {
        f = f.strikethrough();
    }
    match s.below(4) {
        1 => f = f.subscript(),
        2 => f = f.superscript(),
        _ => {}
    }
    if s.chance(40) {
        f = f.color(&color(s));
    }
    if s.chance(30) {
        f = f.highlight(&color(s));
    }
    if s.chance(40) {
        f = f.font_size(s.range(1, 400) as u32);
    }
    if s.chance(30) {
        f = f.font_family(&font_name(s));
    }
    f
}
pub fn font_name(s: &mut Src) -> String {
    s.pick(&["Arial", "Times New Roman", "Consolas", "A & B \"Font\"", "微软雅黑", "O'Neil <x>"]).to_string()
}
pub fn bullet(s: &mut Src, txt: fn(&mut Src) -> String) -> BulletPoint {
    let t = txt(s);
    let mut b = BulletPoint::new(&t).with_level(s.range(0, 8) as u32).with_style(bullet_style(s));
    if s.chance(50) {
        b = b.with_format(bullet_format(s));
    }
    b
}
pub const LAYOUTS: &[SlideLayout] = &[
    SlideLayout::TitleAndContent,
    SlideLayout::TitleOnly,
    SlideLayout::Blank,
    SlideLayout::CenteredTitle,
    SlideLayout::TwoColumn,
    SlideLayout::SectionHeader,
    SlideLayout::TitleAndBigContent,
];
pub const TRANSITIONS: &[TransitionType] = &[
    TransitionType::None,
    TransitionType::Fade,
    TransitionType::Cut,
    TransitionType::Push,
    TransitionType::Wipe,
    TransitionType::Split,
    TransitionType::Reveal,
    TransitionType::Cover,
    TransitionType::Zoom,
];

pub fn cell(s: &mut Src, txt: fn(&mut Src) -> String) -> TableCell {
    let t = txt(s);
    let mut c = TableCell::new(&t);
    if s.chance(50) {
        if s.bool() {
            c = c.bold();
        }
        if s.bool() {
            c = c.italic();
        }
        if s.bool() {
            c = c.underline();
        }
        if s.chance(40) {
            c = c.text_color(&color(s));
        }
        if s.chance(40) {
            c = c.background_color(&color(s));
        }
        if s.chance(40) {
            c = c.font_size(s.range(1, 400) as u32);
        }
        if s.chance(40) {
            c = c.font_family(&font_name(s));
        }
        c = c.align(s.pick(&[table::CellAlign::Left, table::CellAlign::Center, table::CellAlign::Right, table::CellAlign::Justify]).clone());
        c = c.valign(s.pick(&[table::CellVAlign::Top, table::CellVAlign::Middle, table::CellVAlign::Bottom]).clone());
        c = c.wrap(s.bool());
    }
    c
}
/// A rectangular table, optionally with non-overlapping merged regions expressed
/// the way the API documents (origin span + h/v merge markers).
pub fn table(s: &mut Src, txt: fn(&mut Src) -> String) -> Table {
    let nr = s.len(1, 5);
    let nc = s.len(1, 5);
    let mut g: Vec<Vec<TableCell>> = (0..nr).map(|_| (0..nc).map(|_| cell(s, txt)).collect()).collect();
    let mut used = vec![vec![false; nc]; nr];
    let merges = s.below(3);
    for _ in 0..merges {
        let r0 = s.usize(nr);
        let c0 = s.usize(nc);
        let h = 1 + s.usize(nr - r0);
        let w = 1 + s.usize(nc - c0);
        if h * w == 1 || (r0..r0 + h).any(|r| (c0..c0 + w).any(|c| used[r][c])) {
            continue;
        }
        for r in r0..r0 + h {
            for c in c0..c0 + w {
                used[r][c] = true;
                let mut x = g[r][c].clone();
                if c > c0 {
                    x = x.h_merge();
                } else if w > 1 {
                    x = x.grid_span(w as u32);
                }
                if r > r0 {
                    x = x.v_merge();
                } else if h > 1 {
                    x = x.row_span(h as u32);
                }
                g[r][c] = x;
            }
        }
    }
    let rows = g
        .into_iter()
        .map(|c| {
            let r = TableRow::new(c);
            if s.chance(50) { r.with_height(s.range(1, 3_000_000) as u32) } else { r }
        })
        .collect();
    let widths = (0..nc).map(|_| s.range(1, 4_000_000) as u32).collect();
    Table::new(rows, widths, emu(s), emu(s))
}

pub const SHAPES: &[ShapeType] = &{
    use ShapeType::*;
    [
        Rectangle, RoundedRectangle, Ellipse, Circle, Triangle, RightTriangle, Diamond, Pentagon, Hexagon, Octagon, RightArrow, LeftArrow, UpArrow, DownArrow, LeftRightArrow, UpDownArrow, BentArrow,
        UTurnArrow, Star4, Star5, Star6, Star8, Ribbon, Wave, WedgeRectCallout, WedgeEllipseCallout, CloudCallout, FlowChartProcess, FlowChartDecision, FlowChartTerminator, FlowChartDocument,
        FlowChartPredefinedProcess, FlowChartInternalStorage, FlowChartData, FlowChartInputOutput, FlowChartManualInput, FlowChartManualOperation, FlowChartConnector, FlowChartOffPageConnector,
        FlowChartPunchedCard, FlowChartPunchedTape, FlowChartSummingJunction, FlowChartOr, FlowChartCollate, FlowChartSort, FlowChartExtract, FlowChartMerge, FlowChartOnlineStorage, FlowChartDelay,
        FlowChartMagneticTape, FlowChartMagneticDisk, FlowChartMagneticDrum, FlowChartDisplay, FlowChartPreparation, CurvedRightArrow, CurvedLeftArrow, CurvedUpArrow, CurvedDownArrow,
        CurvedLeftRightArrow, CurvedUpDownArrow, StripedRightArrow, NotchedRightArrow, PentagonArrow, ChevronArrow, RightArrowCallout, LeftArrowCallout, UpArrowCallout, DownArrowCallout,
        LeftRightArrowCallout, UpDownArrowCallout, QuadArrow, LeftRightUpArrow, CircularArrow, Parallelogram, Trapezoid, NonIsoscelesTrapezoid, IsoscelesTrapezoid, Cube, Can, Cone, Cylinder, Bevel,
        Donut, NoSmoking, BlockArc, FoldedCorner, SmileyFace, Arc, Chord, Pie, Teardrop, Plaque, MusicNote, PictureFrame, Star10, Star12, Star16, Star24, Star32, Seal, Seal4, Seal8, Seal16, Seal32,
        ActionButtonBlank, ActionButtonHome, ActionButtonHelp, ActionButtonInformation, ActionButtonForwardNext, ActionButtonBackPrevious, ActionButtonBeginning, ActionButtonEnd, ActionButtonReturn,
        ActionButtonDocument, ActionButtonSound, ActionButtonMovie, Heart, Lightning, Sun, Moon, Cloud, Brace, Bracket, Plus, Minus,
    ]
};
pub fn gradient(s: &mut Src) -> shapes::GradientFill {
    use shapes::GradientDirection as D;
    let d = match s.below(5) {
        0 => D::Horizontal,
        1 => D::Vertical,
        2 => D::DiagonalDown,
        3 => D::DiagonalUp,
        _ => D::Angle(s.range(0, 359) as u32),
    };
    let mut g = if s.bool() { shapes::GradientFill::linear(&color(s), &color(s), d) } else { shapes::GradientFill::three_color(&color(s), &color(s), &color(s), d) };
    if s.chance(30) {
        g = g.with_stop(shapes::GradientStop::new(&color(s), s.range(0, 100) as u32).with_transparency(s.range(0, 100) as u32));
    }
    g
}
pub fn url(s: &mut Src) -> String {
    let p = s.pick(&["", "a/b", "q?a=1&b=2", "x#frag", "p%20q", "\"quoted\"", "<x>"]).to_string();
    format!("https://example.com/{}{}", word(s).replace(['é', '中'], "u"), p)
}
pub fn hyperlink(s: &mut Src, slides: usize) -> Hyperlink {
    let a = match s.below(6) {
        0 => HyperlinkAction::url(&url(s)),
        1 => HyperlinkAction::slide(1 + s.usize(slides.max(1)) as u32),
        2 => HyperlinkAction::email("a.b+c@example.com"),
        3 => HyperlinkAction::email_with_subject("x@example.com", &text(s)),
        4 => HyperlinkAction::file(s.pick(&["C:\\dir\\f & g.txt", "D:/a b/c.pptx", "\\\\server\\share\\f.txt", "//server/share/g h.txt", "/home/user/x.txt", "rel/y.txt"])),
        _ => s.pick(&[HyperlinkAction::FirstSlide, HyperlinkAction::LastSlide, HyperlinkAction::NextSlide, HyperlinkAction::PreviousSlide, HyperlinkAction::EndShow]).clone(),
    };
    let mut h = Hyperlink::new(a);
    if s.bool() {
        h = h.with_tooltip(&text(s));
    }
    h.with_highlight_click(s.bool())
}
pub fn shape(s: &mut Src, txt: fn(&mut Src) -> String) -> Shape {
    let mut sh = Shape::new(*s.pick(SHAPES), emu(s), emu(s), ext(s), ext(s));
    if s.chance(60) {
        sh = sh.with_text(&txt(s));
    }
    match s.below(4) {
        1 | 2 => {
            let mut f = ShapeFill::new(&color(s));
            if s.chance(40) {
                f = f.with_transparency(s.range(0, 100) as u32);
            }
            sh = sh.with_fill(f);
        }
        3 => sh = sh.with_gradient(gradient(s)),
        _ => {}
    }
    if s.chance(40) {
        sh = sh.with_line(ShapeLine::new(&color(s), s.range(0, 20_116_800) as u32));
    }
    if s.chance(30) {
        sh = sh.with_rotation(s.range(-720, 720) as i32);
    }
    sh
}
pub fn image_bytes(s: &mut Src) -> Vec<u8> {
    s.blob(1, 300)
}
pub const IMG_FORMATS: &[&str] = &["PNG", "png", "JPG", "jpg", "JPEG", "jpeg", "GIF", "gif", "BMP", "TIFF", "SVG"];
pub fn b64(data: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(T[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
/// (image, the bytes it stands for)
pub fn image(s: &mut Src, pool: &[Vec<u8>]) -> (Image, Vec<u8>) {
    let data = s.pick(pool).clone();
    let fmt = *s.pick(IMG_FORMATS);
    let (w, h) = (ext(s), ext(s));
    let mut im = match s.below(3) {
        0 => Image::from_bytes(data.clone(), w, h, fmt),
        1 => Image::from_base64(&b64(&data), w, h, fmt),
        _ => ImageBuilder::from_bytes(data.clone(), w, h, fmt).build(),
    };
    im = im.position(emu(s), emu(s));
    if s.chance(30) {
        let q = |s: &mut Src| s.range(0, 49) as f64 / 100.0;
        im = im.with_crop(q(s), q(s), q(s), q(s));
    }
    if s.chance(40) {
        im = im.with_alt_text(&text(s));
    }
    if s.chance(30) {
        for e in [ImageEffect::Shadow, ImageEffect::Reflection, ImageEffect::Glow, ImageEffect::SoftEdges, ImageEffect::InnerShadow, ImageEffect::Blur] {
            if s.chance(30) {
                im = im.with_effect(e);
            }
        }
    }
    (im, data)
}
use ppt_rs::generator::images::ImageEffect;

pub const CHARTS: &[ChartType] = &{
    use ChartType::*;
    [
        Bar, BarHorizontal, BarStacked, BarStacked100, Line, LineMarkers, LineStacked, Pie, Doughnut, Area, AreaStacked, AreaStacked100, Scatter, ScatterLines, ScatterSmooth, Bubble, Radar, RadarFilled,
        StockHLC, StockOHLC, Combo,
    ]
};
pub fn num(s: &mut Src) -> f64 {
    match s.below(6) {
        0 => s.range(-5, 5) as f64,
        1 => 0.0,
        2 => s.range(-1_000_000_000, 1_000_000_000) as f64,
        3 => s.range(-1_000_000, 1_000_000) as f64 / 1000.0,
        4 => *s.pick(&[1e-9, -1e20, 1e15, 123456.789, -0.5, 1.0 / 3.0]),
        _ => s.range(0, 100) as f64,
    }
}
pub fn chart(s: &mut Src, txt: fn(&mut Src) -> String) -> Chart {
    let ty = *s.pick(CHARTS);
    let nc = s.len(1, 5);
    let lo = match ty {
        ChartType::StockHLC => 3,
        ChartType::StockOHLC => 4,
        _ => 1,
    };
    let ns = if lo > 1 { lo } else { s.len(1, 4) };
    let cats: Vec<String> = (0..nc).map(|_| txt(s)).collect();
    let title = txt(s);
    let mut b = ChartBuilder::new(&title, ty).position(emu(s), emu(s)).size(ext(s), ext(s)).categories(cats.iter().map(|x| x.as_str()).collect());
    for _ in 0..ns {
        let name = txt(s);
        let vals = (0..nc).map(|_| num(s)).collect();
        b = b.add_series(ChartSeries::new(&name, vals));
    }
    b.build()
}
pub fn connector(s: &mut Src, txt: fn(&mut Src) -> String) -> Connector {
    let ty = *s.pick(&[ConnectorType::Straight, ConnectorType::Elbow, ConnectorType::Curved]);
    let ar = [ArrowType::None, ArrowType::Triangle, ArrowType::Stealth, ArrowType::Diamond, ArrowType::Oval, ArrowType::Open];
    let mut c = Connector::new(ty, emu(s), emu(s), emu(s), emu(s));
    c = c.with_line(
        ConnectorLine::new(&color(s), s.range(0, 20_116_800) as u32).with_dash(*s.pick(&[LineDash::Solid, LineDash::Dash, LineDash::Dot, LineDash::DashDot, LineDash::DashDotDot, LineDash::LongDash, LineDash::LongDashDot])),
    );
    c = c.with_arrows(*s.pick(&ar), *s.pick(&ar)).with_arrow_size(*s.pick(&[ArrowSize::Small, ArrowSize::Medium, ArrowSize::Large]));
    if s.chance(40) {
        c = c.with_label(&txt(s));
    }
    c
}
pub const SITES: &[ConnectionSite] = &[
    ConnectionSite::Top,
    ConnectionSite::Right,
    ConnectionSite::Bottom,
    ConnectionSite::Left,
    ConnectionSite::TopLeft,
    ConnectionSite::TopRight,
    ConnectionSite::BottomRight,
    ConnectionSite::BottomLeft,
    ConnectionSite::Center,
];
pub fn code(s: &mut Src) -> CodeBlock {
    let lang = s.pick(&["rust", "python", "", "nosuchlang", "js", "c++", "html"]).to_string();
    let n = s.len(1, 5);
    let src: Vec<String> = (0..n).map(|_| if s.chance(30) { s.pick(&["fn main() { let x = \"a<b\"; }", "def f(x): return x & 1", "", "    indented", "<div class=\"a\">x</div>", "// comment \t tab"]).to_string() } else { text0(s) }).collect();
    CodeBlock::new(&src.join("\n"), &lang).position(s.range(0, 9_000_000), s.range(0, 6_000_000)).size(s.range(1, 9_000_000), s.range(1, 6_000_000))
}
pub fn ink(s: &mut Src) -> InkAnnotations {
    let mut a = InkAnnotations::new();
    for _ in 0..s.len(1, 3) {
        let pen = InkPen::new(&color(s), s.range(1, 200) as u32).tip(*s.pick(&[PenTip::Ball, PenTip::Flat])).opacity(s.range(0, 100) as f32 / 100.0);
        let mut st = InkStroke::new(pen);
        for _ in 0..s.len(1, 5) {
            st = st.add_point(s.range(-100, 5000) as f64 / 4.0, s.range(0, 5000) as f64 / 4.0);
        }
        a.add_stroke(st);
    }
    a
}

#[derive(Clone)]
pub struct SlideOpts {
    pub txt: fn(&mut Src) -> String,
    pub slides: usize,
    pub rich: bool,
    pub ink: bool,
    pub notes: bool,
    pub links: bool,
    pub imgs: Vec<Vec<u8>>,
}
pub fn slide(s: &mut Src, o: &SlideOpts) -> SlideContent {
    let t = (o.txt)(s);
    let mut c = SlideContent::new(&t).layout(*s.pick(LAYOUTS));
    if s.chance(30) {
        c = c.with_bullet_style(bullet_style(s));
    }
    let nb = s.len(0, 5);
    for _ in 0..nb {
        let t = (o.txt)(s);
        c = match s.below(6) {
            0 | 1 => c.add_bullet(&t),
            2 => c.add_styled_bullet(&t, bullet_style(s)),
            3 => c.add_numbered(&t),
            4 => c.add_sub_bullet(&t),
            _ => {
                let b = bullet(s, o.txt);
                c.content.push(b.text.clone());
                c.bullets.push(b);
                c
            }
        };
    }
    if s.chance(30) {
        c = c.title_size(s.range(1, 400) as u32).content_size(s.range(1, 400) as u32).title_bold(s.bool()).content_bold(s.bool()).title_italic(s.bool()).content_italic(s.bool());
        c = c.title_underline(s.bool());
        if s.bool() {
            c = c.title_color(&color(s));
        }
        if s.bool() {
            c = c.content_color(&color(s));
        }
    }
    c = c.with_transition(*s.pick(TRANSITIONS));
    if o.notes && s.chance(35) {
        c = c.notes(&(o.txt)(s));
    }
    if o.rich {
        if s.chance(30) {
            c = c.table(table(s, o.txt));
        }
        if s.chance(40) {
            let n = s.len(1, 4);
            for i in 0..n {
                let mut sh = shape(s, o.txt);
                if o.links && s.chance(35) {
                    let h = hyperlink(s, o.slides);
                    sh = sh.with_hyperlink(if s.bool() { h.with_r_id(&format!("rIdLink{i}")) } else { h });
                }
                c = c.add_shape(sh);
            }
            // ids set by hand, away from those of the placeholders
            if s.chance(20) {
                let base = s.range(6, 130) as u32;
                for (i, sh) in c.shapes.iter_mut().enumerate() {
                    if s.bool() {
                        sh.id = Some(base + 3 * i as u32);
                    }
                }
            }
        }
        if s.chance(40) && !o.imgs.is_empty() {
            for _ in 0..s.len(1, 3) {
                let (im, _) = image(s, &o.imgs);
                c = c.add_image(im);
            }
        }
        if s.chance(30) {
            for _ in 0..s.len(1, 2) {
                c = c.add_connector(connector(s, o.txt));
            }
        }
        if s.chance(35) {
            for _ in 0..s.len(1, 3) {
                c = c.add_chart(chart(s, o.txt));
            }
        }
        if s.chance(20) {
            c.code_blocks.push(code(s));
        }
        if o.ink && s.chance(20) {
            c = c.with_ink(ink(s));
        }
    }
    c
}
#[derive(Debug, Clone)]
pub struct Deck {
    pub title: String,
    pub slides: Vec<SlideContent>,
    pub settings: Option<PresentationSettings>,
}
pub fn deck(s: &mut Src, txt: fn(&mut Src) -> String, rich: bool) -> Deck {
    let title = txt(s);
    let n = s.len(1, 5);
    let imgs = s.vec(1, 3, |s| image_bytes(s));
    let o = SlideOpts { txt, slides: n, rich, ink: true, notes: true, links: true, imgs };
    let slides = (0..n).map(|_| slide(s, &o)).collect();
    Deck { title, slides, settings: None }
}
pub fn theme(s: &mut Src) -> PresentationTheme {
    match s.below(9) {
        0 => PresentationTheme::office(),
        1 => PresentationTheme::corporate(),
        2 => PresentationTheme::modern(),
        3 => PresentationTheme::vibrant(),
        4 => PresentationTheme::dark(),
        5 => PresentationTheme::nature(),
        6 => PresentationTheme::tech(),
        7 => PresentationTheme::carbon(),
        _ => PresentationTheme::new(text(s)).colors(ThemeColorScheme::office().accent1(color(s)).accent2(color(s)).accent3(color(s)).hyperlink(color(s))).major_font(font_name(s)).minor_font(font_name(s)),
    }
}
pub fn settings(s: &mut Src, slides: usize) -> PresentationSettings {
    let mut p = PresentationSettings::new();
    if s.bool() {
        p = p.theme(theme(s));
    }
    if s.bool() {
        let mut sh = SlideShowSettings::new()
            .show_type(*s.pick(&[ShowType::Speaker, ShowType::Kiosk, ShowType::Browsed]))
            .loop_continuously(s.bool())
            .without_narration(s.bool())
            .without_animation(s.bool())
            .pen_color(PenColor::new(&color(s)))
            .use_timings(s.bool())
            .show_media_controls(s.bool());
        if s.chance(40) {
            let a = 1 + s.usize(slides) as u32;
            let b = a + s.usize(slides + 1 - a as usize) as u32;
            sh = sh.slide_range(SlideRange::Range { start: a, end: b });
        }
        p = p.slide_show(sh);
    }
    if s.bool() {
        let mut pr = PrintSettings::new()
            .print_what(*s.pick(&[PrintWhat::Slides, PrintWhat::Handouts, PrintWhat::Notes, PrintWhat::Outline]))
            .color_mode(*s.pick(&[PrintColorMode::Color, PrintColorMode::Grayscale, PrintColorMode::BlackAndWhite]))
            .handout_layout(*s.pick(&[HandoutLayout::SlidesPerPage1, HandoutLayout::SlidesPerPage2, HandoutLayout::SlidesPerPage3, HandoutLayout::SlidesPerPage4, HandoutLayout::SlidesPerPage6, HandoutLayout::SlidesPerPage9]))
            .frame_slides(s.bool())
            .scale_to_fit(s.bool())
            .include_hidden_slides(s.bool())
            .orientation(*s.pick(&[Orientation::Landscape, Orientation::Portrait]))
            .print_date(s.bool())
            .print_page_numbers(s.bool());
        if s.bool() {
            pr = pr.header(&text(s));
        }
        if s.bool() {
            pr = pr.footer(&text(s));
        }
        p = p.print(pr);
    }
    if s.chance(30) {
        let mut l = EmbeddedFontList::new();
        let faces = ["Arial", "My Font", "Ünï", "A & B"];
        let styles = [FontStyle::Regular, FontStyle::Bold, FontStyle::Italic, FontStyle::BoldItalic];
        let n = s.len(1, 3);
        let mut used = std::collections::BTreeSet::new();
        for _ in 0..n {
            let (f, st) = (s.usize(faces.len()), s.usize(4));
            if used.insert((f, st)) {
                use FontCharset::*;
                let sets = [Ansi, Symbol, ShiftJis, Hangul, Gb2312, ChineseBig5, Greek, Turkish, Hebrew, Arabic, Baltic, Russian, Thai, EastEurope];
                let mut k = EmbeddedFont::new(faces[f], styles[st], s.blob(1, 50), "").charset(*s.pick(&sets));
                if s.chance(30) {
                    k = k.pitch_family(s.below(256) as u8);
                }
                if s.chance(30) {
                    let p: String = (0..20).map(|_| *s.pick(&['0', '2', '9', 'A', 'F'])).collect();
                    k = k.panose(&p);
                }
                l.add(k);
            }
        }
        p = p.embedded_fonts(l);
    }
    if s.chance(30) {
        let mut si = SignerInfo::new(&text(s));
        if s.bool() {
            si = si.email("a@b.c").organization(&text(s)).title(&text(s));
        }
        let mut d = DigitalSignature::new(si)
            .hash_algorithm(*s.pick(&[HashAlgorithm::Sha256, HashAlgorithm::Sha384, HashAlgorithm::Sha512, HashAlgorithm::Sha1]))
            .commitment(*s.pick(&[SignatureCommitment::Created, SignatureCommitment::Approved, SignatureCommitment::Reviewed]));
        if s.bool() {
            d = d.sign_date("2025-01-02T03:04:05Z");
        }
        if s.bool() {
            d = d.comments(&text(s));
        }
        p = p.digital_signature(d);
    }
    p
}

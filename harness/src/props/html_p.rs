//! C19 HTML import.
use super::deck_p::{check_core_title, check_slide_text, e};
use crate::engine::*;
use crate::gen;
use crate::opc::Pkg;
use ppt_rs::cli::FromHtmlCommand;
use ppt_rs::generator::slide_content::BulletTextFormat;
use ppt_rs::generator::SlideContent;
use ppt_rs::import::{parse_html, parse_html_with_options, Html2Ppt, HtmlParseOptions};

fn squash(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Css {
    color: Option<String>,
    back: Option<String>,
    size: Option<u32>,
    bold: Option<bool>,
    italic: Option<bool>,
    deco: Option<(bool, bool)>,
    font: Option<String>,
}
impl Css {
    fn over(&self, o: &Css) -> Css {
        Css {
            color: o.color.clone().or(self.color.clone()),
            back: o.back.clone().or(self.back.clone()),
            size: o.size.or(self.size),
            bold: o.bold.or(self.bold),
            italic: o.italic.or(self.italic),
            deco: o.deco.or(self.deco),
            font: o.font.clone().or(self.font.clone()),
        }
    }
}
#[derive(Clone, Debug)]
enum I {
    T(String),
    B(Vec<I>),
    Em(Vec<I>),
    Wrap(&'static str, Vec<I>),
    Br,
    Empty,
}
#[derive(Clone, Debug)]
enum B {
    H1(Vec<I>, Css),
    H(u8, Vec<I>),
    P(Vec<I>, Css),
    List(Vec<(Vec<I>, Css)>),
    Table(Option<Vec<I>>, Vec<Vec<Vec<I>>>),
    Pre(String),
    Quote(Vec<Vec<I>>),
    Hr,
    Div(Vec<B>, Css),
    Text(Vec<I>),
    Img(String, String),
    Skip(String),
}
fn css(s: &mut Src) -> Css {
    let mut c = Css::default();
    if s.chance(60) {
        return c;
    }
    if s.bool() {
        c.color = Some(gen::hex(s).to_uppercase());
    }
    if s.chance(30) {
        c.back = Some(gen::hex(s).to_uppercase());
    }
    if s.chance(30) {
        c.size = Some(s.range(6, 96) as u32);
    }
    if s.chance(30) {
        c.bold = Some(s.bool());
    }
    if s.chance(30) {
        c.italic = Some(s.bool());
    }
    if s.chance(30) {
        c.deco = Some((s.bool(), s.bool()));
    }
    if s.chance(20) {
        c.font = Some(s.pick(&["Arial", "Times New Roman", "Courier New"]).to_string());
    }
    c
}
const NAMED: &[(&str, &str)] = &[
    ("aliceblue", "F0F8FF"),
    ("antiquewhite", "FAEBD7"),
    ("aqua", "00FFFF"),
    ("aquamarine", "7FFFD4"),
    ("azure", "F0FFFF"),
    ("beige", "F5F5DC"),
    ("bisque", "FFE4C4"),
    ("black", "000000"),
    ("blanchedalmond", "FFEBCD"),
    ("blue", "0000FF"),
    ("blueviolet", "8A2BE2"),
    ("brown", "A52A2A"),
    ("burlywood", "DEB887"),
    ("cadetblue", "5F9EA0"),
    ("chartreuse", "7FFF00"),
    ("chocolate", "D2691E"),
    ("coral", "FF7F50"),
    ("cornflowerblue", "6495ED"),
    ("cornsilk", "FFF8DC"),
    ("crimson", "DC143C"),
    ("cyan", "00FFFF"),
    ("darkblue", "00008B"),
    ("darkcyan", "008B8B"),
    ("darkgoldenrod", "B8860B"),
    ("darkgray", "A9A9A9"),
    ("darkgreen", "006400"),
    ("darkgrey", "A9A9A9"),
    ("darkkhaki", "BDB76B"),
    ("darkmagenta", "8B008B"),
    ("darkolivegreen", "556B2F"),
    ("darkorange", "FF8C00"),
    ("darkorchid", "9932CC"),
    ("darkred", "8B0000"),
    ("darksalmon", "E9967A"),
    ("darkseagreen", "8FBC8F"),
    ("darkslateblue", "483D8B"),
    ("darkslategray", "2F4F4F"),
    ("darkslategrey", "2F4F4F"),
    ("darkturquoise", "00CED1"),
    ("darkviolet", "9400D3"),
    ("deeppink", "FF1493"),
    ("deepskyblue", "00BFFF"),
    ("dimgray", "696969"),
    ("dimgrey", "696969"),
    ("dodgerblue", "1E90FF"),
    ("firebrick", "B22222"),
    ("floralwhite", "FFFAF0"),
    ("forestgreen", "228B22"),
    ("fuchsia", "FF00FF"),
    ("gainsboro", "DCDCDC"),
    ("ghostwhite", "F8F8FF"),
    ("gold", "FFD700"),
    ("goldenrod", "DAA520"),
    ("gray", "808080"),
    ("green", "008000"),
    ("greenyellow", "ADFF2F"),
    ("grey", "808080"),
    ("honeydew", "F0FFF0"),
    ("hotpink", "FF69B4"),
    ("indianred", "CD5C5C"),
    ("indigo", "4B0082"),
    ("ivory", "FFFFF0"),
    ("khaki", "F0E68C"),
    ("lavender", "E6E6FA"),
    ("lavenderblush", "FFF0F5"),
    ("lawngreen", "7CFC00"),
    ("lemonchiffon", "FFFACD"),
    ("lightblue", "ADD8E6"),
    ("lightcoral", "F08080"),
    ("lightcyan", "E0FFFF"),
    ("lightgoldenrodyellow", "FAFAD2"),
    ("lightgray", "D3D3D3"),
    ("lightgreen", "90EE90"),
    ("lightgrey", "D3D3D3"),
    ("lightpink", "FFB6C1"),
    ("lightsalmon", "FFA07A"),
    ("lightseagreen", "20B2AA"),
    ("lightskyblue", "87CEFA"),
    ("lightslategray", "778899"),
    ("lightslategrey", "778899"),
    ("lightsteelblue", "B0C4DE"),
    ("lightyellow", "FFFFE0"),
    ("lime", "00FF00"),
    ("limegreen", "32CD32"),
    ("linen", "FAF0E6"),
    ("magenta", "FF00FF"),
    ("maroon", "800000"),
    ("mediumaquamarine", "66CDAA"),
    ("mediumblue", "0000CD"),
    ("mediumorchid", "BA55D3"),
    ("mediumpurple", "9370DB"),
    ("mediumseagreen", "3CB371"),
    ("mediumslateblue", "7B68EE"),
    ("mediumspringgreen", "00FA9A"),
    ("mediumturquoise", "48D1CC"),
    ("mediumvioletred", "C71585"),
    ("midnightblue", "191970"),
    ("mintcream", "F5FFFA"),
    ("mistyrose", "FFE4E1"),
    ("moccasin", "FFE4B5"),
    ("navajowhite", "FFDEAD"),
    ("navy", "000080"),
    ("oldlace", "FDF5E6"),
    ("olive", "808000"),
    ("olivedrab", "6B8E23"),
    ("orange", "FFA500"),
    ("orangered", "FF4500"),
    ("orchid", "DA70D6"),
    ("palegoldenrod", "EEE8AA"),
    ("palegreen", "98FB98"),
    ("paleturquoise", "AFEEEE"),
    ("palevioletred", "DB7093"),
    ("papayawhip", "FFEFD5"),
    ("peachpuff", "FFDAB9"),
    ("peru", "CD853F"),
    ("pink", "FFC0CB"),
    ("plum", "DDA0DD"),
    ("powderblue", "B0E0E6"),
    ("purple", "800080"),
    ("rebeccapurple", "663399"),
    ("red", "FF0000"),
    ("rosybrown", "BC8F8F"),
    ("royalblue", "4169E1"),
    ("saddlebrown", "8B4513"),
    ("salmon", "FA8072"),
    ("sandybrown", "F4A460"),
    ("seagreen", "2E8B57"),
    ("seashell", "FFF5EE"),
    ("sienna", "A0522D"),
    ("silver", "C0C0C0"),
    ("skyblue", "87CEEB"),
    ("slateblue", "6A5ACD"),
    ("slategray", "708090"),
    ("slategrey", "708090"),
    ("snow", "FFFAFA"),
    ("springgreen", "00FF7F"),
    ("steelblue", "4682B4"),
    ("tan", "D2B48C"),
    ("teal", "008080"),
    ("thistle", "D8BFD8"),
    ("tomato", "FF6347"),
    ("turquoise", "40E0D0"),
    ("violet", "EE82EE"),
    ("wheat", "F5DEB3"),
    ("white", "FFFFFF"),
    ("whitesmoke", "F5F5F5"),
    ("yellow", "FFFF00"),
    ("yellowgreen", "9ACD32"),
];
/// Writes a colour in one of its spellings; may replace it by a named one.
fn colour(c: &mut String, s: &mut Src) -> String {
    let v = |i: usize| u8::from_str_radix(&c[i..i + 2], 16).unwrap();
    match s.below(6) {
        0 => format!("#{}", c.to_lowercase()),
        1 => format!("rgb({}, {},{})", v(0), v(2), v(4)),
        2 => format!("rgba({},{},{}, 0.5)", v(0), v(2), v(4)),
        3 => {
            let (n, h) = *s.pick(NAMED);
            *c = h.to_string();
            n.to_string()
        }
        4 => {
            let t: String = (0..3).map(|_| *s.pick(&['0', '4', '9', 'a', 'F', 'c'])).collect();
            *c = t.chars().flat_map(|x| [x, x]).collect::<String>().to_uppercase();
            format!("#{t}")
        }
        _ => format!("#{c}"),
    }
}
/// style attribute for `c` (colours and sizes may be adjusted to their spelling)
fn style(c: &mut Css, s: &mut Src) -> String {
    let mut d: Vec<String> = vec![];
    if let Some(x) = &mut c.color {
        d.push(format!("color:{}", colour(x, s)));
    }
    if let Some(x) = &mut c.back {
        d.push(format!("background-color: {}", colour(x, s)));
    }
    if let Some(x) = &mut c.size {
        if s.bool() {
            d.push(format!("font-size:{x}pt"));
        } else {
            d.push(format!("font-size: {x}px"));
            *x = (*x as f64 / 1.333).round() as u32;
        }
    }
    if let Some(b) = c.bold {
        d.push(format!("font-weight:{}", if b { s.pick(&["bold", "700", "Bold", "900"]) } else { s.pick(&["normal", "400"]) }));
    }
    if let Some(b) = c.italic {
        d.push(format!("font-style:{}", if b { s.pick(&["italic", "oblique"]) } else { &"normal" }));
    }
    if let Some((u, l)) = c.deco {
        d.push(format!("text-decoration:{}", match (u, l) { (true, true) => "underline line-through", (true, _) => "underline", (_, true) => "line-through", _ => "none" }));
    }
    if let Some(f) = &c.font {
        d.push(match s.below(3) { 0 => format!("font-family:{f}"), 1 => format!("font-family: '{f}'"), _ => format!("font-family:{f}, sans-serif") });
    }
    if s.chance(15) {
        d.push(s.pick(&["margin-top: 3px", "border:1px solid #000", "line-height:1.5", "display:block", "--x: 1"]).to_string());
    }
    if d.is_empty() {
        return String::new();
    }
    let mut a = d.join(*s.pick(&[";", "; "]));
    if s.bool() {
        a.push(';');
    }
    if a.contains('\'') { format!(" style=\"{a}\"") } else { format!(" style={0}{a}{0}", *s.pick(&["\"", "'"])) }
}
fn piece(s: &mut Src) -> String {
    let mut t = gen::word(s);
    for _ in 0..s.len(0, 3) {
        match s.below(6) {
            0 => t.push(*s.pick(&['&', '<', '>', '"', '\'', ';', '#', '/', '!', '=', '-', '|', '_'])),
            1 => t.push(*s.pick(&['é', '中', '€', '—', '“', '😀', '©', '…'])),
            2 => t.push(' '),
            _ => t.push_str(&gen::word(s)),
        }
    }
    t
}
fn inl(s: &mut Src, depth: usize, b: bool, i: bool) -> Vec<I> {
    let mut o = vec![I::T(piece(s))];
    for _ in 0..s.len(0, 3) {
        o.push(match s.below(9) {
            0 if depth > 0 && !b => I::B(inl(s, depth - 1, true, i)),
            1 if depth > 0 && !i => I::Em(inl(s, depth - 1, b, true)),
            2 if depth > 0 => I::Wrap(*s.pick(&["a", "span", "code", "u", "small", "sup"]), inl(s, depth - 1, b, i)),
            3 => I::Br,
            4 => I::Empty,
            5 => I::T(" ".into()),
            _ => I::T(piece(s)),
        });
    }
    o
}
fn show(v: &[I]) -> String {
    v.iter()
        .map(|x| match x {
            I::T(t) => t.clone(),
            I::B(v) => format!("**{}**", show(v)),
            I::Em(v) => format!("*{}*", show(v)),
            I::Wrap(_, v) => show(v),
            I::Br => "\n".into(),
            I::Empty => String::new(),
        })
        .collect()
}
fn code(s: &mut Src) -> String {
    let n = s.len(1, 4);
    (0..n).map(|_| if s.chance(30) { s.pick(&["  fn f() { a < b && c }", "", "<p>x</p>", "    x\ty", "&amp;"]).to_string() } else { piece(s) }).collect::<Vec<_>>().join("\n")
}
fn blocks(c: &mut Ctx, depth: usize, max: usize) -> Vec<B> {
    let n = c.s.len(1, max);
    let mut o = vec![];
    for _ in 0..n {
        let s = &mut c.s;
        o.push(match s.below(15) {
            0 | 1 => B::H1(inl(s, 1, false, false), css(s)),
            2 => B::H(s.range(2, 6) as u8, inl(s, 1, true, false)),
            3 | 4 => B::P(inl(s, 2, false, false), css(s)),
            5 | 6 => B::List(s.vec(1, 4, |s| (inl(s, 2, false, false), css(s)))),
            7 => {
                let w = s.len(1, 3);
                let cap = if s.chance(15) { Some(inl(s, 0, false, false)) } else { None };
                B::Table(cap, s.vec(1, 4, |s| { let n = if s.chance(85) { w } else { s.len(1, 4) }; (0..n).map(|_| if s.chance(15) { vec![I::Empty] } else { inl(s, 1, false, false) }).collect() }))
            }
            8 => B::Pre(code(s)),
            9 => B::Quote(s.vec(1, 2, |s| inl(s, 1, false, false))),
            10 => B::Hr,
            11 if depth > 0 => {
                let x = css(s);
                B::Div(blocks(c, depth - 1, 4), x)
            }
            12 if depth < 2 => B::Text(inl(s, 1, false, false)),
            13 => {
                let alt = if s.chance(70) { gen::words(s) } else { String::new() };
                let src = if s.chance(40) {
                    let b = s.blob(1, 40);
                    let k = s.below(3);
                    let f = c.file(&format!("img{k}.png"));
                    // the last content written under a name counts
                    if !f.exists() {
                        let _ = std::fs::write(&f, &b);
                    }
                    f.to_string_lossy().to_string()
                } else {
                    format!("/nonexistent/{}.png", c.s.below(100))
                };
                B::Img(alt, src)
            }
            _ => B::Skip(
                s.pick(&[
                    "<script>if (a<b && c>d) { x = \"</p><h1>no</h1>\"; }</script>",
                    "<style>p > a { color: red } /* <b> */</style>",
                    "<nav><ul><li>no<br>no<img src=x></li></ul><hr></nav>",
                    "<!-- <h1>no</h1> -- > -->",
                    "<form><input type=text><p>no</form>",
                    "<noscript><p>no</p></noscript>",
                    "<svg/>",
                    "<svg viewBox='0 0 1 1'><title>no</title><path d=\"M0 0\"/></svg>",
                    "<iframe src=x><p>no</iframe>",
                    "</em>",
                    "</figure></td>",
                    "<?php no ?>",
                    "<title>no <b> no</title>",
                    "<link rel=x><meta charset=utf-8>",
                ])
                .to_string(),
            ),
        });
    }
    o
}
fn tag(n: &str, s: &mut Src) -> String {
    if s.chance(10) { n.to_uppercase() } else { n.to_string() }
}
fn esc(t: &str, s: &mut Src, attr: bool) -> String {
    let mut o = String::new();
    let v: Vec<char> = t.chars().collect();
    for (i, ch) in v.iter().enumerate() {
        let next_plain = v.get(i + 1).is_some_and(|c| *c == ' ' || c.is_ascii_digit());
        match ch {
            '&' => o.push_str(if s.chance(15) && v.get(i + 1).is_none_or(|c| *c == ' ') { "&" } else { *s.pick(&["&amp;", "&#38;", "&#x26;"]) }),
            '<' if s.chance(30) && next_plain && !attr => o.push('<'),
            '<' => o.push_str(*s.pick(&["&lt;", "&#60;", "&#X3C;"])),
            '"' => o.push_str(*s.pick(&["&quot;", "&#34;"])),
            '>' => o.push_str(if s.bool() && !attr { ">" } else { "&gt;" }),
            '\'' => o.push_str(*s.pick(&["&apos;", "&#39;"])),
            '©' if s.bool() => o.push_str("&copy;"),
            '—' if s.bool() => o.push_str("&mdash;"),
            '…' if s.bool() => o.push_str("&hellip;"),
            '€' if s.bool() => o.push_str("&euro;"),
            ' ' if !attr && s.chance(20) => o.push_str(*s.pick(&["\n  ", "\t", "  "])),
            c if s.chance(4) => o.push_str(&format!("&#{};", *c as u32)),
            c => o.push(*c),
        }
    }
    o
}
fn inline(v: &[I], s: &mut Src) -> String {
    let mut o = String::new();
    for x in v {
        match x {
            I::T(t) => o.push_str(&esc(t, s, false)),
            I::B(v) => {
                let n = tag(*s.pick(&["b", "strong"]), s);
                o.push_str(&format!("<{n}>{}</{n}>", inline(v, s)));
            }
            I::Em(v) => {
                let n = tag(*s.pick(&["i", "em"]), s);
                o.push_str(&format!("<{n}>{}</{n}>", inline(v, s)));
            }
            I::Wrap(n, v) => {
                let a = if *n == "a" { " href=\"http://x.y/?a=1&b=2\"" } else { "" };
                o.push_str(&format!("<{n}{a}>{}</{n}>", inline(v, s)));
            }
            I::Br => o.push_str(*s.pick(&["<br>", "<br/>", "<BR />"])),
            I::Empty => o.push_str(*s.pick(&["", "<b></b>", "<i class=icon></i>", "<!-- x -->", "<span></span>", "<wbr>", "</abbr>"])),
        }
    }
    o
}
fn ws(s: &mut Src) -> &'static str {
    s.pick(&["", "", "\n", "\n    ", " "])
}
fn render(v: &mut [B], s: &mut Src, o: &mut String) {
    let n = v.len();
    for i in 0..n {
        let follows = match v.get(i + 1) {
            None => true,
            Some(B::H1(..) | B::H(..) | B::P(..) | B::List(..) | B::Table(..) | B::Pre(_) | B::Quote(_) | B::Hr | B::Div(..)) => true,
            _ => false,
        };
        o.push_str(ws(s));
        match &mut v[i] {
            B::H1(t, c) => {
                let n = tag("h1", s);
                o.push_str(&format!("<{n}{}>{}</{n}>", style(c, s), inline(t, s)));
            }
            B::H(l, t) => o.push_str(&format!("<h{l} id='x'>{}</h{l}>", inline(t, s))),
            B::P(t, c) => {
                let n = tag("p", s);
                o.push_str(&format!("<{n}{} class=\"a > b\">{}", style(c, s), inline(t, s)));
                if !(follows && s.chance(20)) {
                    o.push_str(&format!("</{n}>"));
                }
            }
            B::List(items) => {
                let n = *s.pick(&["ul", "ol"]);
                let open = s.chance(20);
                o.push_str(&format!("<{n}>{}", ws(s)));
                for (t, c) in items {
                    o.push_str(&format!("<li{}>", style(c, s)));
                    let x = inline(t, s);
                    o.push_str(&if s.chance(15) { format!("<p>{x}</p>") } else { x });
                    if !open {
                        o.push_str("</li>");
                    }
                    o.push_str(ws(s));
                }
                o.push_str(&format!("</{n}>"));
            }
            B::Table(cap, rows) => {
                let open = s.chance(20);
                o.push_str("<table border=1>");
                if let Some(x) = cap {
                    o.push_str(&format!("<caption>{}</caption>", inline(x, s)));
                }
                let body = s.bool();
                o.push_str(ws(s));
                if body {
                    o.push_str("<tbody>");
                }
                for (k, r) in rows.iter().enumerate() {
                    o.push_str(&format!("<tr>{}", ws(s)));
                    for t in r {
                        let n = if k == 0 && s.bool() { "th" } else { "td" };
                        o.push_str(&format!("<{n}>{}", inline(t, s)));
                        if !open {
                            o.push_str(&format!("</{n}>{}", ws(s)));
                        }
                    }
                    if !open {
                        o.push_str(&format!("</tr>{}", ws(s)));
                    }
                }
                if body {
                    o.push_str("</tbody>");
                }
                o.push_str("</table>");
            }
            B::Pre(t) => {
                let x: String = t.chars().map(|c| match c { '<' => "&lt;".to_string(), '&' => "&amp;".to_string(), c => c.to_string() }).collect();
                o.push_str(&match s.below(3) { 0 => format!("<pre>{x}</pre>"), 1 => format!("<pre><code class=\"language-x\">{x}</code></pre>"), _ => format!("<pre>\n<b>{x}</b>\n</pre>") });
            }
            B::Quote(ps) => {
                o.push_str("<blockquote>");
                let many = ps.len() > 1;
                for p in ps.iter() {
                    let x = inline(p, s);
                    o.push_str(&if many || s.bool() { format!("{}<p>{x}</p>", ws(s)) } else { x });
                }
                o.push_str("</blockquote>");
            }
            B::Hr => o.push_str(*s.pick(&["<hr>", "<hr/>", "<HR class=x>"])),
            B::Div(inner, c) => {
                let n = *s.pick(&["div", "section", "article", "main", "aside", "header"]);
                o.push_str(&format!("<{n}{}>", style(c, s)));
                render(inner, s, o);
                o.push_str(&format!("{}</{n}>", ws(s)));
            }
            B::Text(t) => {
                // kept apart from the texts around it
                o.push_str(&format!("<div>{}</div>", inline(t, s)));
            }
            B::Img(alt, src) => {
                o.push_str(&match (alt.is_empty(), s.below(3)) {
                    (true, _) => format!("<img src={src}>"),
                    (_, 0) => format!("<img alt=\"{}\" src='{src}'/>", esc(alt, s, true)),
                    _ => format!("<IMG src=\"{src}\" alt='{}' width=10 >", esc(alt, s, true)),
                });
            }
            B::Skip(t) => o.push_str(t),
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct M {
    title: String,
    tcss: Css,
    bullets: Vec<(String, Css)>,
    table: Option<Vec<Vec<String>>>,
    codes: Vec<String>,
    notes: Option<String>,
    imgs: Vec<String>,
}
struct Model {
    done: Vec<M>,
    cur: Option<M>,
    ptitle: Option<String>,
    o: HtmlParseOptions,
}
impl Model {
    fn cur(&mut self, def: &str) -> &mut M {
        self.cur.get_or_insert_with(|| M { title: def.to_string(), ..M::default() })
    }
    fn bullet(&mut self, t: String, c: Css, def: &str) {
        let t = squash(&t);
        if t.is_empty() {
            return;
        }
        let def = self.ptitle.clone().unwrap_or(def.into());
        let max = self.o.max_bullets;
        let m = self.cur(&def);
        if m.bullets.len() < max {
            m.bullets.push((t, c));
        }
    }
    fn end(&mut self) {
        if let Some(m) = self.cur.take() {
            self.done.push(m);
        }
    }
    fn run(&mut self, v: &[B], base: &Css) {
        for b in v {
            match b {
                B::H1(t, c) => {
                    self.end();
                    let t = squash(&show(t));
                    if self.ptitle.is_none() && !t.is_empty() {
                        self.ptitle = Some(t.clone());
                    }
                    self.cur = Some(M { title: if t.is_empty() { "Slide".into() } else { t }, tcss: base.over(c), ..M::default() });
                }
                B::H(_, t) => {
                    let t = squash(&show(t));
                    self.bullet(format!("**{t}**"), base.clone(), "Overview");
                }
                B::P(t, c) => self.bullet(show(t), base.over(c), "Overview"),
                B::Text(t) => self.bullet(show(t), base.clone(), "Overview"),
                B::List(items) => {
                    for (t, c) in items {
                        self.bullet(show(t), base.over(c), "Key Points");
                    }
                }
                B::Table(cap, rows) => {
                    if let Some(x) = cap {
                        self.bullet(show(x), base.clone(), "Overview");
                    }
                    if !self.o.include_tables {
                        continue;
                    }
                    let w = rows.iter().map(|r| r.len()).max().unwrap_or(0);
                    let t = rows
                        .iter()
                        .map(|r| (0..w).map(|i| r.get(i).map(|x| squash(&show(x))).unwrap_or_default()).collect())
                        .collect();
                    if self.cur.as_ref().is_some_and(|m| m.table.is_some()) {
                        let n = format!("{} (continued)", self.cur.as_ref().unwrap().title);
                        self.end();
                        self.cur(&n);
                    }
                    self.cur("Data Table").table = Some(t);
                }
                B::Pre(t) => {
                    let t = t.trim_start_matches('\n').trim_end();
                    if self.o.include_code && !t.trim().is_empty() {
                        self.cur("Code").codes.push(t.to_string());
                    }
                }
                B::Quote(ps) => {
                    let t = squash(&ps.iter().map(|p| show(p)).collect::<Vec<_>>().join(" "));
                    if !t.is_empty() {
                        let def = self.ptitle.clone().unwrap_or("Overview".into());
                        self.cur(&def).notes = Some(t);
                    }
                }
                B::Hr => self.end(),
                B::Div(inner, c) => self.run(inner, &base.over(c)),
                B::Img(alt, src) => {
                    if self.o.include_images {
                        if std::path::Path::new(src).exists() {
                            self.cur("Image").imgs.push(src.clone());
                        } else {
                            let l = if alt.is_empty() { src } else { alt };
                            self.bullet(format!("[Image: {l}]"), base.clone(), "Overview");
                        }
                    }
                }
                B::Skip(_) => {}
            }
        }
    }
}
fn same_format(f: &Option<BulletTextFormat>, c: &Css) -> Res {
    let d = BulletTextFormat::new();
    let f = f.as_ref().unwrap_or(&d);
    ensure!(f.color == c.color, "colour {:?}, expected {:?}", f.color, c.color);
    ensure!(f.highlight == c.back, "highlight {:?}, expected {:?}", f.highlight, c.back);
    ensure!(f.font_size == c.size, "size {:?}, expected {:?}", f.font_size, c.size);
    ensure!(f.bold == c.bold.unwrap_or(false), "bold {}, expected {:?}", f.bold, c.bold);
    ensure!(f.italic == c.italic.unwrap_or(false), "italic {}, expected {:?}", f.italic, c.italic);
    let (u, l) = c.deco.unwrap_or((false, false));
    ensure!(f.underline == u && f.strikethrough == l, "underline {} strike {}, expected {u} {l}", f.underline, f.strikethrough);
    ensure!(f.font_family == c.font, "font {:?}, expected {:?}", f.font_family, c.font);
    Ok(())
}
fn options(s: &mut Src) -> HtmlParseOptions {
    let mut o = HtmlParseOptions::new();
    if s.chance(60) {
        o = o.max_slides(s.range(1, 12) as usize).max_bullets(s.range(1, 12) as usize).include_code(s.chance(80)).include_tables(s.chance(80)).include_images(s.chance(80));
    }
    o
}
fn compare(got: &[SlideContent], want: &[M]) -> Res {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(squash(&g.title) == w.title, "slide {i} is titled {:?}, expected {:?}", g.title, w.title);
        let b: Vec<String> = g.content.iter().map(|x| squash(x)).collect();
        let x: Vec<String> = w.bullets.iter().map(|x| x.0.clone()).collect();
        ensure!(b == x, "slide {i} has bullets {b:?}, expected {x:?}");
        let b: Vec<String> = g.bullets.iter().map(|x| squash(&x.text)).collect();
        ensure!(b == x, "slide {i} has styled bullets {b:?}, expected {x:?}");
        for (b, (t, c)) in g.bullets.iter().zip(&w.bullets) {
            same_format(&b.format, c).map_err(|f| Fail { msg: format!("slide {i}, bullet {t:?}: {}", f.msg) })?;
        }
        let t = g.table.as_ref().map(|t| t.rows.iter().map(|r| r.cells.iter().map(|c| squash(&c.text)).collect::<Vec<_>>()).collect::<Vec<_>>());
        ensure!(t == w.table, "slide {i} has table {t:?}, expected {:?}", w.table);
        ensure!(g.has_table == w.table.is_some(), "slide {i}: has_table is {}", g.has_table);
        let k: Vec<String> = g.code_blocks.iter().map(|c| c.code.clone()).collect();
        ensure!(k == w.codes, "slide {i} has code {k:?}, expected {:?}", w.codes);
        let n = g.notes.as_ref().map(|n| squash(n));
        ensure!(n == w.notes, "slide {i} has notes {n:?}, expected {:?}", w.notes);
        ensure!(g.images.len() == w.imgs.len(), "slide {i} has {} pictures, expected {}", g.images.len(), w.imgs.len());
        for (im, f) in g.images.iter().zip(&w.imgs) {
            ensure!(im.get_bytes() == std::fs::read(f).ok(), "slide {i}: picture {f} has other bytes");
        }
        if w.tcss.color.is_some() {
            ensure!(g.title_color == w.tcss.color, "slide {i}: title colour {:?}, expected {:?}", g.title_color, w.tcss.color);
        }
        if w.tcss.size.is_some() {
            ensure!(g.title_size == w.tcss.size, "slide {i}: title size {:?}, expected {:?}", g.title_size, w.tcss.size);
        }
        ensure!(g.title_italic == w.tcss.italic.unwrap_or(false), "slide {i}: title italic {}", g.title_italic);
        ensure!(g.title_underline == w.tcss.deco.is_some_and(|d| d.0), "slide {i}: title underline {}", g.title_underline);
    }
    ensure!(got.len() == want.len(), "{} slides {:?}, expected {}", got.len(), got.iter().map(|s| &s.title).collect::<Vec<_>>(), want.len());
    Ok(())
}
pub fn document(c: &mut Ctx) -> (String, Vec<M>, HtmlParseOptions) {
    for i in 0..3 {
        let _ = std::fs::remove_file(c.file(&format!("img{i}.png")));
    }
    let mut bs = blocks(c, 2, 8);
    let mut h = String::new();
    let s = &mut c.s;
    let page = s.bool();
    if page {
        h.push_str("<!DOCTYPE html>\n<html lang=en><head><meta charset=\"utf-8\"><title>t</title></head><body>");
    }
    render(&mut bs, s, &mut h);
    if page && s.bool() {
        h.push_str("</body></html>\n");
    }
    let o = options(s);
    c.note(|| format!("{o:?}\n{h}"));
    let mut m = Model { done: vec![], cur: None, ptitle: None, o: o.clone() };
    m.run(&bs, &Css::default());
    m.end();
    m.done.truncate(o.max_slides);
    (h, m.done, o)
}
fn documents(c: &mut Ctx) -> Res {
    let (h, want, o) = document(c);
    let d = HtmlParseOptions::default();
    let default = (o.max_slides, o.max_bullets, o.include_code, o.include_tables, o.include_images) == (d.max_slides, d.max_bullets, d.include_code, d.include_tables, d.include_images);
    let got = guard(|| if default { parse_html(&h) } else { parse_html_with_options(&h, o.clone()) })?;
    if want.is_empty() {
        c.label("no content");
        ensure!(got.is_err(), "a document without content gave slides");
        return Ok(());
    }
    let got = got.map_err(|m| Fail { msg: format!("refused: {m}") })?;
    compare(&got, &want)?;
    c.nontrivial(want.len() > 1 || want[0].bullets.len() > 1);
    Ok(())
}
fn command(c: &mut Ctx) -> Res {
    let (h, want, o) = document(c);
    let (f, out) = (c.file("in.html"), c.file("sub/out.pptx"));
    let _ = std::fs::remove_file(&out);
    std::fs::write(&f, &h).map_err(|e| Fail { msg: e.to_string() })?;
    let title = if c.s.bool() { Some(gen::words(&mut c.s)) } else { None };
    let r = guard(|| FromHtmlCommand::execute(f.to_str().unwrap(), out.to_str().unwrap(), title.as_deref(), o.max_slides, o.max_bullets, !o.include_images, !o.include_tables, !o.include_code))?;
    if want.is_empty() {
        ensure!(r.is_err() && !out.exists(), "a document without content gave a file");
        return Ok(());
    }
    r.map_err(|m| Fail { msg: format!("command failed: {m}") })?;
    let parsed = guard(|| Html2Ppt::with_options(o.clone()).parse_file(f.to_str().unwrap()))?.map_err(|m| Fail { msg: m })?;
    compare(&parsed, &want)?;
    let b = std::fs::read(&out).map_err(|e| Fail { msg: format!("no output: {e}") })?;
    let p = e(Pkg::read(&b))?;
    e(crate::opc::check_pkg(&p))?;
    if let Some(t) = &title {
        check_core_title(&p, t)?;
    }
    let slides = e(p.slide_paths())?;
    ensure!(slides.len() == want.len(), "{} slides in the file, expected {}", slides.len(), want.len());
    for (i, (s, path)) in parsed.iter().zip(&slides).enumerate() {
        check_slide_text(&p, path, s, i)?;
    }
    c.nontrivial(want.len() > 1);
    Ok(())
}
const BITS: &[&str] = &[
    "<h1>", "</h1>", "<p>", "</p>", "<b>", "</b>", "<i>", "</i>", "<ul>", "</ul>", "<li>", "</li>", "<table>", "</table>", "<tr>", "<td>", "</td>", "</tr>", "<th>", "<pre>", "</pre>", "<blockquote>",
    "</blockquote>", "<hr>", "<br>", "<img src=x>", "<a href='", "\">", "<", ">", "</", "<!--", "-->", "<!", "&", "&#", "&#x110000;", "&#xD800;", "&#0;", "&amp", ";", "é", "😀", "x", " ", "\n", "<script>",
    "</script>", "<title>", "</title>", "<nav>", "</nav>", "<div style=\"color:#ééé\">", "<p style='color:#aaaaaéa;font-size:1e30px'>", "<p style=\"font-size:-5pt;color:rgb(1,2\">", "</div>", "<h2>", "</h2>",
    "<caption>", "</caption>", "<p style='font-size:NaNpx;font-family:'>", "<svg/>", "<?", "<tbody>", "</x>", "<p style=\"font-size:99999999999pt;background-color:#zzz\">", "\u{0}", "\u{1b}",
];
fn noise(c: &mut Ctx) -> Res {
    let n = c.s.len(1, 40);
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(*c.s.pick(BITS));
    }
    if c.s.chance(1) {
        let b = *c.s.pick(BITS);
        t = b.repeat(c.s.range(1000, 20000) as usize) + &t;
        c.label("long");
    }
    c.note(|| format!("{:?}", t.chars().take(2000).collect::<String>()));
    c.nontrivial(n > 5);
    let o = options(&mut c.s);
    if let Ok(v) = guard(|| parse_html_with_options(&t, o.clone()))? {
        c.label("accepted");
        ensure!(v.len() <= o.max_slides && !v.is_empty(), "{} slides", v.len());
        ensure!(v.iter().all(|s| s.content.len() <= o.max_bullets), "more bullets than allowed");
        if t.len() < 10000 {
            let b = guard(|| ppt_rs::generator::create_pptx_with_content("t", v))?.map_err(|e| Fail { msg: e.to_string() })?;
            e(crate::opc::check_package(&b))?;
        }
    }
    Ok(())
}
fn probe_nested() -> Res {
    let v = guard(|| parse_html("<h1>t</h1><ul><li>one</li><li>two<ul><li>three</li></ul></li></ul>"))?.map_err(|m| Fail { msg: m })?;
    let all = v[0].content.join("\n");
    for w in ["one", "two", "three"] {
        ensure!(all.contains(w), "{w:?} of a nested list is lost: {:?}", v[0].content);
    }
    ensure!(v[0].content.len() == 3, "items of a nested list are merged: {:?}", v[0].content);
    Ok(())
}
fn probe_links() -> Res {
    let v = guard(|| parse_html("<h1>t</h1><p>see <a href=\"https://example.com/x\">here</a></p>"))?.map_err(|m| Fail { msg: m })?;
    ensure!(format!("{v:?}").contains("example.com/x"), "the target of a link is lost");
    Ok(())
}
fn probe_quotes() -> Res {
    let v = guard(|| parse_html("<h1>t</h1><blockquote>one</blockquote><blockquote>two</blockquote>"))?.map_err(|m| Fail { msg: m })?;
    ensure!(v[0].notes.as_ref().is_some_and(|n| n.contains("one") && n.contains("two")), "notes are {:?}", v[0].notes);
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "documents: several slides or bullets; command: several slides; noise: more than five pieces",
        assumptions: &["lists are not nested and a slide has one blockquote that counts (recorded findings)", "white space runs count as one blank outside code", "pictures are local files or missing"],
        subs: vec![
            Sub { name: "documents", quick: 12000, run: documents },
            Sub { name: "command", quick: 500, run: command },
            Sub { name: "noise", quick: 2500, run: noise },
        ],
        probes: vec![
            Probe { key: "html-nested-lists", run: probe_nested },
            Probe { key: "html-links-lost", run: probe_links },
            Probe { key: "html-last-quote-wins", run: probe_quotes },
        ],
    }
}

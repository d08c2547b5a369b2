//! A small strict PDF reader: classic cross-reference table, objects, page tree, page contents.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Num(f64),
    Name(String),
    Str(Vec<u8>),
    Arr(Vec<V>),
    Dict(BTreeMap<String, V>),
    Ref(u32),
    Op(String),
}
impl V {
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::Dict(m) => m.get(k),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<f64> {
        match self {
            V::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn name(&self) -> Option<&str> {
        match self {
            V::Name(n) => Some(n),
            _ => None,
        }
    }
}
pub struct Pdf {
    pub objs: BTreeMap<u32, (V, Option<Vec<u8>>)>,
    pub root: u32,
    pub trailer: V,
}
pub struct Lex<'a> {
    b: &'a [u8],
    pub i: usize,
}
fn space(c: u8) -> bool {
    matches!(c, 0 | 9 | 10 | 12 | 13 | 32)
}
fn delim(c: u8) -> bool {
    matches!(c, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'{' | b'}' | b'/' | b'%')
}
impl<'a> Lex<'a> {
    pub fn new(b: &'a [u8], i: usize) -> Self {
        Lex { b, i }
    }
    pub fn ws(&mut self) {
        while self.i < self.b.len() {
            if self.b[self.i] == b'%' {
                while self.i < self.b.len() && !matches!(self.b[self.i], 10 | 13) {
                    self.i += 1;
                }
            } else if space(self.b[self.i]) {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    pub fn end(&mut self) -> bool {
        self.ws();
        self.i >= self.b.len()
    }
    fn word(&mut self) -> String {
        let s = self.i;
        while self.i < self.b.len() && !space(self.b[self.i]) && !delim(self.b[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.b[s..self.i]).to_string()
    }
    pub fn expect(&mut self, w: &str) -> Result<(), String> {
        self.ws();
        if self.b[self.i.min(self.b.len())..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(())
        } else {
            Err(format!("{w:?} expected at byte {}", self.i))
        }
    }
    /// One token or compound value; keywords come back as Op. Inside objects `n g R` becomes a reference.
    pub fn value(&mut self, refs: bool) -> Result<V, String> {
        self.ws();
        let at = self.i;
        let Some(&c) = self.b.get(self.i) else { return Err("unexpected end".into()) };
        match c {
            b'/' => {
                self.i += 1;
                let w = self.word();
                let mut o = vec![];
                let wb = w.as_bytes();
                let mut k = 0;
                while k < wb.len() {
                    if wb[k] == b'#' && k + 2 < wb.len() + 0 {
                        if let Ok(h) = u8::from_str_radix(&w[k + 1..k + 3], 16) {
                            o.push(h);
                            k += 3;
                            continue;
                        }
                    }
                    o.push(wb[k]);
                    k += 1;
                }
                Ok(V::Name(String::from_utf8_lossy(&o).to_string()))
            }
            b'(' => self.string(),
            b'<' if self.b.get(self.i + 1) == Some(&b'<') => {
                self.i += 2;
                let mut m = BTreeMap::new();
                loop {
                    self.ws();
                    if self.b[self.i.min(self.b.len())..].starts_with(b">>") {
                        self.i += 2;
                        return Ok(V::Dict(m));
                    }
                    let k = self.value(refs)?;
                    let V::Name(k) = k else { return Err(format!("dictionary key {k:?} at byte {}", self.i)) };
                    let v = self.value(refs)?;
                    if matches!(v, V::Op(_)) {
                        return Err(format!("value of /{k} is {v:?}"));
                    }
                    if m.insert(k.clone(), v).is_some() {
                        return Err(format!("/{k} given twice"));
                    }
                }
            }
            b'<' => {
                self.i += 1;
                let mut h = vec![];
                while let Some(&c) = self.b.get(self.i) {
                    self.i += 1;
                    if c == b'>' {
                        break;
                    }
                    if !space(c) {
                        h.push((c as char).to_digit(16).ok_or(format!("byte {c} in a hexadecimal string"))? as u8);
                    }
                }
                if h.len() % 2 == 1 {
                    h.push(0);
                }
                Ok(V::Str(h.chunks(2).map(|p| p[0] << 4 | p[1]).collect()))
            }
            b'[' => {
                self.i += 1;
                let mut a = vec![];
                loop {
                    self.ws();
                    if self.b.get(self.i) == Some(&b']') {
                        self.i += 1;
                        return Ok(V::Arr(a));
                    }
                    a.push(self.value(refs)?);
                }
            }
            b')' | b'>' | b']' | b'{' | b'}' => Err(format!("stray {:?} at byte {at}", c as char)),
            _ => {
                let w = self.word();
                if w.bytes().all(|c| matches!(c, b'0'..=b'9' | b'+' | b'-' | b'.')) {
                    let n: f64 = w.parse().map_err(|_| format!("number {w:?}"))?;
                    if refs && n >= 0.0 && n.fract() == 0.0 {
                        let back = self.i;
                        self.ws();
                        if self.word() == "0" {
                            self.ws();
                            if self.word() == "R" {
                                return Ok(V::Ref(n as u32));
                            }
                        }
                        self.i = back;
                    }
                    return Ok(V::Num(n));
                }
                Ok(match w.as_str() {
                    "true" => V::Bool(true),
                    "false" => V::Bool(false),
                    "null" => V::Null,
                    _ => V::Op(w),
                })
            }
        }
    }
    fn string(&mut self) -> Result<V, String> {
        let at = self.i;
        self.i += 1;
        let mut depth = 1;
        let mut o = vec![];
        while let Some(&c) = self.b.get(self.i) {
            self.i += 1;
            match c {
                b'(' => {
                    depth += 1;
                    o.push(c);
                }
                b')' => {
                    depth -= 1;
                    if depth == 0 {
                        return Ok(V::Str(o));
                    }
                    o.push(c);
                }
                b'\\' => {
                    let Some(&d) = self.b.get(self.i) else { break };
                    self.i += 1;
                    match d {
                        b'n' => o.push(10),
                        b'r' => o.push(13),
                        b't' => o.push(9),
                        b'b' => o.push(8),
                        b'f' => o.push(12),
                        b'(' | b')' | b'\\' => o.push(d),
                        b'0'..=b'7' => {
                            let mut n = (d - b'0') as u32;
                            for _ in 0..2 {
                                match self.b.get(self.i) {
                                    Some(&k @ b'0'..=b'7') => {
                                        n = n * 8 + (k - b'0') as u32;
                                        self.i += 1;
                                    }
                                    _ => break,
                                }
                            }
                            o.push(n as u8);
                        }
                        13 => {
                            if self.b.get(self.i) == Some(&10) {
                                self.i += 1;
                            }
                        }
                        10 => {}
                        _ => o.push(d),
                    }
                }
                13 => {
                    if self.b.get(self.i) == Some(&10) {
                        self.i += 1;
                    }
                    o.push(10);
                }
                _ => o.push(c),
            }
        }
        Err(format!("string at byte {at} does not end"))
    }
}
pub fn parse(b: &[u8]) -> Result<Pdf, String> {
    if !b.starts_with(b"%PDF-1.") && !b.starts_with(b"%PDF-2.") {
        return Err("no PDF header".into());
    }
    let tail = b.len().saturating_sub(64);
    let text = &b[tail..];
    let k = text.windows(9).rposition(|w| w == b"startxref").ok_or("no startxref")?;
    let mut l = Lex::new(b, tail + k + 9);
    let x = l.value(false)?.num().ok_or("startxref without offset")? as usize;
    l.ws();
    if b[tail + k..].windows(5).all(|w| w != b"%%EOF") {
        return Err("no end marker".into());
    }
    let mut l = Lex::new(b, x);
    if !b[x.min(b.len())..].starts_with(b"xref") {
        return Err(format!("startxref {x} does not point at the table"));
    }
    l.expect("xref")?;
    let mut at = BTreeMap::new();
    let trailer = loop {
        match l.value(false)? {
            V::Op(w) if w == "trailer" => break l.value(true)?,
            V::Num(first) => {
                let n = l.value(false)?.num().ok_or("xref section")? as u32;
                l.ws();
                for k in 0..n {
                    let e = b.get(l.i..l.i + 20).ok_or("xref table cut short")?;
                    let e = std::str::from_utf8(e).map_err(|_| "xref entry")?;
                    let (o, g, t, end) = (&e[..10], &e[11..16], &e[17..18], &e[18..20]);
                    if !o.bytes().all(|c| c.is_ascii_digit()) || !g.bytes().all(|c| c.is_ascii_digit()) || !matches!(end, " \n" | " \r" | "\r\n") {
                        return Err(format!("xref entry {e:?}"));
                    }
                    let id = first as u32 + k;
                    match t {
                        "n" => {
                            at.insert(id, o.parse::<usize>().unwrap());
                        }
                        "f" => {}
                        _ => return Err(format!("xref entry {e:?}")),
                    }
                    l.i += 20;
                }
            }
            v => return Err(format!("{v:?} in the xref table")),
        }
    };
    let size = trailer.get("Size").and_then(|v| v.num()).ok_or("trailer without Size")? as u32;
    if at.keys().next_back().map(|k| k + 1) != Some(size) {
        return Err(format!("trailer Size {size}, highest object {:?}", at.keys().next_back()));
    }
    let Some(V::Ref(root)) = trailer.get("Root").cloned() else { return Err("trailer without Root".into()) };
    let mut objs = BTreeMap::new();
    for (id, o) in &at {
        let f = |m: String| format!("object {id}: {m}");
        let mut l = Lex::new(b, *o);
        if !b.get(*o).is_some_and(|c| c.is_ascii_digit()) {
            return Err(f(format!("offset {o} does not point at it")));
        }
        if l.value(false).map_err(f)? != V::Num(*id as f64) || l.value(false).map_err(f)? != V::Num(0.0) {
            return Err(f(format!("offset {o} does not point at it")));
        }
        l.expect("obj").map_err(f)?;
        let v = l.value(true).map_err(f)?;
        l.ws();
        let mut stream = None;
        if b[l.i..].starts_with(b"stream") {
            l.i += 6;
            if b[l.i..].starts_with(b"\r\n") {
                l.i += 2;
            } else if b.get(l.i) == Some(&10) {
                l.i += 1;
            } else {
                return Err(f("stream keyword without line end".into()));
            }
            let n = match v.get("Length") {
                Some(V::Num(n)) => *n as usize,
                Some(V::Ref(r)) => {
                    let mut k = Lex::new(b, *at.get(r).ok_or(f(format!("length object {r} missing")))?);
                    k.value(false)?;
                    k.value(false)?;
                    k.expect("obj")?;
                    k.value(false)?.num().ok_or(f("length".into()))? as usize
                }
                _ => return Err(f("stream without Length".into())),
            };
            stream = Some(b.get(l.i..l.i + n).ok_or(f("stream runs past the end".into()))?.to_vec());
            l.i += n;
            let rest = &b[l.i..];
            if !(rest.starts_with(b"\nendstream") || rest.starts_with(b"\r\nendstream") || rest.starts_with(b"endstream")) {
                return Err(f(format!("stream is not {n} bytes long")));
            }
            l.expect("endstream").map_err(f)?;
        }
        l.expect("endobj").map_err(f)?;
        objs.insert(*id, (v, stream));
    }
    let p = Pdf { objs, root, trailer };
    // every reference leads to an object
    fn refs(v: &V, o: &mut Vec<u32>) {
        match v {
            V::Ref(r) => o.push(*r),
            V::Arr(a) => a.iter().for_each(|k| refs(k, o)),
            V::Dict(m) => m.values().for_each(|k| refs(k, o)),
            _ => {}
        }
    }
    for (id, (v, _)) in &p.objs {
        let mut o = vec![];
        refs(v, &mut o);
        if let Some(r) = o.iter().find(|r| !p.objs.contains_key(r)) {
            return Err(format!("object {id} refers to {r}, which does not exist"));
        }
    }
    let mut o = vec![];
    refs(&p.trailer, &mut o);
    if o.iter().any(|r| !p.objs.contains_key(r)) {
        return Err("trailer refers to a missing object".into());
    }
    Ok(p)
}
/// A piece of text drawn on a page.
#[derive(Clone, Debug)]
pub struct Run {
    pub text: Vec<u8>,
    pub font: String,
    pub size: f64,
    pub rgb: [f64; 3],
    pub x: f64,
    pub y: f64,
}
pub struct Page {
    pub dict: V,
    pub content: Vec<u8>,
    pub filtered: bool,
}
impl Pdf {
    pub fn val<'a>(&'a self, v: &'a V) -> &'a V {
        match v {
            V::Ref(r) => &self.objs[r].0,
            v => v,
        }
    }
    pub fn key<'a>(&'a self, v: &'a V, k: &str) -> Option<&'a V> {
        self.val(v).get(k).map(|v| self.val(v))
    }
    pub fn pages(&self) -> Result<Vec<Page>, String> {
        let cat = &self.objs[&self.root].0;
        if cat.get("Type").and_then(|v| v.name()) != Some("Catalog") {
            return Err("the root is no catalog".into());
        }
        let Some(V::Ref(top)) = cat.get("Pages") else { return Err("catalog without page tree".into()) };
        let mut out = vec![];
        self.walk(*top, None, &mut out, 0)?;
        Ok(out)
    }
    fn walk(&self, id: u32, parent: Option<u32>, out: &mut Vec<Page>, depth: u32) -> Result<usize, String> {
        if depth > 50 {
            return Err("page tree too deep".into());
        }
        let d = &self.objs[&id].0;
        if let Some(p) = parent {
            if d.get("Parent") != Some(&V::Ref(p)) {
                return Err(format!("node {id} does not name its parent {p}"));
            }
        }
        match d.get("Type").and_then(|v| v.name()) {
            Some("Pages") => {
                let Some(V::Arr(k)) = self.key(d, "Kids") else { return Err("page tree node without kids".into()) };
                let mut n = 0;
                for k in k {
                    let V::Ref(k) = k else { return Err("kid is no reference".into()) };
                    n += self.walk(*k, Some(id), out, depth + 1)?;
                }
                if self.key(d, "Count").and_then(|v| v.num()) != Some(n as f64) {
                    return Err(format!("node {id} counts {:?}, has {n} pages", d.get("Count")));
                }
                Ok(n)
            }
            Some("Page") => {
                let Some(V::Arr(mb)) = self.key(d, "MediaBox") else { return Err(format!("page {id} without size")) };
                if mb.len() != 4 || mb.iter().any(|v| v.num().is_none()) {
                    return Err(format!("page {id} has size {mb:?}"));
                }
                let ids: Vec<u32> = match d.get("Contents") {
                    Some(V::Ref(r)) => match &self.objs[r].0 {
                        V::Arr(a) => a.iter().filter_map(|v| if let V::Ref(r) = v { Some(*r) } else { None }).collect(),
                        _ => vec![*r],
                    },
                    Some(V::Arr(a)) => a.iter().filter_map(|v| if let V::Ref(r) = v { Some(*r) } else { None }).collect(),
                    _ => vec![],
                };
                let mut content = vec![];
                let mut filtered = false;
                for r in ids {
                    let (d, s) = &self.objs[&r];
                    filtered |= d.get("Filter").is_some();
                    content.extend_from_slice(s.as_ref().ok_or(format!("contents {r} is no stream"))?);
                    content.push(b'\n');
                }
                out.push(Page { dict: d.clone(), content, filtered });
                Ok(1)
            }
            t => Err(format!("page tree node {id} is {t:?}")),
        }
    }
    /// What a page draws. Checks the grammar of the content and that every font is declared.
    pub fn runs(&self, p: &Page) -> Result<(Vec<Run>, usize), String> {
        let res = self.key(&p.dict, "Resources");
        let fonts = res.and_then(|r| self.key(r, "Font"));
        let mut l = Lex::new(&p.content, 0);
        let mut st: Vec<V> = vec![];
        let mut out = vec![];
        let (mut font, mut size, mut rgb) = (String::new(), 0.0, [0.0; 3]);
        let (mut text, mut path, mut strokes) = (false, false, 0);
        let (mut x, mut y) = (0.0, 0.0);
        let mut depth = 0i32;
        let mut saved = vec![];
        while !l.end() {
            let v = l.value(false)?;
            let V::Op(op) = v else {
                st.push(v);
                continue;
            };
            let n: Vec<f64> = st.iter().filter_map(|v| v.num()).collect();
            let need = |k: usize| if n.len() == k && st.len() == k { Ok(()) } else { Err(format!("{op} with operands {st:?}")) };
            let path_op = matches!(op.as_str(), "m" | "l" | "c" | "v" | "y" | "h" | "re" | "W" | "W*");
            let paint = matches!(op.as_str(), "S" | "s" | "f" | "F" | "f*" | "B" | "B*" | "b" | "b*" | "n");
            if path && !path_op && !paint {
                return Err(format!("{op} inside a path"));
            }
            if (paint || (path_op && !matches!(op.as_str(), "m" | "re"))) && !path {
                return Err(format!("{op} without a path"));
            }
            if text && (path_op || paint || matches!(op.as_str(), "q" | "Q" | "cm" | "Do")) {
                return Err(format!("{op} inside a text object"));
            }
            match op.as_str() {
                "m" | "l" => need(2)?,
                "re" => need(4)?,
                "rg" | "RG" => {
                    need(3)?;
                    if n.iter().any(|k| !(0.0..=1.0).contains(k)) {
                        return Err(format!("colour {n:?}"));
                    }
                    if op == "rg" {
                        rgb = [n[0], n[1], n[2]];
                    }
                }
                "g" | "G" => {
                    need(1)?;
                    if op == "g" {
                        rgb = [n[0]; 3];
                    }
                }
                "w" => need(1)?,
                "Tf" => {
                    let [V::Name(f), V::Num(s)] = &st[..] else { return Err(format!("Tf with {st:?}")) };
                    if fonts.and_then(|d| d.get(f)).is_none() {
                        return Err(format!("font /{f} is not declared on its page"));
                    }
                    let d = self.key(fonts.unwrap(), f).unwrap();
                    font = self.key(d, "BaseFont").and_then(|v| v.name()).unwrap_or(f).to_string();
                    size = *s;
                }
                "BT" => {
                    if text {
                        return Err("nested text object".into());
                    }
                    text = true;
                    (x, y) = (0.0, 0.0);
                }
                "ET" => {
                    if !text {
                        return Err("ET without BT".into());
                    }
                    text = false;
                }
                "Td" | "TD" => {
                    need(2)?;
                    (x, y) = (x + n[0], y + n[1]);
                }
                "Tm" => {
                    need(6)?;
                    (x, y) = (n[4], n[5]);
                }
                "Tj" | "'" | "TJ" => {
                    if !text {
                        return Err(format!("{op} outside a text object"));
                    }
                    if font.is_empty() {
                        return Err(format!("{op} without a font"));
                    }
                    let t = match &st[..] {
                        [V::Str(s)] => s.clone(),
                        [V::Arr(a)] => a.iter().flat_map(|v| if let V::Str(s) = v { s.clone() } else { vec![] }).collect(),
                        _ => return Err(format!("{op} with {st:?}")),
                    };
                    out.push(Run { text: t, font: font.clone(), size, rgb, x, y });
                }
                "q" => {
                    depth += 1;
                    saved.push((font.clone(), size, rgb));
                }
                "Q" => {
                    depth -= 1;
                    (font, size, rgb) = saved.pop().ok_or("Q without q")?;
                }
                "S" | "s" => strokes += 1,
                "f" | "F" | "f*" | "B" | "B*" | "b" | "b*" | "n" | "h" | "c" | "v" | "y" | "W" | "W*" | "cm" | "Do" | "gs" | "J" | "j" | "M" | "d" | "ri" | "i" | "Tc" | "Tw" | "Tz" | "TL" | "Tr" | "Ts" | "T*" | "cs" | "CS" | "sc" | "SC"
                | "scn" | "SCN" | "k" | "K" | "BMC" | "BDC" | "EMC" => {}
                _ => return Err(format!("unknown operator {op:?}")),
            }
            path = if paint { false } else { path || path_op };
            st.clear();
        }
        if !st.is_empty() || text || path || depth != 0 {
            return Err("page content ends inside an operation".into());
        }
        Ok((out, strokes))
    }
}
/// Windows-1252, the characters of the standard Latin encoding.
pub fn latin(b: &[u8]) -> String {
    const HI: [u32; 32] = [
        0x20AC, 0xFFFD, 0x201A, 0x192, 0x201E, 0x2026, 0x2020, 0x2021, 0x2C6, 0x2030, 0x160, 0x2039, 0x152, 0xFFFD, 0x17D, 0xFFFD, 0xFFFD, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x2DC, 0x2122, 0x161, 0x203A, 0x153, 0xFFFD,
        0x17E, 0x178,
    ];
    b.iter().map(|c| if (0x80..0xA0).contains(c) { char::from_u32(HI[*c as usize - 0x80]).unwrap() } else { *c as char }).collect()
}
/// Does `got` show `want`? Characters outside the Latin set may be any replacement, white space any white space.
pub fn shows(got: &str, want: &str) -> bool {
    let g: Vec<char> = got.chars().collect();
    let w: Vec<char> = want.chars().collect();
    let known = |c: char| (' '..='~').contains(&c) || latin(&(0x80..=0xFFu16).map(|k| k as u8).collect::<Vec<_>>()).contains(c) && c != '\u{FFFD}';
    g.len() == w.len() && g.iter().zip(&w).all(|(a, b)| if b.is_whitespace() { a.is_whitespace() } else { a == b || !known(*b) })
}

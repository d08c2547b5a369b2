//! C21: Mermaid diagrams in Markdown become shapes and connectors.
use super::deck_p;
use super::schema_p::check_all;
use crate::engine::*;
use crate::gen;
use crate::opc::Pkg;
use ppt_rs::cli::parse_markdown;
use ppt_rs::generator::*;
use std::collections::BTreeMap;

/// What a diagram must show.
#[derive(Default, Clone, Debug)]
struct Want {
    /// texts with the number of times they appear
    texts: BTreeMap<String, usize>,
    /// texts at the two ends of each connector
    edges: Vec<(String, String)>,
    /// groups of texts whose shapes follow one another along an axis ('x' or 'y')
    rows: Vec<(char, Vec<String>)>,
    /// texts whose shapes must not overlap
    apart: Vec<String>,
    /// messages: text, and whether the arrow points left
    arrows: Vec<(String, bool)>,
}
impl Want {
    fn text(&mut self, t: &str) {
        self.times(t, 1);
    }
    fn times(&mut self, t: &str, n: usize) {
        if !t.is_empty() {
            *self.texts.entry(t.to_string()).or_default() += n;
        }
    }
}
/// Words with now and then a special character inside.
fn label(s: &mut Src, extra: &[&str]) -> String {
    let mut o = gen::word(s);
    for _ in 0..s.below(3) {
        if s.chance(35) && !extra.is_empty() {
            o += *s.pick(extra);
        } else {
            o += " ";
        }
        o += &gen::word(s);
    }
    o
}
/// `n` different names.
fn names(s: &mut Src, n: usize) -> Vec<String> {
    let style = s.below(3);
    let pool = ["order", "food", "Photo", "user", "item", "book", "Zoo", "node", "oo", "state1", "Root_x", "lo"];
    (0..n)
        .map(|i| match style {
            0 => ((b'A' + i as u8) as char).to_string(),
            1 => format!("n{i}"),
            _ => pool[i % pool.len()].to_string() + &if i >= pool.len() { i.to_string() } else { String::new() },
        })
        .collect()
}
fn uniq(s: &mut Src, n: usize, extra: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for i in 0..n {
        let mut l = label(s, extra);
        if v.contains(&l) {
            l += &format!(" {i}x");
        }
        v.push(l);
    }
    v
}
struct Code {
    lines: Vec<String>,
    aux: &'static [&'static str],
}
/// Statements that show nothing of their own.
fn aux(head: &str) -> &'static [&'static str] {
    match head.split([' ', '-']).next().unwrap_or("") {
        "flowchart" | "graph" => &["style A fill:#f9f,stroke:#333", "classDef red fill:#f00,stroke:#333", "class A,B red", "linkStyle 0 stroke:#f00", "linkStyle default stroke:#0f0", "click A \"https://example.com/x\"", "click A call back() \"tip\"", "click A href \"https://example.com\" \"tip\" _blank", "accTitle: Hidden", "accDescr: Hidden too"],
        "sequenceDiagram" => &["autonumber", "accTitle: Hidden", "accDescr: a ->> b"],
        "gantt" => &["dateFormat HH:mm", "axisFormat %H:%M", "tickInterval 1day", "excludes weekends", "todayMarker off", "todayMarker stroke-width:5px,stroke:#0f0,opacity:0.5", "inclusiveEndDates", "weekday monday", "click a1 href \"https://example.com\"", "accTitle: Hidden", "accDescr: Hidden too"],
        "pie" => &["accTitle: Hidden", "accDescr: Hidden too"],
        "journey" => &["accTitle: Hidden", "accDescr: Hidden too"],
        "classDiagram" => &["direction RL", "style A fill:#f9f,stroke:#333", "classDef red fill:#f00,stroke:#333", "cssClass \"A\" red", "click A href \"https://example.com\"", "link A \"https://example.com\"", "accTitle: Hidden", "accDescr: Hidden too"],
        "stateDiagram" => &["direction LR", "classDef red fill:#f00,stroke:#333", "class A red", "style A fill:#f9f", "accTitle: Hidden", "accDescr: Hidden too"],
        "erDiagram" => &["direction LR", "style A fill:#f9f", "classDef red fill:#f00", "class A red", "accTitle: Hidden", "accDescr: Hidden too"],
        "timeline" | "quadrantChart" | "gitGraph" => &["accTitle: Hidden", "accDescr: Hidden too"],
        _ => &[],
    }
}
impl Code {
    fn new(s: &mut Src, head: &str) -> Self {
        let mut lines = vec![];
        if s.chance(10) {
            lines.push(s.pick(&["", "%% note: A --> B", "%%{init: {}}%%"]).to_string());
        }
        lines.push(head.to_string());
        Code { lines, aux: aux(head) }
    }
    fn push(&mut self, s: &mut Src, l: String) {
        if s.chance(6) {
            self.lines.push(s.pick(&["", "%% a comment", "    %% x ->> y: z", "%% x : 3"]).to_string());
        }
        if s.chance(5) && !self.aux.is_empty() && self.depth() == 0 {
            let l = "    ".to_string() + s.pick(self.aux);
            self.lines.push(l);
        }
        let pad = " ".repeat(*s.pick(&[4usize, 0, 2]));
        self.lines.push(pad + &l);
    }
    /// Open braces: inside a body a line is a member.
    fn depth(&self) -> usize {
        let n = |f: fn(&str) -> bool| self.lines.iter().filter(|l| f(l.trim())).count();
        if self.lines.iter().any(|l| l.trim() == "classDiagram" || l.trim() == "erDiagram") { n(|l| l.ends_with('{')) - n(|l| l == "}") } else { 0 }
    }
    fn raw(&mut self, l: String) {
        self.lines.push(l);
    }
    fn end(self) -> String {
        self.lines.join("\n")
    }
}
const PUNCT: &[&str] = &["&", ", ", "'", ".", "/", "<", ">", "-", "é", " & ", "!", "*", "#", "_", "$", "\u{4e2d}"];
fn flowchart(s: &mut Src) -> (String, Want) {
    let mut w = Want::default();
    let head = format!("{} {}", s.pick(&["flowchart", "graph"]), s.pick(&["LR", "TD", "TB", "RL", "BT"]));
    let across = head.ends_with("LR") || head.ends_with("RL");
    let mut c = Code::new(s, &head);
    let n = s.len(1, 9);
    let ids = names(s, n);
    let groups = if s.chance(35) { s.len(1, 3).min(n) } else { 0 };
    let labels = uniq(s, n, PUNCT);
    // node definitions
    let mut defs = vec![];
    let mut shown = vec![];
    for i in 0..n {
        let k = s.below(9);
        let l = labels[i].clone();
        let mid = |s: &mut Src, l: &str, bad: &[char]| {
            let x = *s.pick(&["-->", "(x)", "[y]", "|", "->", "{z}", "---", " ((", "==>"]);
            if s.chance(25) && !x.chars().any(|c| bad.contains(&c)) { format!("{l}{x}{i}") } else { l.to_string() }
        };
        let (def, t) = match k {
            0 | 1 => (ids[i].clone(), ids[i].clone()),
            2 => { let t = mid(s, &l, &[']']); (format!("{}[{t}]", ids[i]), t) }
            3 => { let t = mid(s, &l, &[')']); (format!("{}({t})", ids[i]), t) }
            4 => { let t = mid(s, &l, &['}']); (format!("{}{{{t}}}", ids[i]), t) }
            5 => { let t = mid(s, &l, &[')']); (format!("{}(({t}))", ids[i]), t) }
            6 => { let t = mid(s, &l, &[')', ']']); (format!("{}([{t}])", ids[i]), t) }
            7 => { let t = mid(s, &l, &['}']); (format!("{}{{{{{t}}}}}", ids[i]), t) }
            _ => { let t = mid(s, &l, &[]); (format!("{}[\"{t}\"]", ids[i]), t) }
        };
        defs.push(def);
        shown.push(t);
    }
    for t in &shown {
        w.text(t);
    }
    w.apart = shown.clone();
    let mut defined = vec![false; n];
    let mut seen: Vec<usize> = vec![];
    let chain = |s: &mut Src, w: &mut Want, pool: &[usize], defined: &mut Vec<bool>, seen: &mut Vec<usize>| {
        let len = s.len(1, 4);
        let mut line = String::new();
        let mut prev: Option<usize> = None;
        for _ in 0..len {
            let i = *s.pick(pool);
            if prev.is_some() {
                let a = *s.pick(&["-->", "---", "-.->", "==>", "->"]);
                let sp = if s.chance(25) { "" } else { " " };
                let lab = if s.chance(25) { label(s, PUNCT) } else { String::new() };
                line += &if lab.is_empty() { format!("{sp}{a}{sp}") } else { format!("{sp}{a}|{lab}|{sp}") };
                w.text(&lab);
            }
            let use_def = !defined[i] && s.chance(70);
            line += if use_def { &defs[i] } else { &ids[i] };
            if use_def {
                defined[i] = true;
            }
            if !seen.contains(&i) {
                seen.push(i);
            }
            if let Some(p) = prev {
                w.edges.push((shown[p].clone(), shown[i].clone()));
            }
            prev = Some(i);
        }
        line
    };
    let all: Vec<usize> = (0..n).collect();
    for g in 0..groups {
        let part: Vec<usize> = all.iter().copied().filter(|i| i % groups == g).collect();
        let t = label(s, &["&", ", "]);
        w.text(&t);
        c.push(s, format!("subgraph {t}"));
        for i in &part {
            if s.chance(60) {
                c.push(s, defs[*i].clone());
                defined[*i] = true;
                if !seen.contains(i) {
                    seen.push(*i);
                }
            }
        }
        for _ in 0..s.len(0, 2) {
            let l = chain(s, &mut w, &part, &mut defined, &mut seen);
            c.push(s, l);
        }
        c.push(s, "end".into());
    }
    for _ in 0..s.len(0, 4) {
        let l = chain(s, &mut w, &all, &mut defined, &mut seen);
        c.push(s, l);
    }
    for i in 0..n {
        if !defined[i] {
            c.push(s, defs[i].clone());
            if !seen.contains(&i) {
                seen.push(i);
            }
        }
    }
    if groups == 0 && (!across || n <= 5) {
        w.rows.push((if across { 'x' } else { 'y' }, seen.iter().map(|i| shown[*i].clone()).collect()));
    }
    (c.end(), w)
}
fn sequence(s: &mut Src) -> (String, Want) {
    let mut w = Want::default();
    let mut c = Code::new(s, "sequenceDiagram");
    let n = s.len(1, 6);
    let ids = names(s, n);
    let labels = uniq(s, n, &[", ", "&", "<"]);
    let mut order: Vec<usize> = vec![];
    let mut shown = ids.clone();
    for i in 0..n {
        if s.chance(60) {
            let k = *s.pick(&["participant", "actor"]);
            if s.bool() {
                c.push(s, format!("{k} {} as {}", ids[i], labels[i]));
                shown[i] = labels[i].clone();
            } else {
                c.push(s, format!("{k} {}", ids[i]));
            }
            order.push(i);
        }
    }
    let mut msgs = vec![];
    for m in 0..s.len(0, 6) {
        let (a, b) = (s.usize(n), s.usize(n));
        let t = label(s, &[": ", "->>", "-->>", "&", ", ", "<", "->"]) + &format!(" m{m}");
        let arrow = *s.pick(&["->>", "-->>", "->", "-->"]);
        let act = if s.chance(15) { *s.pick(&["+", "-"]) } else { "" };
        let sp = if s.chance(15) { " " } else { "" };
        c.push(s, format!("{}{sp}{arrow}{act}{sp}{}: {t}", ids[a], ids[b]));
        for i in [a, b] {
            if !order.contains(&i) {
                order.push(i);
            }
        }
        w.text(&t);
        msgs.push((t, a, b));
    }
    if s.chance(20) {
        c.push(s, "Note over A: hidden".into());
    }
    for i in &order {
        w.times(&shown[*i], 2);
    }
    w.rows.push(('x', order.iter().map(|i| shown[*i].clone()).collect()));
    w.rows.push(('y', msgs.iter().map(|m| m.0.clone()).collect()));
    let at = |i: usize| order.iter().position(|k| *k == i);
    w.arrows = msgs.iter().filter(|m| m.1 != m.2).map(|m| (m.0.clone(), at(m.1) > at(m.2))).collect();
    (c.end(), w)
}
fn pie(s: &mut Src) -> (String, Want) {
    let mut w = Want::default();
    let head = s.pick(&["pie", "pie showData", "pie title Pets"]).to_string();
    let mut c = Code::new(s, &head);
    let n = s.len(1, 7);
    let labels = uniq(s, n, &[": ", "&", ", ", "(", "<"]);
    let vals: Vec<f64> = (0..n).map(|_| s.range(1, 40000) as f64 / *s.pick(&[1.0, 10.0, 100.0])).collect();
    let total: f64 = vals.iter().sum();
    for i in 0..n {
        c.push(s, format!("\"{}\" : {}", labels[i], vals[i]));
        w.text(&format!("{} ({:.1}%)", labels[i], vals[i] / total * 100.0));
    }
    w.rows.push(('y', (0..n).map(|i| format!("{} ({:.1}%)", labels[i], vals[i] / total * 100.0)).collect()));
    (c.end(), w)
}
fn gantt(s: &mut Src) -> (String, Want) {
    let mut w = Want::default();
    let mut c = Code::new(s, "gantt");
    if s.bool() {
        let t = label(s, &["&", ", "]) + " t";
        w.text(&t);
        c.push(s, format!("title {t}"));
    }
    if s.bool() {
        c.push(s, "dateFormat YYYY-MM-DD".into());
    }
    let mut col = vec![];
    let n = s.len(1, 8);
    let labels = uniq(s, n, &["&", ", ", "(", "<", "."]);
    for (i, l) in labels.iter().enumerate() {
        if s.chance(40) {
            let t = format!("{} s{i}", label(s, &["&", ", "]));
            c.push(s, format!("section {t}"));
            w.text(&t);
            col.push(t);
        }
        let rest = *s.pick(&[":a1, 2024-01-01, 30d", ": 3d", ": after a1, 20d", ":done, d1, 2024-01-06, 2024-01-08", ":a1, 10:30, 2h", ": 2024-01-01 08:00, 12:15", ":crit, active, after a1 b2, 17:45"]);
        c.push(s, format!("{l} {rest}"));
        w.text(l);
        col.push(l.clone());
    }
    w.rows.push(('y', col));
    (c.end(), w)
}
fn journey(s: &mut Src) -> (String, Want) {
    let mut w = Want::default();
    let mut c = Code::new(s, "journey");
    if s.bool() {
        c.push(s, "title My day".into());
    }
    let n = s.len(1, 8);
    let labels = uniq(s, n, &["&", ", ", "(", "<", "."]);
    let mut heads = vec![];
    let mut col: Vec<String> = vec![];
    for (i, l) in labels.iter().enumerate() {
        if s.chance(40) {
            let t = format!("{} s{i}", label(s, &["&", ", "]));
            c.push(s, format!("section {t}"));
            w.text(&t);
            heads.push(t);
            w.rows.push(('y', std::mem::take(&mut col)));
        }
        let k = s.range(1, 5);
        let who = if s.bool() { ": Me, Cat" } else { "" };
        c.push(s, format!("{l}: {k}{who}"));
        let t = format!("{l} ({k})");
        w.text(&t);
        col.push(t);
    }
    w.rows.push(('y', col));
    w.rows.push(('x', heads));
    (c.end(), w)
}
fn class(s: &mut Src) -> (String, Want) {
    let mut w = Want::default();
    let mut c = Code::new(s, "classDiagram");
    let n = s.len(1, 6);
    let ids = names(s, n);
    let mut attrs: Vec<Vec<String>> = vec![vec![]; n];
    let mut meths: Vec<Vec<String>> = vec![vec![]; n];
    let mut seen: Vec<usize> = vec![];
    let member = |s: &mut Src, k: usize| {
        let v = *s.pick(&["+", "-", "#", ""]);
        let nm = gen::word(s);
        if s.bool() { (true, format!("{v}{nm}{k}(int a) bool")) } else { (false, format!("{v}int {nm}{k}")) }
    };
    for i in 0..n {
        match s.below(4) {
            0 => {
                let sp = if s.chance(20) { "" } else { " " };
                c.push(s, format!("class {}{sp}{{", ids[i]));
                for k in 0..s.len(0, 4) {
                    let (m, t) = member(s, k);
                    c.push(s, t.clone());
                    if m { meths[i].push(t) } else { attrs[i].push(t) }
                }
                c.push(s, "}".into());
            }
            1 => c.push(s, format!("class {}", ids[i])),
            2 => {
                let (m, t) = member(s, 9);
                c.push(s, format!("{} : {t}", ids[i]));
                if m { meths[i].push(t) } else { attrs[i].push(t) }
            }
            _ => continue,
        }
        seen.push(i);
    }
    for _ in 0..s.len(0, 5) {
        let (a, b) = (s.usize(n), s.usize(n));
        let op = *s.pick(&["<|--", "-->", "--", "*--", "o--", "--|>", "..>", "..|>", "..", "--*", "--o"]);
        let tail = if s.chance(30) { format!(" : {}", label(s, &["-", ", "])) } else { String::new() };
        let card = if s.chance(20) { (" \"1\"", "\"0..*\" ") } else { ("", "") };
        // "0..*" on the left of the arrow would be split at its dots
        c.push(s, format!("{}{} {op} {}{}{tail}", ids[a], card.0, card.1, ids[b]));
        for i in [a, b] {
            if !seen.contains(&i) {
                seen.push(i);
            }
        }
        w.edges.push((ids[a].clone(), ids[b].clone()));
    }
    for i in &seen {
        w.text(&ids[*i]);
        w.text(&attrs[*i].join("\n"));
        w.text(&meths[*i].join("\n"));
    }
    w.apart = seen.iter().map(|i| ids[*i].clone()).collect();
    (c.end(), w)
}
fn state(s: &mut Src) -> (String, Want) {
    let mut w = Want::default();
    let head = s.pick(&["stateDiagram-v2", "stateDiagram"]).to_string();
    let mut c = Code::new(s, &head);
    let n = s.len(1, 7);
    let ids = names(s, n);
    let labels = uniq(s, n, &["&", ", ", "<", "."]);
    let mut shown = ids.clone();
    let mut seen: Vec<String> = vec![];
    for i in 0..n {
        match s.below(5) {
            0 => {
                c.push(s, format!("state \"{}\" as {}", labels[i], ids[i]));
                shown[i] = labels[i].clone();
            }
            1 => {
                c.push(s, format!("{} : {}", ids[i], labels[i]));
                shown[i] = labels[i].clone();
            }
            2 => c.push(s, ids[i].clone()),
            _ => continue,
        }
        seen.push(shown[i].clone());
    }
    for _ in 0..s.len(0, 6) {
        let (a, b) = (s.usize(n + 1), s.usize(n + 1));
        let lab = if s.chance(40) { label(s, &[": ", "-->", "&", ", "]) } else { String::new() };
        let (ta, tb) = (if a == n { "Start".into() } else { shown[a].clone() }, if b == n { "End".into() } else { shown[b].clone() });
        let id = |i: usize| if i == n { "[*]".to_string() } else { ids[i].clone() };
        c.push(s, format!("{} --> {}{}", id(a), id(b), if lab.is_empty() { String::new() } else { format!(" : {lab}") }));
        for t in [&ta, &tb] {
            if !seen.contains(t) {
                seen.push(t.clone());
            }
        }
        w.text(&lab);
        w.edges.push((ta, tb));
    }
    for t in &seen {
        w.text(t);
    }
    w.apart = seen;
    (c.end(), w)
}
fn er(s: &mut Src) -> (String, Want) {
    let mut w = Want::default();
    let mut c = Code::new(s, "erDiagram");
    let n = s.len(1, 6);
    let mut ids = names(s, n);
    if s.chance(20) {
        ids[0] = "LINE-ITEM".into();
    }
    let mut seen: Vec<usize> = vec![];
    let mut attrs: Vec<Vec<String>> = vec![vec![]; n];
    for r in 0..s.len(1, 8) {
        let k = s.usize(n);
        if s.chance(40) && attrs[k].is_empty() {
            let sp = if s.chance(20) { "" } else { " " };
            c.push(s, format!("{}{sp}{{", ids[k]));
            for j in 0..s.len(1, 4) {
                let t = format!("{} {}{j}{}", s.pick(&["string", "int", "float"]), gen::word(s), s.pick(&["", " PK", " FK \"a--b: c\""]));
                c.push(s, t.clone());
                attrs[k].push(t);
            }
            c.push(s, "}".into());
            if !seen.contains(&k) {
                seen.push(k);
            }
            continue;
        }
        let b = s.usize(n);
        let op = format!("{}{}{}", s.pick(&["||", "|o", "}o", "}|"]), s.pick(&["--", ".."]), s.pick(&["||", "o|", "o{", "|{"]));
        let lab = format!("{} r{r}", label(s, &["-", ", ", "o{", "--"]));
        let q = if s.chance(30) { format!("\"{lab}\"") } else { lab.clone() };
        c.push(s, format!("{} {op} {} : {q}", ids[k], ids[b]));
        for i in [k, b] {
            if !seen.contains(&i) {
                seen.push(i);
            }
        }
        w.text(&lab);
        w.edges.push((ids[k].clone(), ids[b].clone()));
    }
    for i in &seen {
        w.text(&ids[*i]);
        w.text(&attrs[*i].join("\n"));
    }
    w.apart = seen.iter().map(|i| ids[*i].clone()).collect();
    (c.end(), w)
}
fn mindmap(s: &mut Src) -> (String, Want) {
    let mut w = Want::default();
    let mut c = Code::new(s, "mindmap");
    let n = s.len(1, 10);
    let labels = uniq(s, n, &["&", ", ", "<", ".", "/"]);
    let step = *s.pick(&[2usize, 4, 3]);
    let base = *s.pick(&[0usize, 2, 4]);
    let mut depth = 0;
    for (i, l) in labels.iter().enumerate() {
        if i > 0 {
            depth = 1 + s.usize(depth.min(2) + 1);
        }
        let dress = match s.below(5) {
            0 => format!("id{i}(({l}))"),
            1 => format!("id{i}[{l}]"),
            2 => format!("({l})"),
            3 => format!("id{i}({l})"),
            _ => l.clone(),
        };
        c.raw(" ".repeat(base + step * depth) + &dress);
        w.text(l);
    }
    w.rows.push(('d', labels));
    (c.end(), w)
}
fn timeline(s: &mut Src) -> (String, Want) {
    let mut w = Want::default();
    let mut c = Code::new(s, "timeline");
    if s.bool() {
        let t = label(s, &["&", ", "]) + " t";
        w.text(&t);
        c.push(s, format!("title {t}"));
    }
    let n = s.len(1, 6);
    let mut dates = vec![];
    for i in 0..n {
        let d = format!("{}{}", 2000 + i, s.pick(&["", " Q1", " é"]));
        let mut items = vec![label(s, &["&", ", ", "<", "."])];
        let mut line = format!("{d} : {}", items[0]);
        let mut more = vec![];
        for _ in 0..s.below(3) {
            let t = label(s, &["&", ", "]);
            if s.bool() && more.is_empty() {
                line += &format!(" : {t}");
            } else {
                more.push(format!("  : {t}"));
            }
            items.push(t);
        }
        c.push(s, line);
        for m in more {
            c.push(s, m);
        }
        w.text(&d);
        w.text(&items.join("\n"));
        dates.push(d);
    }
    w.rows.push(('x', dates));
    (c.end(), w)
}
fn quadrant(s: &mut Src) -> (String, Want) {
    let mut w = Want::default();
    let mut c = Code::new(s, "quadrantChart");
    if s.bool() {
        c.push(s, "title Reach".into());
    }
    for a in ["x-axis", "y-axis"] {
        if s.bool() {
            let v = uniq(s, 2, &["&", ", "]);
            let both = s.bool();
            c.push(s, if both { format!("{a} {} --> {}", v[0], v[1]) } else { format!("{a} {}", v[0]) });
            w.text(&v[0]);
            if both {
                w.text(&v[1]);
            }
        }
    }
    for q in 1..=4 {
        if s.bool() {
            let t = label(s, &["&", ", "]);
            c.push(s, format!("quadrant-{q} {t}"));
            w.text(&t);
        }
    }
    let n = s.len(1, 6);
    let mut pts = vec![];
    for l in uniq(s, n, &["&", ", ", ".", ": "]) {
        let (x, y) = (s.range(0, 100), s.range(0, 100));
        let f = |v: i64| format!("{}", v as f64 / 100.0);
        c.push(s, format!("{l}: [{}, {}]", f(x), f(y)));
        w.text(&l);
        pts.push((l, x, y));
    }
    let mut by = pts.clone();
    by.sort_by_key(|p| p.1);
    by.retain(|p| p.1 >= 3);
    by.dedup_by_key(|p| p.1);
    w.rows.push(('x', by.iter().map(|p| p.0.clone()).collect()));
    let mut by = pts;
    by.sort_by_key(|p| -p.2);
    by.retain(|p| p.2 <= 96);
    by.dedup_by_key(|p| p.2);
    w.rows.push(('y', by.iter().map(|p| p.0.clone()).collect()));
    (c.end(), w)
}
fn git(s: &mut Src) -> (String, Want) {
    let mut w = Want::default();
    let mut c = Code::new(s, "gitGraph");
    let mut branches = vec!["main".to_string()];
    let mut cur = 0;
    let mut commits: Vec<(String, usize)> = vec![];
    let mut k = 0;
    let n = s.len(1, 10);
    let names: Vec<String> = ["develop", "feature", "fix1", "hot_2"].iter().map(|s| s.to_string()).collect();
    for i in 0..n {
        match s.below(6) {
            0 if branches.len() < 5 && !commits.is_empty() => {
                let b = names[branches.len() - 1].clone();
                c.push(s, format!("branch {b}"));
                branches.push(b);
                cur = branches.len() - 1;
            }
            1 => {
                cur = s.usize(branches.len());
                c.push(s, format!("checkout {}", branches[cur]));
            }
            2 if branches.len() > 1 => {
                let b = (cur + 1) % branches.len();
                c.push(s, format!("merge {}", branches[b]));
                commits.push((format!("Merge {}", branches[b]), cur));
                k += 1;
            }
            3 => {
                c.push(s, "commit".into());
                commits.push((format!("C{k}"), cur));
                k += 1;
            }
            _ => {
                let t = format!("{} i{i}", label(s, &["&", ", ", ": ", "-"]));
                let tail = s.pick(&["", " tag: \"v1\"", " type: HIGHLIGHT"]).to_string();
                c.push(s, format!("commit id: \"{t}\"{tail}"));
                commits.push((t, cur));
                k += 1;
            }
        }
    }
    if commits.is_empty() {
        c.push(s, "commit".into());
        commits.push(("C0".into(), cur));
    }
    for b in &branches {
        w.text(b);
    }
    w.rows.push(('y', branches.clone()));
    for (t, _) in &commits {
        w.text(t);
    }
    // on every branch one line below that of the branches before it
    let mut lanes: Vec<String> = vec![];
    for b in 0..branches.len() {
        if let Some((t, _)) = commits.iter().find(|(t, k)| *k == b && w.texts[t] == 1) {
            lanes.push(t.clone());
        }
    }
    w.rows.push(('y', lanes));
    w.rows.push(('x', commits.iter().filter(|(t, _)| w.texts[t] == 1).map(|c| c.0.clone()).collect()));
    (c.end(), w)
}
fn shape_text(sh: &Shape) -> String {
    sh.text.clone().unwrap_or_default()
}
fn check(shapes: &[&Shape], cons: &[&Connector], w: &Want) -> Res {
    let mut got: BTreeMap<String, usize> = BTreeMap::new();
    for s in shapes {
        let t = shape_text(s);
        if !t.is_empty() {
            *got.entry(t).or_default() += 1;
        }
    }
    ensure!(got == w.texts, "texts on the slide are {got:?}, expected {:?}", w.texts);
    let one = |t: &str| shapes.iter().find(|s| shape_text(s) == t).copied();
    let unique = |t: &str| w.texts.get(t) == Some(&1);
    ensure!(cons.len() == w.edges.len(), "{} connectors for {} arrows", cons.len(), w.edges.len());
    for (i, (k, (a, b))) in cons.iter().zip(&w.edges).enumerate() {
        for (end, id, t, x, y) in [("start", k.start_shape_id, a, k.start_x, k.start_y), ("end", k.end_shape_id, b, k.end_x, k.end_y)] {
            let Some(id) = id else { return fail(format!("connector {i} has no {end} shape")) };
            let at: Vec<&&Shape> = shapes.iter().filter(|s| s.id == Some(id)).collect();
            ensure!(at.len() == 1, "connector {i}: {} shapes have the id of its {end}", at.len());
            ensure!(shape_text(at[0]) == *t, "connector {i}: its {end} is at {:?}, expected {t:?}", shape_text(at[0]));
            // the drawn line touches the shape, or a box right below it
            let s = at[0];
            let below = shapes.iter().filter(|o| o.x == s.x && o.width == s.width && o.y >= s.y).scan(s.y, |y, o| (o.y == *y).then(|| { *y += o.height; *y })).last().unwrap_or(s.y + s.height);
            ensure!(x >= s.x && x <= s.x + s.width && y >= s.y && y <= below.max(s.y + s.height), "connector {i}: its {end} at {x},{y} is away from {:?} at {},{} {}x{}", t, s.x, s.y, s.width, s.height);
        }
    }
    for (axis, ts) in &w.rows {
        if *axis == 'd' {
            // mind map: boxes of the branches at different places, away from the root
            let boxes: Vec<(u32, u32)> = shapes.iter().filter(|s| s.fill.is_some()).map(|s| (s.x, s.y)).collect();
            ensure!(boxes.len() == ts.len(), "{} boxes for {} nodes", boxes.len(), ts.len());
            for (i, b) in boxes.iter().enumerate() {
                ensure!(!boxes[..i].contains(b), "two nodes are drawn at {b:?}");
            }
            continue;
        }
        let mut last: Option<(u32, &String)> = None;
        for t in ts {
            let ps: Vec<u32> = shapes.iter().filter(|s| shape_text(s) == *t).map(|s| if *axis == 'x' { s.x } else { s.y }).collect();
            // a text that is shown at several places cannot be told apart
            if ps.is_empty() || ps.iter().any(|p| *p != ps[0]) {
                continue;
            }
            let p = ps[0];
            if let Some((q, u)) = last {
                ensure!(p > q, "{t:?} is at {axis} {p}, expected after {u:?} at {q}");
            }
            last = Some((p, t));
        }
    }
    for (i, a) in w.apart.iter().enumerate() {
        for b in &w.apart[..i] {
            if !unique(a) || !unique(b) {
                continue;
            }
            let (Some(p), Some(q)) = (one(a), one(b)) else { continue };
            let clear = p.x + p.width <= q.x || q.x + q.width <= p.x || p.y + p.height <= q.y || q.y + q.height <= p.y;
            ensure!(clear, "{a:?} at {},{} overlaps {b:?} at {},{}", p.x, p.y, q.x, q.y);
        }
    }
    let heads: Vec<bool> = shapes.windows(2).filter(|p| matches!(p[0].shape_type, ShapeType::LeftArrow | ShapeType::RightArrow) && w.arrows.iter().any(|(t, _)| *t == shape_text(p[1]))).map(|p| p[0].shape_type == ShapeType::LeftArrow).collect();
    let want: Vec<bool> = w.arrows.iter().map(|a| a.1).collect();
    ensure!(heads == want, "arrows point left {heads:?}, expected {want:?}");
    Ok(())
}
type Make = fn(&mut Src) -> (String, Want);
const KINDS: &[(&str, Make)] = &[
    ("flowchart", flowchart), ("sequence", sequence), ("pie", pie), ("gantt", gantt), ("journey", journey), ("class", class),
    ("state", state), ("er", er), ("mindmap", mindmap), ("timeline", timeline), ("quadrant", quadrant), ("git", git),
];
fn saved(slides: &[SlideContent]) -> Res {
    let b = deck_p::e(create_pptx_with_content("t", slides.to_vec()).map_err(|x| x.to_string()))?;
    let p = deck_p::e(Pkg::read(&b))?;
    check_all(&p)?;
    let paths = deck_p::e(p.slide_paths())?;
    for (path, s) in paths.iter().zip(slides) {
        let t = deck_p::e(deck_p::tree(&p, path))?;
        let id = |el: &crate::xml::El| el.find("cNvPr").and_then(|c| c.attr("id")).unwrap_or("").to_string();
        ensure!(t.cxns.len() == s.connectors.len(), "{} connectors saved of {}", t.cxns.len(), s.connectors.len());
        for (k, el) in s.connectors.iter().zip(&t.cxns) {
            for (tag, want) in [("stCxn", k.start_shape_id), ("endCxn", k.end_shape_id)] {
                let got = el.find(tag).and_then(|x| x.attr("id")).unwrap_or("").to_string();
                let text = |i: &str| t.sps.iter().filter(|s| id(s) == i).map(deck_p::sp_text).collect::<Vec<_>>();
                let sh: Vec<String> = s.shapes.iter().filter(|s| s.id == want).map(shape_text).collect();
                let saved = text(&got);
                ensure!(saved.len() == 1 && sh.len() == 1 && deck_p::norm(&saved[0]) == deck_p::norm(&sh[0]), "saved {tag} leads to {saved:?}, expected {sh:?}");
            }
        }
    }
    Ok(())
}
fn fence(code: &str) -> String {
    format!("```mermaid\n{code}\n```\n")
}
fn diagram(c: &mut Ctx) -> Res {
    let (name, make) = *c.s.pick(KINDS);
    c.label(name);
    let (code, w) = make(&mut c.s);
    let titled = c.s.chance(80);
    let md = if titled { format!("# Top\n\n{}", fence(&code)) } else { fence(&code) };
    c.note(|| md.clone());
    c.nontrivial(w.texts.len() > 1);
    let v = guard(|| parse_markdown(&md))??;
    ensure!(v.len() == 1, "{} slides", v.len());
    if titled {
        ensure!(v[0].title == "Top", "the title is {:?}", v[0].title);
    }
    let (sh, cn): (Vec<&Shape>, Vec<&Connector>) = (v[0].shapes.iter().collect(), v[0].connectors.iter().collect());
    check(&sh, &cn, &w)?;
    let again = guard(|| parse_markdown(&md))??;
    ensure!(format!("{:?}{:?}", again[0].shapes, again[0].connectors) == format!("{:?}{:?}", v[0].shapes, v[0].connectors), "a second conversion gives another slide");
    if c.s.chance(30) {
        saved(&v)?;
    }
    Ok(())
}
/// Several diagrams, with a list and code between them.
fn several(c: &mut Ctx) -> Res {
    let n = c.s.len(2, 4);
    let mut md = String::from("# Top\n\n");
    let mut parts = vec![];
    let mut slide = 0;
    for i in 0..n {
        let (_, make) = *c.s.pick(KINDS);
        let (code, w) = make(&mut c.s);
        if i > 0 && c.s.chance(30) {
            md += "# Next\n\n";
            slide += 1;
        }
        if c.s.chance(30) {
            md += "- point\n\n";
        }
        if c.s.chance(20) {
            md += "```rust\nfn f() {}\n```\n\n";
        }
        md += &fence(&code);
        md += "\n";
        parts.push((slide, w));
    }
    c.note(|| md.clone());
    c.nontrivial(true);
    let v = guard(|| parse_markdown(&md))??;
    ensure!(v.len() == slide + 1, "{} slides, expected {}", v.len(), slide + 1);
    for (i, s) in v.iter().enumerate() {
        let mut texts: BTreeMap<String, usize> = BTreeMap::new();
        let mut edges = vec![];
        for (_, w) in parts.iter().filter(|p| p.0 == i) {
            for (t, n) in &w.texts {
                *texts.entry(t.clone()).or_default() += n;
            }
            edges.extend(w.edges.clone());
        }
        let mut got: BTreeMap<String, usize> = BTreeMap::new();
        for sh in &s.shapes {
            let t = shape_text(sh);
            if !t.is_empty() {
                *got.entry(t).or_default() += 1;
            }
        }
        ensure!(got == texts, "texts on slide {i} are {got:?}, expected {texts:?}");
        ensure!(s.connectors.len() == edges.len(), "slide {i} has {} connectors for {} arrows", s.connectors.len(), edges.len());
        for (k, (a, b)) in s.connectors.iter().zip(&edges) {
            for (id, t) in [(k.start_shape_id, a), (k.end_shape_id, b)] {
                let at: Vec<String> = s.shapes.iter().filter(|x| x.id.is_some() && x.id == id).map(shape_text).collect();
                ensure!(at == [t.clone()], "slide {i}: a connector leads to {at:?}, expected {t:?}");
            }
        }
    }
    saved(&v)
}
/// Anything in a diagram fence gives slides and no crash.
fn noise(c: &mut Ctx) -> Res {
    let (_, make) = *c.s.pick(KINDS);
    let (code, _) = make(&mut c.s);
    let mut t: Vec<char> = code.chars().collect();
    for _ in 0..c.s.len(1, 6) {
        let i = c.s.usize(t.len() + 1);
        match c.s.below(3) {
            0 if i < t.len() => {
                let j = (i + c.s.len(1, 8)).min(t.len());
                t.drain(i..j);
            }
            1 => {
                let x = c.s.pick(&["-->", "|", "[", "]", "((", "))", "{", "}", ":", "\"", "\n", "||--o{", "->>", "é", "[0.5, -3]", "commit id:", "section", "end", "subgraph", "[1e30, 7]", "-", "--", "title"]).to_string();
                t.splice(i..i, x.chars());
            }
            _ => {
                let x = gen::hostile(&mut c.s).replace('`', "");
                t.splice(i..i, x.chars());
            }
        }
    }
    let md = fence(&t.into_iter().collect::<String>());
    c.note(|| md.clone());
    c.nontrivial(true);
    let v = guard(|| parse_markdown(&md))?;
    if let Ok(v) = v {
        if !v.is_empty() {
            saved(&v)?;
        }
    }
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "a diagram with more than one text",
        assumptions: &[
            "the syntax is the common part of each diagram type; what the library does not know (notes, loops, nested states; flowchart forms of the recorded finding) is not generated",
            "titles of pie, journey and quadrant diagrams are not shown by design",
        ],
        subs: vec![Sub { name: "diagram", quick: 20000, run: diagram }, Sub { name: "several", quick: 1500, run: several }, Sub { name: "noise", quick: 3000, run: noise }],
        probes: vec![Probe { key: "flowchart-forms", run: probe }],
    }
}
/// Forms of flowchart statements whose texts must be shown.
fn probe() -> Res {
    let cases: &[(&str, &[&str], usize)] = &[
        ("A[One] -- yes --> B[Two]", &["One", "Two", "yes"], 1),
        ("A[One]; B[Two]", &["One", "Two"], 0),
        ("A[One] & B[Two] --> C[Three]", &["One", "Three", "Two"], 2),
        ("A[(Data)]", &["Data"], 0),
        ("A[One] ----> B[Two]", &["One", "Two"], 1),
        ("A:::red --> B[Two]", &["A", "Two"], 1),
        ("A[One] --x B[Two]", &["One", "Two"], 1),
        ("subgraph one [Title]\nA[One]\nend", &["One", "Title"], 0),
    ];
    for (l, want, edges) in cases {
        let v = parse_markdown(&format!("# T\n\n```mermaid\nflowchart TD\n{l}\n```\n")).map_err(|m| Fail { msg: m })?;
        let mut t: Vec<String> = v.iter().flat_map(|s| s.shapes.iter().filter_map(|x| x.text.clone())).filter(|x| !x.is_empty()).collect();
        t.sort();
        let n: usize = v.iter().map(|s| s.connectors.len()).sum();
        ensure!(t == *want && n == *edges, "{l}: texts {t:?} and {n} connectors, expected {want:?} and {edges}");
    }
    Ok(())
}

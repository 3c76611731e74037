//! C26: script source recovered from compiled scripts.
use crate::engine::*;
use crate::layout::*;
use ringhopper::tag::scenario::decompile_scripts;
use ringhopper_primitives::dynamic::DynamicEnumImpl;
use ringhopper_primitives::primitive::*;
use ringhopper_structs::*;

// ------------------------------------------------------------------ programs
#[derive(Clone, Debug, PartialEq)]
pub enum T { L(Vec<T>), B(bool), R(u32), I(i64), S(String), /// a literal that has no spelling
    Nothing }
fn types() -> &'static [OptDef] { let l = layout(); &l.enums.iter().find(|e| e.name == "ScenarioScriptValueType").unwrap().options }
fn kinds() -> &'static [OptDef] { let l = layout(); &l.enums.iter().find(|e| e.name == "ScenarioScriptType").unwrap().options }
fn text(s: &mut Src) -> String {
    match s.below(10) {
        0 => String::new(),
        1 => { let n = s.usize(1, 12); (0..n).map(|_| *s.pick(&['a', 'b', ' ', '(', ')', ';', '\t', '\n', '*', '\\', '\r', '/', 'é', '1', '-', '\''])).collect() }
        2 => format!("levels\\{}\\{}", s.ascii_ident(1, 6), s.ascii_ident(1, 6)),
        3 => s.pick(&["script", "global", "begin", "true", "none", "(", ")", ";*", "*;", ";", " ", "1.5", "static", "a;b", "x y"]).to_string(),
        _ => s.ascii_ident(1, 10)
    }
}
/// node types that are literals with a value, and the others
fn leaf(s: &mut Src, out: &mut Vec<Node>) -> usize {
    let junk = s.u32();
    let (ty, flags, data, t) = match s.below(8) {
        0 => { let b = s.bool(); let low = if b { *s.pick(&[1u32, 1, 0xFF, 0x80]) } else { 0 }; (5, 1, low | (junk & 0xFFFFFF00), T::B(b)) }
        1 => { let x = s.f32_bits(false); let x = if f32::from_bits(x).is_finite() { x } else { 0x3F800000 }; (6, 1, x, T::R(x)) }
        2 => { let x = *s.pick(&[0i16, 1, -1, i16::MAX, i16::MIN, 30, -300]); (7, 1, x as u16 as u32 | junk & 0xFFFF0000, T::I(x as i64)) }
        3 => { let x = s.u32_edge() as i32; (8, 1, x as u32, T::I(x as i64)) }
        4 => { let ty = *s.pick(&[5u16, 6, 7, 8, 9, 37]); (ty, 1 | if s.bool() { 4 } else { 16 }, junk, T::S(s.ascii_ident(1, 12))) }
        5 => (9, 1, junk, T::S(text(s))),
        _ => { let k = s.below(types().len() as u64 - 9) as u16 + 9; (k, 1, junk, T::S(text(s))) }
    };
    out.push(Node { ty, flags: flags | if s.bool() { 8 } else { 0 }, data, next: None, child: None, text: match &t { T::S(x) => Some(x.clone()), _ => None }, t });
    out.len() - 1
}
pub struct Node { ty: u16, flags: u16, data: u32, next: Option<usize>, child: Option<usize>, text: Option<String>, t: T }
fn call(s: &mut Src, out: &mut Vec<Node>, depth: usize, budget: &mut i64, head: Option<&str>) -> usize {
    let name = head.map(|h| h.to_string()).unwrap_or_else(|| match s.below(6) { 0 => "begin".into(), 1 => "if".into(), 2 => "set".into(), 3 => "==".into(), _ => s.ascii_ident(1, 10) });
    out.push(Node { ty: 2, flags: 1, data: s.u32(), next: None, child: None, text: Some(name.clone()), t: T::S(name.clone()) });
    let first = out.len() - 1;
    let mut parts = vec![T::S(name)];
    let mut last = first;
    let n = s.below(5);
    for _ in 0..n { *budget -= 1; if *budget <= 0 { break } let c = expr(s, out, depth + 1, budget); out[last].next = Some(c); parts.push(out[c].t.clone()); last = c; }
    let ty = s.below(types().len() as u64) as u16;
    out.push(Node { ty, flags: if s.chance(1, 4) { 2 } else { 0 }, data: 0, next: None, child: Some(first), text: if s.bool() { Some(String::new()) } else { None }, t: T::L(parts) });
    out.len() - 1
}
fn expr(s: &mut Src, out: &mut Vec<Node>, depth: usize, budget: &mut i64) -> usize { if depth < 8 && s.bool() { call(s, out, depth, budget, None) } else { leaf(s, out) } }

#[derive(Clone, Debug, PartialEq)]
struct Global { name: String, ty: u16, init: Vec<T> }
#[derive(Clone, Debug, PartialEq)]
struct Script { name: String, kind: u16, ret: u16, params: Vec<(String, u16)>, body: Vec<T> }
pub struct Program { pub scenario: Scenario, globals: Vec<Global>, scripts: Vec<Script>, pub nodes: usize }
fn body(t: &T) -> Vec<T> { match t { T::L(x) if x.first() == Some(&T::S("begin".into())) => x[1..].to_vec(), x => vec![x.clone()] } }
fn ident(s: &mut Src, n: usize) -> String { format!("{}{}{n}", s.ascii_ident(1, 8), s.pick(&["", "_", "-", "?"])) }
fn type_of(n: u16) -> ScenarioScriptValueType { ScenarioScriptValueType::from_str(&types()[n as usize].matcher).expect("type name") }

pub fn program(s: &mut Src, budget: i64) -> Program {
    let mut b = budget;
    let mut nodes: Vec<Node> = vec![];
    let (mut globals, mut scripts, mut roots) = (vec![], vec![], vec![]);
    let (ng, ns) = (s.usize(0, 3), s.usize(0, 4));
    for k in 0..ng { let r = expr(s, &mut nodes, 1, &mut b); roots.push(r); globals.push(Global { name: ident(s, k), ty: s.range(4, types().len() as u64 - 1) as u16, init: vec![nodes[r].t.clone()] }); b = budget }
    for k in 0..ns {
        let r = match s.below(6) { 0 => expr(s, &mut nodes, 0, &mut b), 1 => call(s, &mut nodes, 0, &mut b, None), _ => call(s, &mut nodes, 0, &mut b, Some("begin")) };
        b = budget;
        roots.push(r);
        let np = if s.chance(1, 5) { s.usize(1, 3) } else { 0 };
        scripts.push(Script { name: ident(s, k), kind: s.below(kinds().len() as u64) as u16, ret: s.range(4, types().len() as u64 - 1) as u16, params: (0..np).map(|i| (ident(s, i), s.range(4, types().len() as u64 - 1) as u16)).collect(), body: body(&nodes[r].t) });
    }
    let (bytes, strings, place) = layout_nodes(s, &nodes);
    let mut sc = Scenario::default();
    sc.script_syntax_data = Data::new(bytes);
    sc.script_string_data = Data::new(strings);
    let id = |p: usize| ID::new(Some(place[p] as u16), (p as u16).wrapping_mul(77));
    for (g, r) in globals.iter().zip(&roots) { sc.globals.items.push(ScenarioGlobal { name: String32::from_str(&g.name).unwrap(), _type: type_of(g.ty), initialization_expression_index: id(*r), ..Default::default() }) }
    for (g, r) in scripts.iter().zip(&roots[ng..]) {
        let mut x = ScenarioScript { name: String32::from_str(&g.name).unwrap(), script_type: ScenarioScriptType::from_str(&kinds()[g.kind as usize].matcher).expect("script type"), return_type: type_of(g.ret), root_expression_index: id(*r), ..Default::default() };
        for (n, t) in &g.params { x.parameters.items.push(ScenarioScriptParameter { name: String32::from_str(n).unwrap(), return_type: type_of(*t), ..Default::default() }) }
        sc.scripts.items.push(x);
    }
    Program { scenario: sc, globals, scripts, nodes: nodes.len() }
}
/// Spread nodes over a node table (as a tag stores it), with unused nodes between them.
fn layout_nodes(s: &mut Src, nodes: &[Node]) -> (Vec<u8>, Vec<u8>, Vec<usize>) {
    let n = nodes.len();
    let extra = s.usize(0, 6);
    let place: Vec<usize> = if n > 2000 { (0..n).map(|i| n - 1 - i).collect() } else { s.permutation(n + extra)[..n].to_vec() };
    let count = n + extra;
    let max = count + *s.pick(&[0usize, 0, 1, 7, 30]);
    let mut strings = if s.bool() { vec![0u8] } else { vec![] };
    let mut b = vec![0u8; 56 + max * 20];
    b[..12].copy_from_slice(b"script node\0");
    let w16 = |b: &mut [u8], o: usize, x: u16| b[o..o + 2].copy_from_slice(&x.to_be_bytes());
    let w32 = |b: &mut [u8], o: usize, x: u32| b[o..o + 4].copy_from_slice(&x.to_be_bytes());
    w16(&mut b, 32, max as u16); w16(&mut b, 34, 20); b[36] = 1; w16(&mut b, 46, count as u16); w16(&mut b, 48, count as u16);
    if max > count && s.bool() { let k = s.usize(56 + count * 20, b.len() - 1); b[k] = 0xCA }
    let id = |p: Option<usize>| p.map(|p| (place[p] as u32) | 0xE000_0000 | ((place[p] as u32 & 0xFFF) << 16)).unwrap_or(u32::MAX);
    for (i, x) in nodes.iter().enumerate() {
        let o = 56 + place[i] * 20;
        w16(&mut b, o, s.u16()); w16(&mut b, o + 2, x.ty); w16(&mut b, o + 4, x.ty); w16(&mut b, o + 6, x.flags);
        w32(&mut b, o + 8, id(x.next));
        let at = match &x.text {
            Some(t) => { let at = strings.len(); strings.extend(t.as_bytes()); strings.push(0); at as u32 }
            None => *s.pick(&[0u32, 5, 0xFFFF_FFFF, 0x7FFF_FFFF])
        };
        w32(&mut b, o + 12, at);
        w32(&mut b, o + 16, if x.child.is_some() { id(x.child) } else { x.data });
    }
    (b, strings, place)
}

// ------------------------------------------------------------------ reading source
#[derive(Clone, Debug, PartialEq)]
pub enum P { L(Vec<P>), A(String) }
pub fn parse(src: &str) -> Result<Vec<P>, String> {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut stack: Vec<Vec<P>> = vec![vec![]];
    while i < c.len() {
        if c[i].is_whitespace() { i += 1; continue }
        if c[i] == ';' {
            if c.get(i + 1) == Some(&'*') { i += 2; while !(c.get(i) == Some(&'*') && c.get(i + 1) == Some(&';')) { if i >= c.len() { return Err("comment never ends".into()) } i += 1 } i += 2; }
            else { while i < c.len() && c[i] != '\n' { i += 1 } }
            continue
        }
        match c[i] {
            '(' => { stack.push(vec![]); i += 1 }
            ')' => { let x = stack.pop().unwrap(); let Some(y) = stack.last_mut() else { return Err("too many closing parentheses".into()) }; y.push(P::L(x)); i += 1 }
            '"' => { let s = i + 1; i = s; while i < c.len() && c[i] != '"' { i += 1 } if i >= c.len() { return Err("text never ends".into()) } stack.last_mut().unwrap().push(P::A(c[s..i].iter().collect())); i += 1 }
            _ => { let s = i; while i < c.len() && !c[i].is_whitespace() && !matches!(c[i], '(' | ')' | ';') { i += 1 } stack.last_mut().unwrap().push(P::A(c[s..i].iter().collect())) }
        }
    }
    if stack.len() != 1 { return Err("missing closing parenthesis".into()) }
    Ok(stack.pop().unwrap())
}
fn same(t: &T, p: &P) -> bool {
    match (t, p) {
        (T::L(a), P::L(b)) => same_all(a, b),
        (T::B(x), P::A(a)) => a == if *x { "true" } else { "false" },
        (T::R(x), P::A(a)) => a.parse::<f32>().is_ok_and(|f| f.to_bits() == *x),
        (T::I(x), P::A(a)) => a.parse::<i64>().is_ok_and(|f| f == *x),
        (T::S(x), P::A(a)) => x == a,
        _ => false
    }
}
fn same_all(a: &[T], b: &[P]) -> bool { let a: Vec<&T> = a.iter().filter(|x| **x != T::Nothing).collect(); a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)) }
/// the source says what the program says
fn compare(globals: &[Global], scripts: &[Script], src: &[P]) -> R {
    ensure_eq!(src.len(), globals.len() + scripts.len(), "wrong number of globals and scripts in the source", "");
    let word = |p: Option<&P>| match p { Some(P::A(a)) => a.clone(), x => format!("{x:?}") };
    for (k, p) in src.iter().enumerate() {
        let P::L(p) = p else { fail!("stray word in the source", "{p:?}") };
        if let Some(g) = globals.get(k) {
            ensure!(word(p.first()) == "global", "globals and scripts out of order", "#{k} {:?}", p.first());
            ensure_eq!(word(p.get(1)), types()[g.ty as usize].matcher, "type of a global changed", "{}", g.name);
            ensure_eq!(word(p.get(2)), g.name, "name of a global changed", "#{k}");
            ensure!(same_all(&g.init, &p[3..]), "value of a global changed", "{}: {:?} as {:?}", g.name, g.init, &p[3..]);
        } else {
            let x = &scripts[k - globals.len()];
            ensure!(word(p.first()) == "script", "globals and scripts out of order", "#{k} {:?}", p.first());
            ensure_eq!(word(p.get(1)), kinds()[x.kind as usize].matcher, "type of a script changed", "{}", x.name);
            let mut i = 2;
            if x.kind >= 3 { ensure_eq!(word(p.get(2)), types()[x.ret as usize].matcher, "return type of a script changed", "{}", x.name); i = 3 }
            if x.params.is_empty() { ensure_eq!(word(p.get(i)), x.name, "name of a script changed", "#{k}") }
            else {
                let want: Vec<P> = std::iter::once(P::A(x.name.clone())).chain(x.params.iter().map(|(n, t)| P::L(vec![P::A(types()[*t as usize].matcher.clone()), P::A(n.clone())]))).collect();
                ensure!(p.get(i) == Some(&P::L(want.clone())), "name or parameters of a script changed", "{:?} as {:?}", want, p.get(i));
            }
            ensure!(same_all(&x.body, p.get(i + 1..).unwrap_or(&[])), "expressions of a script changed", "{}: {:?} as {:?}", x.name, x.body, p.get(i + 1..));
        }
    }
    Ok(())
}
fn check_sources(sc: &Scenario, name: &str, globals: &[Global], scripts: &[Script]) -> Result<usize, Fail> {
    let files = &sc.source_files.items;
    let mut all = vec![];
    let mut names = std::collections::BTreeSet::new();
    for f in files {
        let Ok(t) = std::str::from_utf8(&f.source.bytes) else { fail!("source is not text", "{}", f.name) };
        match parse(t) { Ok(p) => { ensure!(!p.is_empty(), "empty source file", "{}", f.name); all.extend(p) } Err(e) => fail!("source cannot be parsed", "{}: {e}: {}", f.name, &t.chars().take(1500).collect::<String>()) }
        let n = f.name.as_str().to_string();
        let stem = n.rfind('-').map_or("", |i| &n[..i]);
        ensure!(!n.is_empty() && (files.len() > 1 || n == name), "source file named wrongly", "{n} for {name}");
        ensure!(files.len() == 1 || !stem.is_empty() && name.starts_with(stem) && n == format!("{stem}-{}", names.len() + 1), "source file named wrongly", "{n} for {name}");
        ensure!(names.insert(n.clone()), "two source files of the same name", "{n}");
    }
    compare(globals, scripts, &all)?;
    Ok(files.len())
}
fn scenario_name(s: &mut Src) -> String { match s.below(6) { 0 => long_name(s), 1 => "é".repeat(s.usize(12, 15)), _ => s.ascii_ident(1, 12) } }
/// up to the longest name a source file can have, of characters of any length
fn long_name(s: &mut Src) -> String {
    let n = s.usize(26, 31);
    let mut x = String::new();
    loop { let c = if s.chance(3, 4) { 'a' } else { *s.pick(&['é', '語', '😀']) }; if x.len() + c.len_utf8() > n { return x } x.push(c) }
}

fn c26_programs(s: &mut Src, ctx: &mut Ctx) -> R {
    let budget = *s.pick(&[12i64, 40, 3, 150]);
    let mut p = program(s, budget);
    let name = scenario_name(s);
    if s.bool() { p.scenario.source_files.items.push(ScenarioSourceFile { name: String32::from_str("old").unwrap(), source: Data::new(b"(script startup old)".to_vec()) }) }
    let before = p.scenario.clone();
    if s.chance(1, 8) { return duplicates(s, ctx, p, &name) }
    if let Err(e) = decompile_scripts(&mut p.scenario, &name) { fail!("compiled scripts refused", "{e}: {:?} {:?}", p.globals, p.scripts) }
    if p.globals.is_empty() && p.scripts.is_empty() { ensure!(p.scenario == before, "a scenario without scripts changed", ""); return Ok(()) }
    ensure!(!p.scenario.source_files.items.is_empty(), "no source written", "");
    check_sources(&p.scenario, &name, &p.globals, &p.scripts)?;
    let mut rest = p.scenario.clone();
    rest.source_files = before.source_files.clone();
    ensure!(rest == before, "something other than the source changed", "");
    let once = p.scenario.clone();
    decompile_scripts(&mut p.scenario, &name).map_err(|e| Fail::new("compiled scripts refused the second time", e.to_string()))?;
    ensure!(p.scenario == once, "second time gives other source", "");
    ctx.label(if p.nodes > 60 { "more than 60 nodes" } else { "up to 60 nodes" });
    ctx.nontrivial_b(&p.scenario.source_files.items[0].source.bytes);
    ctx.sample(|| String::from_utf8_lossy(&p.scenario.source_files.items[0].source.bytes).lines().skip(8).collect::<Vec<_>>().join(" ").chars().take(300).collect());
    Ok(())
}
fn duplicates(s: &mut Src, ctx: &mut Ctx, mut p: Program, name: &str) -> R {
    let sc = &mut p.scenario;
    let (a, b) = (sc.globals.items.len(), sc.scripts.items.len());
    if s.bool() && a > 0 { let k = s.usize(0, a - 1); let x = sc.globals.items[k].clone(); let at = s.usize(0, a); sc.globals.items.insert(at, x) }
    else if b > 0 { let k = s.usize(0, b - 1); let x = sc.scripts.items[k].clone(); let at = s.usize(0, b); sc.scripts.items.insert(at, x) }
    else { return Ok(()) }
    let before = sc.clone();
    ensure!(decompile_scripts(sc, name).is_err(), "duplicate script or global accepted", "");
    ensure!(*sc == before, "refused scenario was changed", "");
    ctx.label("duplicate names"); ctx.nontrivial_s(&format!("dup{:?}{:?}", p.globals, p.scripts));
    Ok(())
}

// ------------------------------------------------------------------ corrupt data
enum Verdict { Fine(Vec<Global>, Vec<Script>), Bad(&'static str), Open }
/// What the node table means, read independently.
fn meaning(sc: &Scenario) -> Verdict {
    let d = &sc.script_syntax_data.bytes;
    let g16 = |o: usize| u16::from_be_bytes([d[o], d[o + 1]]);
    let g32 = |o: usize| u32::from_be_bytes([d[o], d[o + 1], d[o + 2], d[o + 3]]);
    for (i, x) in sc.scripts.items.iter().enumerate() { if sc.scripts.items[..i].iter().any(|y| y.name == x.name) { return Verdict::Bad("duplicate") } }
    for (i, x) in sc.globals.items.iter().enumerate() { if sc.globals.items[..i].iter().any(|y| y.name == x.name) { return Verdict::Bad("duplicate") } }
    if d.len() < 56 { return Verdict::Bad("table cut off") }
    let (max, size, count) = (g16(32) as usize, g16(34), g16(46) as usize);
    if size != 20 { return Verdict::Bad("wrong node size") }
    if count > max || d.len() != 56 + max * 20 { return Verdict::Bad("wrong table size") }
    struct W<'a> { d: &'a [u8], strings: &'a [u8], count: usize, visits: usize, open: bool, on_path: Vec<bool> }
    impl W<'_> {
        fn g32(&self, o: usize) -> u32 { u32::from_be_bytes(self.d[o..o + 4].try_into().unwrap()) }
        fn str(&mut self, o: usize) -> Result<String, &'static str> {
            let at = self.g32(o + 12) as usize;
            if at >= self.strings.len() { return Err("text outside the data") }
            let Some(n) = self.strings[at..].iter().position(|b| *b == 0) else { return Err("text not terminated") };
            match std::str::from_utf8(&self.strings[at..at + n]) { Ok(t) if !t.contains('"') && !t.contains('\u{FFFD}') => Ok(t.to_string()), _ => { self.open = true; Ok(String::new()) } }
        }
        fn block(&mut self, id: u32, depth: usize) -> Result<Vec<T>, &'static str> {
            if id == u32::MAX { return Err("missing node") }
            let mut out = vec![];
            let mut id = id;
            let mut here = vec![];
            if depth > 200 { self.open = true; return Ok(out) }
            while id != u32::MAX {
                let i = (id & 0xFFFF) as usize;
                if i >= self.count { return Err("node outside the table") }
                if self.on_path[i] { return Err("cycle") }
                self.visits += 1;
                if self.visits > 5000 { self.open = true; return Ok(out) }
                self.on_path[i] = true; here.push(i);
                let o = 56 + i * 20;
                let ty = u16::from_be_bytes([self.d[o + 4], self.d[o + 5]]);
                let ty = if ty as usize >= types().len() { 0 } else { ty };
                let fl = u16::from_be_bytes([self.d[o + 6], self.d[o + 7]]);
                let data = self.g32(o + 16);
                out.push(if fl & 1 == 0 { let x = self.block(data, depth + 1)?; /* a call of something that is not a name means nothing */ if !matches!(x.first(), Some(T::S(_))) { self.open = true } T::L(x) }
                    else if fl & 20 != 0 { T::S(self.str(o)?) }
                    else { match ty { 4 => T::Nothing, 5 => T::B(data & 0xFF != 0), 6 => { if f32::from_bits(data).is_nan() { self.open = true } T::R(data) } 7 => T::I(data as u16 as i16 as i64), 8 => T::I(data as i32 as i64), _ => T::S(self.str(o)?) } });
                id = self.g32(o + 8);
            }
            for i in here { self.on_path[i] = false }
            Ok(out)
        }
    }
    let _ = g32;
    let (mut gs, mut ss, mut open, mut bad) = (vec![], vec![], false, None);
    let mut walk = |id: ID| -> Vec<T> { let mut w = W { d, strings: &sc.script_string_data.bytes, count, visits: 0, open: false, on_path: vec![false; count] }; let r = w.block(id.as_u32(), 0); open |= w.open || w.visits > count; match r { Ok(t) => t, Err(e) => { bad = Some(e); vec![] } } };
    for g in &sc.globals.items { let t = walk(g.initialization_expression_index); gs.push(Global { name: g.name.as_str().into(), ty: g._type as u16, init: t }) }
    for g in &sc.scripts.items {
        let t = walk(g.root_expression_index);
        // the outermost begin of each root expression is implied
        let b: Vec<T> = t.iter().flat_map(body).collect();
        ss.push(Script { name: g.name.as_str().into(), kind: g.script_type as u16, ret: g.return_type as u16, params: g.parameters.items.iter().map(|p| (p.name.as_str().to_string(), p.return_type as u16)).collect(), body: b });
    }
    // a head that is a literal needs its text too, which the meaning does not
    match bad { Some(e) => Verdict::Bad(e), None if open => Verdict::Open, None => Verdict::Fine(gs, ss) }
}
fn c26_corrupt(s: &mut Src, ctx: &mut Ctx) -> R {
    let budget = *s.pick(&[12i64, 30, 60]);
    let mut p = program(s, budget);
    let name = scenario_name(s);
    let n = p.nodes.max(1);
    let times = s.usize(1, 3);
    for _ in 0..times {
        let places = p.scenario.script_syntax_data.bytes.len().saturating_sub(56) / 20;
        let d = &mut p.scenario.script_syntax_data.bytes;
        let strings = &mut p.scenario.script_string_data.bytes;
        let mut node = |s: &mut Src| 56 + 20 * s.usize(0, places.saturating_sub(1));
        let id = |s: &mut Src| match s.below(5) { 0 => u32::MAX, 1 => 0xFFFF_0000 | s.u16() as u32, 2 => 0xE000_0000 | places as u32, _ => 0xE000_0000 | s.below(n as u64 + 6) as u32 };
        if d.len() < 76 { break }
        match s.below(12) {
            0 => { let k = *s.pick(&[32usize, 33, 34, 35, 46, 47]); d[k] = d[k].wrapping_add(*s.pick(&[1u8, 255, 128, 3])) }
            1 => { let k = s.usize(0, d.len()); d.truncate(k) }
            2 => { let k = s.usize(1, 30); d.extend(vec![0; k]) }
            3 | 4 => { let o = node(s); let x = id(s); d[o + 8..o + 12].copy_from_slice(&x.to_be_bytes()) }
            5 | 6 => { let o = node(s); let x = id(s); d[o + 16..o + 20].copy_from_slice(&x.to_be_bytes()) }
            7 => { let o = node(s); d[o + 7] ^= *s.pick(&[1u8, 4, 16, 2, 8]) }
            8 => { let o = node(s); d[o + 5] = s.u8() % 60; d[o + 4] = if s.chance(1, 5) { 1 } else { 0 } }
            9 => { let o = node(s); let x = match s.below(3) { 0 => strings.len() as u32, 1 => s.u32(), _ => s.below(strings.len() as u64 + 1) as u32 }; d[o + 12..o + 16].copy_from_slice(&x.to_be_bytes()) }
            10 => match s.below(3) { 0 => { strings.pop(); } 1 => { let k = s.usize(0, strings.len()); strings.truncate(k) } _ => for b in strings.iter_mut() { if *b == 0 && s.bool() { *b = b'x' } } },
            _ => { let x = id(s); let x: ID = ScenarioScriptNodeValue { data: x }.into(); let m = p.scenario.scripts.items.len() + p.scenario.globals.items.len(); if m > 0 { let k = s.usize(0, m - 1); if let Some(g) = p.scenario.globals.items.get_mut(k) { g.initialization_expression_index = x } else { let k = k - p.scenario.globals.items.len(); p.scenario.scripts.items[k].root_expression_index = x } } }
        }
    }
    let before = p.scenario.clone();
    let r = decompile_scripts(&mut p.scenario, &name);
    let verdict = meaning(&before);
    let empty = before.scripts.items.is_empty() && before.globals.items.is_empty();
    match (&r, &verdict) {
        (Ok(()), Verdict::Bad(e)) => { ensure!(empty && *e != "duplicate", format!("corrupt scripts accepted: {e}"), "{:?}", before.scripts.items.iter().map(|x| x.name).collect::<Vec<_>>()) }
        (Err(e), Verdict::Fine(..)) => { // the name of a called function may be missing where it is a literal
            ensure!(e.to_string().contains("String data offset"), "sound scripts refused", "{e}") }
        (Ok(()), Verdict::Fine(g, x)) => { if !empty { check_sources(&p.scenario, &name, g, x)?; } }
        _ => ()
    }
    if r.is_err() { ensure!(p.scenario == before, "refused scenario was changed", "") }
    ctx.label(match (&r, &verdict) { (Err(_), Verdict::Bad(e)) => e, (_, Verdict::Open) => "undecided", (_, Verdict::Fine(..)) => "still sound", _ => "no scripts" });
    ctx.nontrivial_b(&before.script_syntax_data.bytes);
    ctx.sample(|| format!("{} nodes, {} scripts: {}", n, before.scripts.items.len(), match &verdict { Verdict::Bad(e) => e, Verdict::Open => "undecided", _ => "sound" }));
    Ok(())
}
/// Scripts that are long, deep, or use nodes more than once.
fn c26_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.below(5);
    let mut nodes: Vec<Node> = vec![];
    let head = |nodes: &mut Vec<Node>, t: &str| { nodes.push(Node { ty: 2, flags: 1, data: 0, next: None, child: None, text: Some(t.into()), t: T::S(t.into()) }); nodes.len() - 1 };
    let wrap = |nodes: &mut Vec<Node>, first: usize, parts: Vec<T>| { nodes.push(Node { ty: 4, flags: 0, data: 0, next: None, child: Some(first), text: None, t: T::L(parts) }); nodes.len() - 1 };
    let (mut roots, mut scripts) = (vec![], vec![]);
    let mut fine = true;
    match kind {
        0 | 1 => { // many scripts, several source files
            let n = s.usize(20, 60);
            // sometimes enough text for ten files and more
            let much = s.chance(1, 8);
            let each = if much { s.usize(800, 1500) } else { s.usize(100, 600) };
            let long = if much { "longer".repeat(s.usize(15, 35)) } else { s.ascii_ident(20, 31) };
            for k in 0..n {
                let first = head(&mut nodes, "begin");
                let (mut last, mut parts) = (first, vec![]);
                for j in 0..each { let t = format!("{long}{}", (j * k) % 97); nodes.push(Node { ty: 9, flags: 1, data: 0, next: None, child: None, text: Some(t.clone()), t: T::S(t) }); let c = nodes.len() - 1; nodes[last].next = Some(c); parts.push(nodes[c].t.clone()); last = c; }
                roots.push(wrap(&mut nodes, first, vec![]));
                scripts.push(Script { name: format!("s{k}"), kind: 0, ret: 4, params: vec![], body: parts });
                if nodes.len() > 60000 { break }
            }
        }
        2 => { // nested deeply
            let d = *s.pick(&[50usize, 200, 500, 2000, 20000, 60000]);
            fine = d <= 500;
            nodes.push(Node { ty: 7, flags: 1, data: 7, next: None, child: None, text: None, t: T::I(7) });
            let mut inner = 0; let mut t = T::I(7);
            for _ in 0..d.min(32000) { let h = head(&mut nodes, "not"); nodes[h].next = Some(inner); if fine { t = T::L(vec![T::S("not".into()), t]) } inner = wrap(&mut nodes, h, vec![]) }
            roots.push(inner); scripts.push(Script { name: "deep".into(), kind: 0, ret: 4, params: vec![], body: vec![t] });
        }
        _ => { // every call contains the next one twice
            fine = false;
            let d = s.usize(20, 60);
            nodes.push(Node { ty: 7, flags: 1, data: 7, next: None, child: None, text: None, t: T::I(7) });
            let mut inner = 0;
            for _ in 0..d { let h = head(&mut nodes, "+"); nodes.push(Node { ty: 4, flags: 0, data: 0, next: None, child: Some(h), text: None, t: T::Nothing }); let b = nodes.len() - 1; nodes.push(Node { ty: 4, flags: 0, data: 0, next: Some(b), child: Some(inner.max(1) - 1), text: None, t: T::Nothing }); let a = nodes.len() - 1; nodes[h].next = None; let _ = a; let f = head(&mut nodes, "*"); nodes[f].next = Some(a); nodes[b].child = Some(inner); nodes[a].child = Some(inner); inner = wrap(&mut nodes, f, vec![]); if nodes[a].child == Some(0) { nodes[a].flags = 1; nodes[b].flags = 1; nodes[a].ty = 7; nodes[b].ty = 7; nodes[a].child = None; nodes[b].child = None; } }
            roots.push(inner); scripts.push(Script { name: "twice".into(), kind: 0, ret: 4, params: vec![], body: vec![] });
        }
    }
    let (bytes, strings, place) = layout_nodes(s, &nodes);
    let mut sc = Scenario::default();
    sc.script_syntax_data = Data::new(bytes); sc.script_string_data = Data::new(strings);
    for (g, r) in scripts.iter().zip(&roots) { sc.scripts.items.push(ScenarioScript { name: String32::from_str(&g.name).unwrap(), root_expression_index: ID::new(Some(place[*r] as u16), 5), ..Default::default() }) }
    let name = if s.bool() { long_name(s) } else { scenario_name(s) };
    let before = sc.clone();
    let (nodes_n, r) = (nodes.len(), alloc_bounded(400 << 20, || decompile_scripts(&mut sc, &name))?);
    match r {
        Ok(()) if fine => { let n = check_sources(&sc, &name, &[], &scripts)?; ctx.label(match n { 1 => "one source file", 2..=9 => "several source files", _ => "ten source files or more" }); }
        Ok(()) => ctx.label("unusual but accepted"),
        Err(e) => { ensure!(!fine, "sound scripts refused", "{e}: {nodes_n} nodes"); ensure!(sc == before, "refused scenario was changed", ""); ctx.label("refused"); }
    }
    ctx.nontrivial_b(&before.script_syntax_data.bytes);
    ctx.sample(|| format!("{} of {nodes_n} nodes", ["many scripts", "many scripts", "deeply nested calls", "shared nodes", "shared nodes"][kind as usize]));
    Ok(())
}
pub static C26: Check = Check {
    id: "C26", terminates: true,
    subs: &[Sub { name: "programs", quick: 40_000, thorough: 3_000_000, run: c26_programs }, Sub { name: "corrupt", quick: 60_000, thorough: 4_000_000, run: c26_corrupt }, Sub { name: "large", quick: 1500, thorough: 8_000, run: c26_large }],
    rule: "A case is a generated program (globals, scripts with parameters, nested calls, literals and texts of every type) compiled into a shuffled node table, decompiled, and its source parsed and compared; or such a table with one to three corruptions; or a long, deep or shared table. Non-trivial: at least one script or global; distinct by source or node table.",
    assumptions: &["texts do not contain a double quote, for which the source language has no spelling", "within quotes nothing is escaped", "the outermost begin of a script is implied; void literals have no spelling"],
};

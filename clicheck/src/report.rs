//! C38: what the reporting commands of the built command-line program print.
use crate::batch::run;
use rhcheck::checks::{compare, fields, graph::*, maphead, maps, paths::{ref_full, ref_path, respell}, tagfile, tree::*, verify::{gen_world, State as Fate}};
use rhcheck::engine::*;
use rhcheck::layout::*;
use rhcheck::mapgen::*;
use rhcheck::value::*;
use ringhopper::map::load_map_from_filesystem_as_tag_tree;
use ringhopper::tag::{compare::compare_tags, default::{set_all_defaults_for_tag, unset_all_defaults_for_tag}, tree::*};
use ringhopper_primitives::error::Error;
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};

fn gid(n: &str) -> usize { layout().group_by_name[n] }
pub fn arg(p: &Path) -> String { p.to_str().unwrap().to_string() }
pub fn path_of(name: &str) -> TagPath { TagPath::from_path(name).expect("canonical path") }
/// names in the order of paths, as they are shown
fn shown(names: &BTreeSet<String>) -> Vec<TagPath> { let mut v: Vec<TagPath> = names.iter().map(|n| path_of(n)).collect(); v.sort(); v }
pub fn in_dir(s: &mut Src, ctx: &mut Ctx, f: fn(&mut Src, &mut Ctx, &Path) -> R) -> R { let root = ctx.fresh_dir(); let r = f(s, ctx, &root); ctx.drop_dir(&root); r }
/// tags that a pattern or a path stands for; None if it is neither
pub fn select(s: &mut Src, near: &[(String, usize)], only: Option<usize>, listing: &BTreeSet<String>, flags: bool) -> Option<(String, Option<Vec<(String, usize)>>)> {
    let l = layout();
    let pick = if near.is_empty() { ("a".to_string(), 0) } else { s.pick(near).clone() };
    let f = if s.chance(1, 3) {
        let (p, mut g) = if s.chance(1, 6) { ("not\\there".to_string(), pick.1) } else { pick };
        if let Some(o) = only { g = o }
        let p = respell(s, &p);
        match s.below(8) { 0 => p, 1 if only.is_some() => p, _ => format!("{p}.{}", l.groups[g].name) }
    } else {
        let base = if s.bool() { full(&pick.0, pick.1) } else { pick.0.clone() };
        match s.below(5) { 0 => gen_filter(s, &base), 1 => format!("*.{}", l.groups[pick.1].name), 2 => "t*".into(), _ => "*".into() }
    };
    if f.contains('\0') || (!flags && f.starts_with('-')) { return None }
    if !f.contains(['*', '?']) {
        let one = match only { Some(o) => ref_path(f.strip_suffix(&format!(".{}", l.groups[o].name)).unwrap_or(&f)).map(|p| (p, o)), None => ref_full(&f) };
        return Some((f, one.map(|x| vec![x])))
    }
    let mut chosen = vec![];
    for name in listing { let (p, g) = ref_full(name)?; if ref_filter(&f, only, &p, Some(g)) { chosen.push((p, g)) } }
    Some((f, Some(chosen)))
}

// ------------------------------------------------------------------ dependencies
struct Forest { of: BTreeMap<String, Vec<String>>, names: HashMap<String, String>, broken: Option<BTreeSet<String>>, depth: u32, lines: usize }
impl Forest {
    fn draw(&mut self, t: &str, depth: u32, bars: &mut Vec<bool>, stack: &mut Vec<String>, out: &mut String) {
        self.lines += 1;
        if self.lines > 30_000 { return }
        if let Some((last, above)) = bars.split_last() {
            for b in above { *out += if *b { " │ " } else { "   " } }
            *out += if *last { " ├─" } else { " └─" };
        }
        *out += &self.names[t];
        let Some(d) = self.of.get(t).cloned() else { *out += " (BROKEN)\n"; return };
        if stack.iter().any(|x| x == t) { *out += " (circular)\n"; return }
        if depth == self.depth && !d.is_empty() { *out += " (minimized)\n"; return }
        *out += "\n";
        stack.push(t.to_string());
        let d: Vec<&String> = d.iter().filter(|x| match &self.broken { Some(b) => b.contains(*x) || !self.of.contains_key(*x), None => true }).collect();
        for (i, x) in d.iter().enumerate() { bars.push(i + 1 < d.len()); self.draw(x, depth + 1, bars, stack, out); bars.pop(); }
        stack.pop();
    }
    fn reach(&self, t: &str) -> BTreeSet<String> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![t.to_string()];
        while let Some(x) = todo.pop() { if seen.insert(x.clone()) { if let Some(d) = self.of.get(&x) { todo.extend(d.iter().cloned()) } } }
        seen
    }
}
fn dependencies(s: &mut Src, ctx: &mut Ctx, root: &Path) -> R {
    let what = s.weighted(&[3, 3, 4, 1, 2, 7]);
    let (nodes, needs) = if what == 4 { let mut n = gen_needs(s); (std::mem::take(&mut n.nodes), Some(n)) } else {
        let many = if what == 5 { 7 } else { 9 };
        let paths = gen_paths(s, 1, many);
        let states = s.chance(2, 3);
        (gen_nodes(s, paths, states, false), None)
    };
    let layers = s.usize(1, 2);
    let dirs = place(s, root, &nodes, layers);
    let d = nodes.iter().filter(|n| nodes.len() < 20 || !direct(n.g, &n.v).is_empty() || n.state != State::Ok).map(|n| format!("{}{} -> {:?}", n.name(), match n.state { State::Ok => "", State::Missing => " (missing)", State::Damaged => " (damaged)" }, direct(n.g, &n.v))).collect::<Vec<_>>().join("; ");
    let of: Vec<&Node> = nodes.iter().filter(|n| n.state != State::Missing).collect();
    let mut tags: Vec<String> = vec![];
    for d in &dirs { tags.extend([if s.bool() { "--tags" } else { "-t" }.to_string(), arg(d)]) }
    let before: Vec<Files> = dirs.iter().map(|d| snapshot(d)).collect();
    let mut args: Vec<String> = vec![];
    // what has to be printed; None if the command has to fail
    let want: Option<String>;
    let lines = |n: &BTreeSet<String>| shown(n).iter().map(|p| format!("{p}\n")).collect::<String>();
    let mut big = 0;
    match what {
        0..=3 => {
            let (t, state) = if s.chance(1, 10) { ("no\\such\\tag.weapon".to_string(), State::Missing) } else { let n = s.pick(&nodes); (n.name(), n.state) };
            let i = nodes.iter().position(|n| n.name() == t);
            args.push("dependency-list".into());
            let (p, g) = t.rsplit_once('.').unwrap();
            let mut given = if s.chance(1, 20) { p.to_string() } else { format!("{}.{g}", respell(s, p)) };
            if given.starts_with('-') { given = format!("x{given}") }
            args.push(given.clone());
            let recursive = what == 2 || what == 3;
            let reverse = what == 1 || what == 3;
            if recursive { args.push(if s.bool() { "-r" } else { "--recursive" }.into()) }
            if reverse { args.push(if s.bool() { "-R" } else { "--reverse" }.into()) }
            let same = ref_full(&given).is_some_and(|(p, g)| full(&p, g) == t);
            if !same { ctx.label("another path") }
            if ref_full(&given).is_some() && !same { return Ok(()) }
            want = if !same || what == 3 { None }
            else if reverse {
                let g = gid(g);
                if of.iter().any(|n| n.state == State::Damaged && referenceable()[n.g].contains(&layout().groups[g].name)) { None } else {
                    let w: BTreeSet<String> = of.iter().filter(|n| n.state == State::Ok && direct(n.g, &n.v).contains(&t)).map(|n| n.name()).collect();
                    // such references are not looked for (C16)
                    if of.iter().any(|n| w.contains(&n.name()) && !referenceable()[n.g].contains(&layout().groups[g].name)) { return Ok(()) }
                    big = w.len();
                    Some(lines(&w))
                }
            }
            else if recursive {
                let w = walk(&nodes, &t);
                if w.missing.is_empty() && w.damaged.is_empty() { let n: BTreeSet<String> = w.through.values().flatten().cloned().collect(); big = n.len(); Some(lines(&n)) } else { None }
            }
            else if state == State::Ok { let n = &nodes[i.unwrap()]; let w = direct(n.g, &n.v); big = w.len(); Some(lines(&w)) } else { None };
            ctx.label(["direct", "reverse", "recursive", "both"][what]);
        }
        4 => {
            let mut n = needs.unwrap();
            n.nodes = nodes.iter().map(|n| Node { path: n.path.clone(), g: n.g, v: n.v.clone(), state: n.state, bytes: vec![] }).collect();
            let (w, good) = n.want();
            args.push("list-scenario-tags".into());
            args.push(respell(s, "levels\\test\\x"));
            let target = engine(&n.engine).build_target;
            if !s.chance(1, 12) { args.extend([if s.bool() { "--engine" } else { "-e" }.to_string(), n.engine.clone()]); want = if good && target { Some(lines(&w)) } else { None } } else { want = None }
            big = w.len();
            ctx.label("scenario");
        }
        _ => {
            args.push("dependency-tree".into());
            let listing = ref_listing(&before);
            let near: Vec<(String, usize)> = nodes.iter().map(|n| (n.path.clone(), n.g)).collect();
            let (filter, chosen) = loop {
                let (p, g) = s.pick(&near).clone();
                let f = match s.below(6) { 0 | 1 => full(&p, g), 2 => native(&full(&p, g)), 3 => { let base = full(&p, g); gen_filter(s, &base) } 4 => format!("*.{}", layout().groups[g].name), _ => "*".into() };
                if f.starts_with('-') || f.contains('\0') { continue }
                let c: Vec<String> = listing.iter().filter(|n| { let (p, g) = ref_full(n).unwrap(); ref_filter(&f, None, &p, Some(g)) }).cloned().collect();
                break (f, c)
            };
            args.push(filter);
            let broken = s.chance(1, 3);
            let depth = if s.chance(1, 3) { Some(s.below(4) as u32) } else { None };
            if broken { args.push(if s.bool() { "-b" } else { "--broken" }.into()) }
            if let Some(d) = depth { args.extend([if s.bool() { "-d" } else { "--depth" }.to_string(), d.to_string()]) }
            let mut f = Forest { of: BTreeMap::new(), names: HashMap::new(), broken: None, depth: depth.unwrap_or(u32::MAX), lines: 0 };
            for c in &chosen { for (k, v) in walk(&nodes, c).through { f.of.insert(k, shown(&v).iter().map(|p| p.to_internal_path()).collect()); } }
            for n in f.of.iter().flat_map(|(k, v)| v.iter().chain([k])).chain(&chosen) { f.names.insert(n.clone(), path_of(n).to_string()); }
            if broken { f.broken = Some(f.of.keys().filter(|k| f.reach(k).iter().any(|x| !f.of.contains_key(x))).cloned().collect()) }
            let shows = |f: &Forest, t: &String| f.broken.as_ref().map_or(true, |b| b.contains(t));
            let mut block: HashMap<String, String> = HashMap::new();
            // chosen tags that cannot be read themselves may be left out of a list of broken dependencies
            for c in &chosen { if !shows(&f, c) && f.of.contains_key(c) { continue } let mut o = String::new(); f.lines = 0; f.draw(c, 0, &mut vec![], &mut vec![], &mut o); if f.lines > 30_000 { ctx.label("too large"); return Ok(()) } block.insert(c.clone(), o); }
            let mut all = args.clone(); all.extend(tags.clone());
            let ran = run(root, &all)?;
            let e = format!("{all:?}; {d}: {}", ran.out);
            ensure_eq!(ran.code, Some(0), "wrong exit status", "{e}");
            let mut rest = ran.out.as_str();
            let mut roots: Vec<&String> = vec![];
            while !rest.is_empty() {
                let Some(r) = block.iter().filter(|b| rest.starts_with(b.1.as_str())).max_by_key(|b| b.1.len()) else { fail!("tree drawn wrongly", "at {:?}: {e}", rest.lines().next()) };
                ensure!(!roots.contains(&r.0), "tree drawn twice", "{}: {e}", r.0);
                roots.push(r.0);
                rest = &rest[r.1.len()..];
            }
            let natural: Vec<&String> = chosen.iter().filter(|c| shows(&f, c) && !f.of.values().any(|v| v.contains(c))).collect();
            for n in &natural { ensure!(roots.contains(n), "tag that nothing depends on is not shown", "{n}: {e}") }
            let mut reached: BTreeSet<String> = natural.iter().flat_map(|n| f.reach(n)).collect();
            for r in &roots {
                if natural.contains(r) || !f.of.contains_key(*r) { continue }
                ensure!(!reached.contains(*r), "tag of the tree shown on its own", "{r}: {e}");
                reached.extend(f.reach(r));
                ctx.label("circle without a start");
            }
            for c in &chosen { if f.of.contains_key(c) && shows(&f, c) { ensure!(reached.contains(c), "chosen tag is not shown", "{c}: {e}") } }
            ensure!(dirs.iter().map(|d| snapshot(d)).collect::<Vec<_>>() == before, "report changes files", "{e}");
            for w in ["(BROKEN)", "(circular)", "(minimized)"] { if ran.out.contains(w) { ctx.label(w) } }
            if broken { ctx.label("only broken") }
            ctx.label("tree");
            if ran.out.lines().count() > 2 { ctx.nontrivial_s(&ran.out) }
            ctx.sample(|| format!("{args:?}: {} lines", ran.out.lines().count()));
            return Ok(())
        }
    }
    args.extend(tags);
    let ran = run(root, &args)?;
    let e = format!("{args:?}; {d}: {}", ran.out);
    match &want {
        None => { ensure!(ran.code == Some(1), "report made although it cannot be", "{e}"); ctx.label("refused") }
        Some(w) => { ensure_eq!(ran.code, Some(0), "report refused", "{e}"); ensure!(ran.out == *w, "report differs", "should be {w:?}: {e}"); }
    }
    ensure!(dirs.iter().map(|d| snapshot(d)).collect::<Vec<_>>() == before, "report changes files", "{e}");
    if want.is_none() || big > 1 { ctx.nontrivial_s(&e) }
    ctx.sample(|| format!("{args:?}: {} lines", ran.out.lines().count()));
    Ok(())
}
fn c38_dependencies(s: &mut Src, ctx: &mut Ctx) -> R { in_dir(s, ctx, dependencies) }

// ------------------------------------------------------------------ compare
/// differences as an indented list, in order of appearance
#[derive(Default)]
struct Twig { name: String, text: Option<String>, below: Vec<Twig> }
impl Twig {
    fn at(&mut self, path: &[&str]) -> &mut Twig {
        let Some((first, rest)) = path.split_first() else { return self };
        let i = self.below.iter().position(|t| t.name == *first).unwrap_or_else(|| { self.below.push(Twig { name: first.to_string(), ..Default::default() }); self.below.len() - 1 });
        self.below[i].at(rest)
    }
    fn draw(&self, depth: usize, out: &mut String) {
        if depth > 0 { *out += &"    ".repeat(depth); *out += &self.name; if let Some(t) = &self.text { *out += ": "; *out += t } *out += "\n" }
        for b in &self.below { b.draw(depth + 1, out) }
    }
}
/// failures of single tags come first, in any order; then the rest, exactly
fn failures_then(out: &str, failed: &[String], rest: &str, e: &str) -> R {
    let Some(head) = out.strip_suffix(rest) else { fail!("report differs", "should end in {rest:?}: {e}") };
    for f in failed { ensure_eq!(head.matches(&format!("Failed to process {f}: ")).count(), 1, "failure of a tag not reported", "{f}: {e}") }
    ensure_eq!(head.lines().filter(|l| l.starts_with("Failed to process ")).count(), failed.len(), "failure reported where there is none", "{e}");
    ensure_eq!(head.contains("Failed to parse"), !failed.is_empty(), "number of failures not reported", "{e}");
    if !failed.is_empty() { ensure!(head.contains(&format!("Failed to parse {} tag{}\n", failed.len(), if failed.len() == 1 { "" } else { "s" })), "number of failures reported wrongly", "{e}") }
    if failed.is_empty() { ensure!(head.is_empty(), "report differs", "should be {rest:?}: {e}") }
    Ok(())
}
fn comparison(s: &mut Src, ctx: &mut Ctx, root: &Path) -> R {
    let l = layout();
    let (a, b) = (root.join("a"), root.join("b"));
    for d in [&a, &b] { std::fs::create_dir(d).unwrap() }
    let mut near: Vec<(String, usize)>;
    let mut sources: [PathBuf; 2] = [a.clone(), b.clone()];
    let put_edited = |s: &mut Src, dir: &Path, p: &str, g: usize, v: &V| {
        let st = l.groups[g].st;
        let mut w = v.clone();
        let rate = *s.pick(&[0u64, 1, 4, 20]);
        let mut gen = Gen { budget: 100, max_items: 2, ..Default::default() };
        compare::edit(s, l, st, &mut w, rate, &mut gen);
        let mut f = file_of(g, &w);
        // what the engine fills in makes no difference
        if s.chance(1, 3) { if let Ok(mut t) = tag_of(g, &w) { if s.bool() { unset_all_defaults_for_tag(t.as_mut()) } else { set_all_defaults_for_tag(t.as_mut()) } if let Ok(x) = t.to_tag_file() { f = x } } }
        if s.chance(1, 12) { damage(s, &mut f) }
        put(dir, &native(&full(p, g)), &f);
    };
    let maps = s.chance(1, 3);
    if maps {
        let xbox = s.bool();
        let eng = maps::pick_engine(s, xbox);
        let opt = Options { groups: vec![], extra: s.usize(0, 4), lose: s.chance(1, 8), spoil: false, budget: 300, large: false };
        let mut m = build_map(s, eng, &opt);
        let dir = root.join("maps");
        std::fs::create_dir(&dir).unwrap();
        maps::store(s, &mut m, &dir);
        near = m.items.iter().map(|i| (i.path.clone(), i.g)).collect();
        for i in &m.items { if s.chance(4, 5) { if s.chance(1, 2) { let w = i.want.clone(); put_edited(s, &b, &i.path, i.g, &w) } else { put(&b, &native(&i.full()), &file_of(i.g, &i.want)) } } }
        sources[0] = dir.join("the.map");
        if s.chance(1, 8) { sources[1] = sources[0].clone() } else if s.chance(1, 2) { sources.swap(0, 1) }
        ctx.label("map");
    } else {
        near = gen_paths(s, 1, 8);
        near.retain(|p| !p.0.starts_with('-'));
        for (p, g) in &near {
            let mut v = small_value(s, *g);
            if s.bool() { fields::bias(s, l, l.groups[*g].st, &mut v, &[0.0, 1.0], 0) }
            let k = s.below(8);
            if k != 0 { put_edited(s, &a, p, *g, &v) }
            if k != 1 { put_edited(s, &b, p, *g, &v) }
        }
    }
    // what may be compared at all
    let mut bad = false;
    match s.below(24) {
        0 => { sources[s.below(2) as usize] = root.join("nothing"); bad = true }
        1 => { let f = root.join(*s.pick(&["file", "bad.map", "file.weapon"])); std::fs::write(&f, b"neither").unwrap(); sources[s.below(2) as usize] = f; bad = true }
        _ => ()
    }
    let raw = s.chance(1, 3);
    let short = s.chance(1, 3);
    let verbose = s.chance(1, 2);
    let show = *s.pick(&["mismatched", "all", "matched", "", "", "some"]);
    let before = snapshot(root);
    let open = |p: &Path| -> Result<Box<dyn TagTree>, String> { if p.is_dir() { VirtualTagsDirectory::new(&[p], None).map(|d| Box::new(d) as _).map_err(|e| e.to_string()) } else { load_map_from_filesystem_as_tag_tree(p, ParseStrictness::Strict).map(|d| Box::new(d) as _).map_err(|e| e.to_string()) } };
    let mut args = vec![if s.bool() { "compare" } else { "cmp" }.to_string()];
    let mut trees = vec![];
    if !bad { for p in &sources { match open(p) { Ok(t) => trees.push(t), Err(e) => fail!("source cannot be opened", "{p:?}: {e}") } } }
    let listing: BTreeSet<String> = trees.first().map(|t| t.get_all_tags_with_filter(None).iter().map(|p| p.to_internal_path()).collect()).unwrap_or_default();
    let filtered = s.chance(1, 2);
    let (filter, chosen) = if filtered { match select(s, &near, None, &listing, true) { Some(x) => x, None => return Ok(()) } } else { ("*".to_string(), Some(listing.iter().map(|n| ref_full(n).unwrap()).collect())) };
    if filtered { args.push(format!("--filter")); args.push(filter.clone()) }
    if raw { args.push(if s.bool() { "-r" } else { "--raw" }.into()) }
    if short { args.push(if s.bool() { "-a" } else { "--abbreviated" }.into()) }
    if verbose { args.push(if s.bool() { "-v" } else { "--verbose" }.into()) }
    if show != "" { args.extend([if s.bool() { "-s" } else { "--show" }.to_string(), show.to_string()]) }
    let jobs = *s.pick(&[1u64, 1, 2, 4, 9]);
    if jobs > 1 { args.extend(["-j".to_string(), jobs.to_string()]) }
    args.extend(sources.iter().map(|p| arg(p)));
    let ran = run(root, &args)?;
    let e = format!("{:?}: {}", args.iter().map(|a| a.replace(root.to_str().unwrap(), "")).collect::<Vec<_>>(), ran.out);
    ensure!(snapshot(root) == before, "report changes files", "{e}");
    ctx.sample(|| e.clone());
    if bad || show == "some" || chosen.as_ref().map_or(true, |c| c.is_empty()) {
        ensure!(ran.code == Some(1), "report made although it cannot be", "{e}");
        ctx.label("refused");
        return Ok(())
    }
    let (mut failed, mut matched, mut text) = (vec![], 0, String::new());
    let mut results: Vec<(TagPath, Vec<ringhopper::tag::compare::TagComparisonDifference>)> = vec![];
    for (p, g) in chosen.unwrap() {
        let path = tp(&p, g);
        // a tag that only one side has is left out
        let second = match trees[1].open_tag_copy(&path) { Ok(t) => t, Err(Error::TagNotFound(_)) => { ctx.label("only on one side"); continue } Err(_) => { failed.push(path.to_string()); continue } };
        let Ok(first) = trees[0].open_tag_copy(&path) else { failed.push(path.to_string()); continue };
        let mut t = [first, second];
        if !raw { for t in &mut t { set_all_defaults_for_tag(t.as_mut()) } }
        results.push((path, compare_tags(t[0].as_ref(), t[1].as_ref(), raw, short)));
    }
    results.sort_by(|a, b| a.0.cmp(&b.0));
    for (path, d) in &results {
        if d.is_empty() { matched += 1; if show == "all" || show == "matched" { text += &format!("Matched: {path}\n") } continue }
        if show == "matched" { continue }
        text += &format!("Mismatched: {path}\n");
        if verbose { let mut t = Twig::default(); for x in d { t.at(&x.path.split('.').collect::<Vec<_>>()).text = Some(x.difference.clone()) } t.draw(0, &mut text); }
    }
    text += &format!("Matched {matched} / {} tag{}\n", results.len(), if results.len() == 1 { "" } else { "s" });
    ensure_eq!(ran.code, Some(0), "report refused", "{e}");
    failures_then(&ran.out, &failed, &text, &e)?;
    if matched < results.len() { ctx.label("mismatch") }
    if matched > 0 { ctx.label("match") }
    if !failed.is_empty() { ctx.label("unreadable tag") }
    if results.len() > 1 { ctx.nontrivial_s(&e) }
    Ok(())
}
fn c38_compare(s: &mut Src, ctx: &mut Ctx) -> R { in_dir(s, ctx, comparison) }

// ------------------------------------------------------------------ verify-scenario
fn verified(s: &mut Src, ctx: &mut Ctx, root: &Path) -> R {
    let w = gen_world(s);
    let dir = root.join("t");
    std::fs::create_dir(&dir).unwrap();
    for t in w.tags.values() {
        let mut f = file_of(t.g, &t.v);
        if t.state == Fate::Damaged { f.truncate(0x41) }
        put(&dir, &native(&t.name()), &f);
    }
    let before = snapshot(root);
    let listing: BTreeSet<String> = w.tags.keys().cloned().collect();
    let scen = gid("scenario");
    let near: Vec<(String, usize)> = vec![("levels\\test\\x".into(), scen)];
    let Some((filter, chosen)) = select(s, &near, Some(scen), &listing, false) else { return Ok(()) };
    let target = ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().find(|e| e.name == w.engine).unwrap();
    let mut args = vec!["verify-scenario".to_string(), filter];
    args.extend(["-t".to_string(), arg(&dir), "-e".to_string(), w.engine.clone()]);
    let jobs = *s.pick(&[1u64, 2, 4]);
    if jobs > 1 { args.extend(["--jobs".to_string(), jobs.to_string()]) }
    let ran = run(root, &args)?;
    let e = format!("{:?}: {}", args.iter().map(|a| a.replace(root.to_str().unwrap(), "")).collect::<Vec<_>>(), ran.out);
    ensure!(snapshot(root) == before, "report changes files", "{e}");
    if !target.build_target || chosen.as_ref().map_or(true, |c| c.is_empty()) { ensure_eq!(ran.code, Some(1), "report made although it cannot be", "{e}"); ctx.label("refused"); return Ok(()) }
    ensure_eq!(ran.code, Some(0), "report refused", "{e}");
    let mut failed = vec![];
    let mut want: Vec<String> = vec![];
    let mut issues = 0;
    for (p, g) in chosen.unwrap() {
        let path = tp(&p, g);
        let tree = CachingTagTree::new(VirtualTagsDirectory::new(&[&dir], None).unwrap(), CachingTagTreeWriteStrategy::Manual);
        match ringhopper::tag::verify::verify(&path, tree, target, std::num::NonZeroUsize::new(1).unwrap()) {
            Err(_) => failed.push(path.to_string()),
            Ok(r) => {
                let n: usize = r.values().map(|r| r.errors.len() + r.warnings.len() + r.pedantic_warnings.len()).sum();
                issues += n;
                want.push(format!("Verified {path} and found {}", match n { 0 => "no issues".into(), 1 => "one issue:".into(), n => format!("{n} issues:") }));
                for (p, r) in r { for (k, v) in [("ERROR", r.errors), ("WARNING", r.warnings), ("WARNING (minor)", r.pedantic_warnings)] { for x in v { want.push(format!("{k} {p}: {x}")) } } }
            }
        }
    }
    let mut got: Vec<String> = ran.out.lines().map(|x| x.to_string()).collect();
    let mut want: Vec<String> = want.join("\n").lines().map(|x| x.to_string()).collect();
    if failed.is_empty() {
        got.sort(); want.sort();
        if got != want { let extra = got.iter().find(|x| !want.contains(x)); let lost = want.iter().find(|x| !got.contains(x)); fail!("report differs", "missing {lost:?}, extra {extra:?}: {e}") }
    } else {
        // there is one scenario only
        failures_then(&ran.out, &failed, "", &e)?;
        ctx.label("cannot be verified");
    }
    ctx.label(match issues { 0 => "no issues", 1 => "one issue", _ => "issues" });
    if failed.is_empty() { ctx.nontrivial_s(&e) }
    ctx.sample(|| format!("{:?}: {issues} issues", args[0]));
    Ok(())
}
fn c38_verify(s: &mut Src, ctx: &mut Ctx) -> R { in_dir(s, ctx, verified) }

// ------------------------------------------------------------------ info, list-engines
fn mib(n: usize) -> String { format!("{:.2} MiB", (n / 1024) as f64 / 1024.0) }
fn about(s: &mut Src, ctx: &mut Ctx, root: &Path) -> R {
    if s.chance(1, 6) { return engines(s, ctx, root) }
    let xbox = s.bool();
    let eng = maps::pick_engine(s, xbox);
    let opt = Options { groups: vec![], extra: if s.chance(1, 150) { s.usize(250, 300) } else { s.usize(0, 4) }, lose: s.chance(1, 10), spoil: false, budget: 200, large: false };
    let mut b = build_map(s, eng, &opt);
    let dir = root.join("maps");
    std::fs::create_dir(&dir).unwrap();
    if !xbox && s.chance(1, 3) { b.head.crc = match s.below(3) { 0 => 0, 1 => u32::MAX, _ => s.u32() }; let mut h = b.map[..0x800].to_vec(); b.head.put(&mut h); b.map[..0x800].copy_from_slice(&h); }
    maps::store(s, &mut b, &dir);
    let mut file = dir.join("the.map");
    let mut bad = false;
    match s.below(16) {
        0 => { file = dir.join("not there.map"); bad = true }
        1 => { let n = s.usize(0, 0x7FF); let f = std::fs::read(&file).unwrap(); std::fs::write(&file, &f[..n]).unwrap(); bad = true }
        _ => ()
    }
    let mut args = vec!["info".to_string(), arg(&file)];
    match s.below(8) { 0 => args.extend(["--type".to_string(), "general".to_string()]), 1 => args.extend(["-T".to_string(), "General".to_string()]), 2 if !bad => { args.extend(["-T".to_string(), "tags".to_string()]); bad = true } _ => () }
    let before = snapshot(root);
    let ran = run(root, &args)?;
    let e = format!("{} map with {} tags: {}", eng.name, b.items.len(), ran.out);
    ensure!(snapshot(root) == before, "report changes files", "{e}");
    if bad { ensure_eq!(ran.code, Some(1), "report made although it cannot be", "{args:?}: {e}"); ctx.label("refused"); return Ok(()) }
    ensure_eq!(ran.code, Some(0), "report refused", "{e}");
    let j = &layout().json["engines"][maphead::meant(b.head.version, &b.head.build).unwrap()];
    let t = |k: &str| j[k].as_str().unwrap().to_string();
    // what the harness knows about the map
    let mut want: Vec<(&str, String)> = vec![("Scenario name", b.head.name.clone()), ("Engine", t("display")), ("", format!("({})", t("name"))), ("Build string", b.head.build.clone())];
    if !xbox {
        let text: String = b.crc.to_be_bytes().iter().map(|c| *c as char).collect();
        let quoted = if b.crc.to_be_bytes().iter().all(|c| (0x20..0x7F).contains(c)) { format!(" \"{text}\"") } else { String::new() };
        want.push(("CRC32", if b.head.crc == b.crc { format!("0x{:08X}{quoted} (matches header)", b.crc) } else { format!("0x{:08X} (mismatch; header=0x{:08X})", b.crc, b.head.crc) }));
    }
    want.push(("Map type", ["Singleplayer", "Multiplayer", "UserInterface"][b.kind as usize].into()));
    want.push(("Tags", b.items.len().to_string()));
    let used = b.tag_len + if eng.ext_bsps { 0 } else { b.levels.iter().map(|x| x.1).max().unwrap_or(0) };
    let kinds = [1, 2, 0];
    want.push(("Uncompressed size", format!("{} / {}", mib(b.map.len()), mib(j["max_size"][kinds[b.kind as usize]].as_u64().unwrap() as usize))));
    let most = j["max_tag_space"].as_u64().unwrap() as usize;
    want.push(("Tag space used", format!("{} / {}", mib(used), mib(most))));
    let guess = if eng.ext_bsps { None } else { b.levels.first().and_then(|(a, n)| (*a as usize + n).checked_sub(b.base as usize)) };
    match guess {
        Some(g) if g != most => { want.push(("Actual tag space", format!("{} (0x{g:08X})", mib(g)))); want.push(("", format!("The map's tag space is {} than expected!", if g > most { "HIGHER" } else { "LOWER" }))) }
        None if !eng.ext_bsps => want.push(("Actual tag space", "Cannot determine".into())),
        _ => ()
    }
    let squash = |x: &str| x.to_ascii_lowercase().replace([' ', '_'], "");
    let lines: Vec<&str> = ran.out.lines().collect();
    ensure_eq!(lines.len(), want.len(), "lines of the report", "{want:?}: {e}");
    for (line, (k, v)) in lines.iter().zip(&want) {
        let label = if k.is_empty() { String::new() } else { format!("{k}:") };
        let Some(got) = line.strip_prefix(&format!("{label:19}")) else { fail!("report differs", "{line:?} should be {k} {v}: {e}") };
        ensure!(got == v || (*k == "Map type" && squash(got) == squash(v)), "report differs", "{k}: {got:?}, should be {v:?}: {e}");
    }
    ctx.label(if xbox { "compressed map" } else { "map" });
    ctx.nontrivial_s(&ran.out);
    ctx.sample(|| e);
    Ok(())
}
fn engines(s: &mut Src, ctx: &mut Ctx, root: &Path) -> R {
    let all: Vec<&serde_json::Value> = layout().json["engines"].as_object().unwrap().values().collect();
    let name = match s.below(4) { 0 => None, 1 => Some((*s.pick(&["halo", "PC-RETAIL", "", "pc-", "xbo"])).to_string()), _ => Some(s.pick(&all)["name"].as_str().unwrap().to_string()) };
    let mut args = vec!["list-engines".to_string()];
    args.extend(name.clone());
    let ran = run(root, &args)?;
    let e = format!("{args:?}: {}", ran.out);
    let known = all.iter().find(|j| j["name"].as_str() == name.as_deref());
    ensure_eq!(ran.code, Some(if name.is_none() || known.is_some() { 0 } else { 1 }), "exit status of list-engines", "{e}");
    match (name, known) {
        (None, _) => {
            // three sections of engines that are no fallback
            let parts: Vec<&str> = ran.out.split("\n\n").collect();
            ensure_eq!(parts.len(), 4, "sections of the list of engines", "{e}");
            for j in &all {
                let line = format!("    {:20} {}", j["name"].as_str().unwrap(), j["display"].as_str().unwrap());
                let b = |k: &str| j[k] == true;
                let place = if b("fallback") { 0 } else if !b("build_target") { 3 } else if b("custom") { 2 } else { 1 };
                for i in 1..4 { ensure_eq!(parts[i - 1].lines().filter(|x| *x == line).count(), (i == place) as usize, "list of engines", "{line:?} in section {i}: {e}") }
            }
        }
        (Some(_), Some(j)) => {
            let b = |k: &str| j[k] == true;
            let n = |k: &str| j[k].as_u64().unwrap();
            let size = |i: usize| { let x = j["max_size"][i].as_u64().unwrap(); format!("0x{x:08X} ({} MiB)", x as f64 / 1048576.0) };
            for (k, v) in [
                ("Target name", j["name"].as_str().unwrap().to_string()), ("Full name", j["display"].as_str().unwrap().to_string()), ("Engine version", j["version"].as_str().unwrap_or("<none>").to_string()), ("Cache version", n("cache_file_version").to_string()),
                ("Build version", j["build"]["string"].as_str().unwrap_or("<none>").to_string()), ("Tag data address", format!("0x{:08X}{}", n("base"), if b("inferred") { " (inferred)" } else { "" })), ("Max tag space", format!("0x{:08X} ({} MiB)", n("max_tag_space"), n("max_tag_space") as f64 / 1048576.0)),
                ("BSP in tag space", (if b("external_bsps") { "no" } else { "yes" }).to_string()), ("Models in tag space", (if b("external_models") { "no" } else { "yes" }).to_string()), ("Vertex type", (if b("compressed_models") { "compressed" } else { "uncompressed" }).to_string()),
                ("Max script nodes", n("max_script_nodes").to_string()), ("Texture sizes", (if j["bitmap"]["modulo"] == true { "must modulo block size" } else { "any" }).to_string()), ("Cache compression", (if b("deflate") { "yes (deflate)" } else { "no" }).to_string()),
                (" - singleplayer", size(1)), (" - multiplayer", size(2)), (" - user interface", size(0))
            ] {
                let found = ran.out.lines().any(|x| x.strip_prefix(k).is_some_and(|r| r.trim_start_matches(':').trim() == v));
                ensure!(found, "description of an engine", "{k} should be {v}: {e}");
            }
            ensure_eq!(ran.out.contains("NOTE:"), b("fallback") || !b("build_target"), "note about an engine", "{e}");
        }
        _ => ctx.label("unknown engine")
    }
    ctx.label("engines");
    ctx.nontrivial_s(&e);
    Ok(())
}
fn c38_info(s: &mut Src, ctx: &mut Ctx) -> R { in_dir(s, ctx, about) }

pub static C38: Check = Check {
    id: "C38", terminates: true,
    subs: &[Sub { name: "dependencies", quick: 9_000, thorough: 300_000, run: c38_dependencies }, Sub { name: "compare", quick: 6_000, thorough: 200_000, run: c38_compare }, Sub { name: "verify", quick: 1_500, thorough: 50_000, run: c38_verify }, Sub { name: "info", quick: 3_000, thorough: 100_000, run: c38_info }],
    rule: "A case is one set of files (tags that refer to each other with some missing or damaged; two directories or a map and a directory to be compared; a scenario with everything it needs; a map) and one reporting command run as a process; what it prints is compared with what the harness or, for differences and faults, the library finds, and the files must be left alone. Non-trivial: more than one line, or a refusal because of a missing or damaged tag; distinct by what is printed and asked.",
    assumptions: &["the differences between two tags and the faults of a scenario are those the library reports, which C19 and C33 judge", "references of a group their field may not hold are left out of reverse searches (C16)", "a chosen tag that cannot be read may be left out when only broken dependencies are shown", "trees of more than 30,000 lines are not drawn"],
};

//! C16-C18, C24: reference graphs, path and group refactors, archives.
use crate::engine::*;
use crate::gen_table::OPS;
use crate::layout::*;
use crate::value::*;
use super::paths::ref_path;
use super::tree::*;
use ringhopper::tag::archive::*;
use ringhopper::tag::dependency::*;
use ringhopper::tag::tree::*;
use ringhopper_primitives::error::{Error, RinghopperResult};
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::PathBuf;
use std::num::NonZeroUsize;
use std::sync::OnceLock;

// ------------------------------------------------------------------ references in values
/// Every reference of a value: allowed groups of its field, whether it lies in a read-only field, and the reference.
pub fn refs_mut(l: &Layout, st: usize, v: &mut V, ro: bool, f: &mut dyn FnMut(&[String], bool, &mut V)) {
    let V::St(vs) = v else { return };
    for (fd, x) in l.structs[st].fields.iter().zip(vs) {
        if fd.exclude { continue }
        let ro = ro || fd.ro;
        let mut go = |x: &mut V| match (&fd.ty, x) {
            (Ty::Ref(a), x @ V::Ref(..)) => f(a, ro, x),
            (Ty::Struct(i), x) => refs_mut(l, *i, x, ro, f),
            (Ty::Refl(i), V::Refl(items)) => for x in items { refs_mut(l, *i, x, ro, f) },
            _ => ()
        };
        match x { V::Arr(a) => for x in a { go(x) }, x => go(x) }
    }
}
/// groups a tag of each group may reference, from the definitions
pub fn referenceable() -> &'static Vec<BTreeSet<String>> {
    static R: OnceLock<Vec<BTreeSet<String>>> = OnceLock::new();
    R.get_or_init(|| {
        let l = layout();
        fn go(l: &Layout, st: usize, seen: &mut BTreeSet<usize>, out: &mut BTreeSet<String>) {
            if !seen.insert(st) { return }
            for f in &l.structs[st].fields { match &f.ty { Ty::Ref(a) => out.extend(a.iter().cloned()), Ty::Struct(i) | Ty::Refl(i) => go(l, *i, seen, out), _ => () } }
        }
        l.groups.iter().map(|g| { let mut o = BTreeSet::new(); go(l, g.st, &mut BTreeSet::new(), &mut o); o }).collect()
    })
}
/// groups with at least one reference that can be stored in a tag file
pub fn referring() -> &'static Vec<usize> {
    static R: OnceLock<Vec<usize>> = OnceLock::new();
    R.get_or_init(|| { let mut v: Vec<usize> = sites(layout(), |f| matches!(f.ty, Ty::Ref(_))).into_iter().filter(|s| s.in_tag()).map(|s| s.group).collect(); v.sort(); v.dedup(); v })
}
fn group_str(f: u32) -> String { layout().group_of_fourcc(f).unwrap_or("<unset>").to_string() }
pub fn direct(g: usize, v: &V) -> BTreeSet<String> {
    let l = layout();
    let mut c = canon_struct(l, l.groups[g].st, v);
    let mut out = BTreeSet::new();
    refs_mut(l, l.groups[g].st, &mut c, false, &mut |_, _, r| if let V::Ref(f, p) = r { if !p.is_empty() { out.insert(format!("{p}.{}", group_str(*f))); } });
    out
}
pub fn plant_refs(s: &mut Src, g: usize, v: &mut V, targets: &[(String, usize)], only_allowed: bool) {
    let l = layout();
    refs_mut(l, l.groups[g].st, v, false, &mut |allowed, _, r| {
        if !s.chance(3, 4) || targets.is_empty() { if only_allowed { *r = V::Ref(l.fourcc_of[&allowed[0]], String::new()) } return }
        let fit: Vec<&(String, usize)> = targets.iter().filter(|t| allowed.contains(&l.groups[t.1].name)).collect();
        if !fit.is_empty() { let t = *s.pick(&fit); *r = V::Ref(l.groups[t.1].fourcc, t.0.clone()) }
        else if !only_allowed && s.chance(1, 2) { let t = s.pick(targets); *r = V::Ref(l.groups[t.1].fourcc, t.0.clone()) }
        else if only_allowed { *r = V::Ref(l.fourcc_of[&allowed[0]], String::new()) }
    });
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum State { Ok, Missing, Damaged }
pub struct Node { pub path: String, pub g: usize, pub v: V, pub state: State, pub bytes: Vec<u8> }
impl Node { pub fn name(&self) -> String { full(&self.path, self.g) } }
pub fn damage(s: &mut Src, b: &mut Vec<u8>) {
    match s.below(4) {
        0 => { let n = s.usize(0, b.len() - 1); b.truncate(n) }
        1 => b.clear(),
        2 => { let i = 0x40 + s.usize(0, b.len() - 0x41); b[i] ^= 1 << s.below(8) } // checksum no longer right
        _ => b[0x3C] ^= 0x20,
    }
}
/// A tree of tags that refer to each other; groups are mostly ones that can refer to tags.
pub fn gen_nodes(s: &mut Src, paths: Vec<(String, usize)>, states: bool, only_allowed: bool) -> Vec<Node> {
    let st: Vec<State> = paths.iter().map(|_| if states && s.chance(1, 8) { *s.pick(&[State::Missing, State::Damaged]) } else { State::Ok }).collect();
    // now and then one of the tags has a long list
    let long = if s.chance(1, 25) { s.below(paths.len().max(1) as u64) as usize } else { usize::MAX };
    paths.iter().zip(st).enumerate().map(|(i, ((p, g), state))| {
        let mut v = small_value(s, *g);
        if i == long { enlarge(s, layout(), layout().groups[*g].st, &mut v, 20_000, &[]); }
        plant_refs(s, *g, &mut v, &paths, only_allowed);
        let mut bytes = file_of(*g, &v);
        if state == State::Damaged { damage(s, &mut bytes) }
        Node { path: p.clone(), g: *g, v, state, bytes }
    }).collect()
}
/// Hundreds of small tags, in one long chain or referring to each other anyhow.
pub fn gen_many(s: &mut Src) -> Vec<Node> {
    let l = layout();
    let n = *s.pick(&[130usize, 257, 270, 300]);
    let list = l.group_by_name["tag_collection"];
    let chain = s.bool();
    let mut paths: Vec<(String, usize)> = vec![];
    for i in 0..n { let g = if chain || s.chance(1, 4) { list } else { *s.pick(referring()) }; paths.push((match s.below(3) { 0 => format!("many\\t{i}"), 1 => format!("m{}\\t{i}", i % 7), _ => format!("t{i}") }, g)) }
    let st = l.groups[list].st;
    (0..n).map(|i| {
        let (p, g) = paths[i].clone();
        let mut v = if g == list { Gen { budget: 200, max_items: 3, ..Default::default() }.structure(s, l, st) } else { Gen { budget: 60, max_items: 1, ..Default::default() }.structure(s, l, l.groups[g].st) };
        if chain {
            let V::St(f) = &mut v else { unreachable!() };
            let next = if i + 1 < n { paths[i + 1].clone() } else { paths[s.usize(0, n - 1)].clone() };
            for x in f.iter_mut() { if let V::Refl(items) = x { let Ty::Refl(k) = l.structs[st].fields[0].ty else { panic!() }; if items.is_empty() { items.push(default_struct(l, k)) } } }
            plant_refs(s, g, &mut v, &[next.clone()], true);
            // one reference that is there for certain
            let mut done = false;
            refs_mut(l, st, &mut v, false, &mut |_, _, r| if !done { *r = V::Ref(l.groups[next.1].fourcc, next.0.clone()); done = true });
        } else { plant_refs(s, g, &mut v, &paths, true) }
        let bytes = file_of(g, &v);
        Node { path: p, g, v, state: State::Ok, bytes }
    }).collect()
}
pub fn gen_paths(s: &mut Src, lo: usize, hi: usize) -> Vec<(String, usize)> {
    let l = layout();
    let n = s.usize(lo, hi);
    let mut out: Vec<(String, usize)> = vec![];
    for i in 0..n * 3 {
        if out.len() >= n { break }
        // groups chosen so that edges are possible: a group the last one can refer to
        let g = match (out.last(), s.below(4)) {
            (Some(x), 0 | 1) if !referenceable()[x.1].is_empty() => { let r: Vec<&String> = referenceable()[x.1].iter().filter(|n| l.group_by_name.contains_key(*n)).collect(); if r.is_empty() { 0 } else { l.group_by_name[*s.pick(&r)] } }
            (_, 2) => s.below(l.groups.len() as u64) as usize,
            _ => *s.pick(referring()),
        };
        let p = if s.bool() { gen_path(s) } else { format!("t{i}") };
        if ref_path(&p).as_deref() != Some(&p) { continue }
        if !out.iter().any(|q| q.0 == p && q.1 == g) { out.push((p, g)) }
    }
    if out.is_empty() { out.push(("t".into(), *s.pick(referring()))) }
    out
}
pub fn place(s: &mut Src, root: &std::path::Path, nodes: &[Node], layers: usize) -> Vec<PathBuf> {
    let dirs: Vec<PathBuf> = (0..layers).map(|i| root.join(format!("d{i}"))).collect();
    for d in &dirs { std::fs::create_dir_all(d).unwrap() }
    for n in nodes { if n.state != State::Missing { let d = s.usize(0, layers - 1); put(&dirs[d], &native(&n.name()), &n.bytes); } }
    dirs
}
pub fn names(h: &std::collections::HashSet<TagPath>) -> BTreeSet<String> { h.iter().map(|p| p.to_internal_path()).collect() }

// ------------------------------------------------------------------ C16
/// which tags a walk from `root` reaches, going through readable tags only; and the problems it meets
pub struct Walk { pub through: BTreeMap<String, BTreeSet<String>>, pub missing: BTreeSet<(String, String)>, pub damaged: BTreeSet<String> }
pub fn walk(nodes: &[Node], root: &str) -> Walk {
    let by: HashMap<String, &Node> = nodes.iter().map(|n| (n.name(), n)).collect();
    let mut w = Walk { through: BTreeMap::new(), missing: BTreeSet::new(), damaged: BTreeSet::new() };
    let mut todo = vec![(root.to_string(), String::new())];
    while let Some((t, from)) = todo.pop() {
        let n = match by.get(&t) { Some(n) if n.state != State::Missing => n, _ => { w.missing.insert((from, t)); continue } };
        if w.through.contains_key(&t) { continue }
        if referenceable()[n.g].is_empty() { w.through.insert(t, BTreeSet::new()); continue } // cannot refer to anything, so it is not read
        if n.state == State::Damaged { w.damaged.insert(t); continue }
        let d = direct(n.g, &n.v);
        for x in &d { todo.push((x.clone(), t.clone())) }
        w.through.insert(t, d);
    }
    w
}
fn check_recursive<T: TagTree>(tree: &T, nodes: &[Node], root: &TagPath, tolerate: bool, d: &str) -> Result<bool, Fail> {
    let w = walk(nodes, &root.to_internal_path());
    let clean = w.missing.is_empty() && w.damaged.is_empty();
    match recursively_get_dependencies_for_tag(root, tree, tolerate) {
        Ok(m) => {
            ensure!(clean || tolerate, "missing or unreadable dependency not reported", "{:?} {:?}: {d}", w.missing, w.damaged);
            let got: BTreeMap<String, BTreeSet<String>> = m.iter().map(|(k, v)| (k.to_internal_path(), names(v))).collect();
            ensure!(got == w.through, "recursive dependencies differ from the reachable tags", "got {got:?}, should be {:?}: {d}", w.through);
        }
        Err(e) => {
            ensure!(!tolerate, "tolerant walk failed", "{e}: {d}");
            let fine = match &e {
                Error::TagNotFound(p) => p == root && w.missing.contains(&(String::new(), p.to_internal_path())),
                Error::BrokenDependency(a, b) => w.missing.contains(&(a.to_internal_path(), b.to_internal_path())),
                Error::FailedToReadTag(p, _) => w.damaged.contains(&p.to_internal_path()),
                _ => false
            };
            ensure!(fine, "wrong failure reported", "{e:?}, missing {:?}, damaged {:?}: {d}", w.missing, w.damaged);
        }
    }
    Ok(clean)
}
fn c16_graph(s: &mut Src, ctx: &mut Ctx) -> R {
    let root = ctx.fresh_dir();
    let paths = gen_paths(s, 1, 9);
    let states = s.chance(2, 3);
    let nodes = gen_nodes(s, paths, states, false);
    let layers = s.usize(1, 2);
    let dirs = place(s, &root, &nodes, layers);
    let tree = VirtualTagsDirectory::new(&dirs, None).unwrap();
    let cached = CachingTagTree::new(tree.clone(), CachingTagTreeWriteStrategy::Manual);
    let d = nodes.iter().map(|n| format!("{}{} -> {:?}", n.name(), match n.state { State::Ok => "", State::Missing => " (missing)", State::Damaged => " (damaged)" }, direct(n.g, &n.v))).collect::<Vec<_>>().join("; ");
    for n in &nodes {
        if n.state == State::Ok {
            let t = tree.open_tag_copy(&tp(&n.path, n.g)).map_err(|e| Fail::new("readable tag not read", e.to_string()))?;
            let got = names(&get_tag_dependencies_for_block(t.as_dynamic()));
            ensure!(got == direct(n.g, &n.v), "direct dependencies differ from the references in the tag", "{}: {got:?} vs {:?}", n.name(), direct(n.g, &n.v));
            let mut count = 0; let mut want = 0;
            for_each_dependency(t.as_dynamic(), |r| if r.path().is_some() { count += 1 });
            let l = layout();
            refs_mut(l, l.groups[n.g].st, &mut canon_struct(l, l.groups[n.g].st, &n.v), false, &mut |_, _, r| if let V::Ref(_, p) = r { if !p.is_empty() { want += 1 } });
            ensure!(count == want, "references visited more or less than once", "{}: {count} vs {want}", n.name());
        }
        let p = tp(&n.path, n.g);
        let clean = check_recursive(&tree, &nodes, &p, false, &d)?;
        check_recursive(&cached, &nodes, &p, false, &d)?;
        check_recursive(&tree, &nodes, &p, true, &d)?;
        check_recursive(&cached, &nodes, &p, true, &d)?;
        ctx.label(if clean { "complete closure" } else { "broken closure" });
        let w = walk(&nodes, &n.name());
        if w.through.len() > 2 { ctx.label("closure of three or more") }
        if w.through.values().any(|d| d.contains(&n.name())) { ctx.label("cycle") }
        // reverse
        let lg = &layout().groups[n.g].name;
        let unreadable = nodes.iter().any(|m| m.state == State::Damaged && referenceable()[m.g].contains(lg));
        for (how, r) in [("", get_reverse_dependencies_for_tag(&p, &tree)), ("cached ", get_reverse_dependencies_for_tag(&p, &cached))] {
            match r {
                Ok(r) => {
                    let r = names(&r);
                    ensure!(!unreadable, "unreadable tag ignored by the reverse search", "{d}");
                    for m in nodes.iter().filter(|m| m.state == State::Ok) {
                        let has = direct(m.g, &m.v).contains(&n.name());
                        if has && !referenceable()[m.g].contains(lg) { ctx.label("reference of a group its tag cannot hold"); continue } // never looked at
                        ensure!(r.contains(&m.name()) == has, "reverse dependencies differ from the tags that refer to it", "{how}{} <- {}: {has}: {d}", n.name(), m.name());
                    }
                    ensure!(r.iter().all(|x| nodes.iter().any(|m| m.name() == *x && m.state == State::Ok)), "reverse search invents tags", "{r:?}");
                    if r.len() > 1 { ctx.label("several referring tags") }
                }
                Err(e) => ensure!(unreadable, "reverse search failed", "{e}: {d}"),
            }
        }
    }
    if nodes.iter().any(|n| !direct(n.g, &n.v).is_empty()) { ctx.nontrivial_s(&d) }
    ctx.sample(|| d);
    ctx.drop_dir(&root);
    Ok(())
}

fn c16_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let root = ctx.fresh_dir();
    let mut nodes = gen_many(s);
    if s.chance(1, 4) { let k = s.below(nodes.len() as u64) as usize; nodes[k].state = State::Missing }
    let layers = s.usize(1, 2);
    let dirs = place(s, &root, &nodes, layers);
    let tree = VirtualTagsDirectory::new(&dirs, None).unwrap();
    let cached = CachingTagTree::new(tree.clone(), CachingTagTreeWriteStrategy::Manual);
    let d = format!("{} tags", nodes.len());
    let mut most = 0;
    for i in [0, s.below(nodes.len() as u64) as usize] {
        let p = tp(&nodes[i].path, nodes[i].g);
        let w = walk(&nodes, &nodes[i].name());
        most = most.max(w.through.len());
        check_recursive(&tree, &nodes, &p, false, &d)?;
        check_recursive(&cached, &nodes, &p, true, &d)?;
        let want: BTreeSet<String> = nodes.iter().filter(|m| m.state == State::Ok && direct(m.g, &m.v).contains(&nodes[i].name())).map(|m| m.name()).collect();
        let r = names(&get_reverse_dependencies_for_tag(&p, &tree).map_err(|e| Fail::new("reverse search failed", e.to_string()))?);
        let allowed = |x: &String| nodes.iter().any(|m| m.name() == *x && referenceable()[m.g].contains(&layout().groups[nodes[i].g].name));
        ensure!(r == want.iter().filter(|x| allowed(x)).cloned().collect(), "reverse dependencies differ from the tags that refer to it", "{} <- {r:?} vs {want:?}", nodes[i].name());
    }
    ctx.label(match most { 0..=31 => "closure of up to 31", 32..=255 => "closure of up to 255", _ => "closure of 256 and more" });
    ctx.nontrivial_s(&format!("{most}{:?}", nodes.iter().map(|n| n.bytes.len()).collect::<Vec<_>>()));
    ctx.sample(|| format!("{d}, {most} reached"));
    ctx.drop_dir(&root);
    Ok(())
}

// ------------------------------------------------------------------ C17
pub fn small_paths(s: &mut Src) -> Vec<(String, usize)> {
    let l = layout();
    let n = s.usize(1, 8);
    let mut out: Vec<(String, usize)> = vec![];
    for _ in 0..n {
        let g = match (out.last(), s.below(3)) {
            (Some(x), 0) if !referenceable()[x.1].is_empty() => { let r: Vec<&String> = referenceable()[x.1].iter().filter(|n| l.group_by_name.contains_key(*n)).collect(); if r.is_empty() { 0 } else { l.group_by_name[*s.pick(&r)] } }
            (Some(x), 1) => x.1,
            _ => *s.pick(referring()),
        };
        let k = s.usize(1, 3);
        let p: Vec<&str> = (0..k).map(|_| *s.pick(&["a", "b", "ab", "ba", "aab", "a.b", "aa", "é"])).collect();
        let p = p.join("\\");
        if !out.iter().any(|q| q.0 == p && q.1 == g) { out.push((p, g)) }
    }
    out
}
/// own left-to-right replacement
fn replace_all(p: &str, from: &str, to: &str) -> String {
    let mut out = String::new(); let mut rest = p;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix(from) { out += to; rest = r } else { let c = rest.chars().next().unwrap(); out.push(c); rest = &rest[c.len_utf8()..] }
    }
    out
}
trait IntoPair { fn into_pair(self) -> (String, String); }
impl IntoPair for (&str, &str) { fn into_pair(self) -> (String, String) { (self.0.into(), self.1.into()) } }
fn c17_paths(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let root = ctx.fresh_dir();
    let mut paths = small_paths(s);
    // find and replace
    let from = match s.below(6) {
        0 => (*s.pick(&["a", "b", "ab", "a\\", "b\\", "aa", "\\a", "é"])).to_string(),
        1 => "zzz".into(),
        _ => { let p = &s.pick(&paths).0; let c: Vec<(usize, char)> = p.char_indices().collect(); let e = s.usize(1, c.len()); let e = c.get(e).map(|x| x.0).unwrap_or(p.len()); if s.bool() { p[..e].to_string() } else { p.split('\\').next().unwrap().to_string() + if p.contains('\\') && s.bool() { "\\" } else { "" } } }
    };
    let to = match s.below(8) {
        0 => from.clone(),
        1 => (*s.pick(&["", "con\\", "x..", "q:", "\\", "A", "x\\\\y"])).to_string(),
        2 => s.pick(&paths).0.clone(),
        3 => from.to_uppercase(),
        _ => { let mut t = (*s.pick(&["c", "n", "new\\x", "b", "a", "deep\\er\\", "blk"])).to_string(); if from.ends_with('\\') && !t.ends_with('\\') { t.push('\\') } t }
    };
    let mut all = s.chance(1, 3);
    let no_move = s.chance(1, 3);
    let (mut from, mut to) = (from, to);
    if no_move && s.chance(1, 3) { (from, to) = (*s.pick(&[("ab", "ba"), ("a", "b"), ("aa", "ab"), ("b\\", "a\\"), ("a", "é")])).into_pair(); all = s.bool(); }
    if no_move && s.chance(3, 4) {
        // the targets exist, and so may the targets' targets
        let (f2, t2) = (from.replace('/', "\\"), to.replace('/', "\\"));
        let mut k = 0;
        while k < paths.len() && paths.len() < 14 {
            let (p, g) = paths[k].clone(); k += 1;
            let r = if all { replace_all(&p, &f2, &t2) } else { match p.strip_prefix(f2.as_str()) { Some(r) => format!("{t2}{r}"), None => continue } };
            if let Some(r) = ref_path(&r) { if r.len() < 150 && !paths.contains(&(r.clone(), g)) { paths.push((r, g)) } }
        }
    }
    if !no_move && s.chance(1, 12) {
        // two names that become the same one
        all = true;
        (from, to) = (*s.pick(&[("ab", ""), ("q", ""), ("q", "n"), ("\\", "n"), ("qq", "q")])).into_pair();
        let g = s.pick(&paths).1;
        let h = if s.chance(1, 4) { s.pick(&paths).1 } else { g };
        let (one, two) = match from.as_str() { "\\" => ("mm\\m".to_string(), "m\\mm".to_string()), f if to.is_empty() => (format!("{f}zw"), format!("z{f}w")), _ => (format!("z{from}w"), format!("z{to}w")) };
        for x in [(one, g), (two, h)] { if !paths.contains(&x) { paths.push(x) } }
    }
    if s.chance(1, 300) {
        let g = s.pick(&paths).1;
        for i in 0..s.usize(250, 270) { let p = match s.below(3) { 0 => format!("{from}m{i}"), 1 => format!("many\\t{i}"), _ => format!("a{i}") }; if let Some(p) = ref_path(&p) { if !paths.contains(&(p.clone(), g)) { paths.push((p, g)) } } }
        ctx.label("hundreds of tags");
    }
    let mut nodes = gen_nodes(s, paths.clone(), false, true);
    for n in &mut nodes { if s.chance(1, 25) { n.state = State::Damaged; damage(s, &mut n.bytes) } }
    let layers = if s.chance(1, 3) { 2 } else { 1 };
    let dirs: Vec<PathBuf> = (0..layers).map(|i| root.join(format!("d{i}"))).collect();
    for d in &dirs { std::fs::create_dir_all(d).unwrap() }
    let mut home: Vec<usize> = vec![];
    for n in &nodes {
        let d = s.usize(0, layers - 1); home.push(d);
        put(&dirs[d], &native(&n.name()), &n.bytes);
        if layers == 2 && d == 0 && s.chance(1, 6) { put(&dirs[1], &native(&n.name()), &n.bytes); ctx.label("shadowed copy") }
    }
    let threads = s.usize(1, 6);
    let filter_text = match s.below(5) { 0 => format!("*.{}", l.groups[nodes[0].g].name), 1 => "a*".into(), _ => "*".into() };
    let filter = TagFilter::new(&filter_text, None);
    // obstacles that only the file system knows
    let mut junk = vec![];
    if s.chance(1, 6) { junk.push((s.usize(0, layers - 1), "notes.txt".to_string())); }
    if s.chance(1, 5) { junk.push((s.usize(0, layers - 1), "blk".to_string())); junk.push((s.usize(0, layers - 1), "c".to_string())) }
    for (d, f) in &junk { if !dirs[*d].join(f).exists() { put(&dirs[*d], f, b"not a tag") } }
    let f2 = from.replace('/', "\\"); let t2 = to.replace('/', "\\");
    let mut want: Vec<(usize, String)> = vec![];
    let mut refuse: Option<String> = None;
    for (i, n) in nodes.iter().enumerate() {
        if !filter.passes(&tp(&n.path, n.g)) { continue }
        let r = if all { if !n.path.contains(&f2) { continue } replace_all(&n.path, &f2, &t2) } else { let Some(r) = n.path.strip_prefix(f2.as_str()) else { continue }; format!("{t2}{r}") };
        match ref_path(&r) {
            None => refuse = Some(format!("{r} is not a path")),
            Some(r) => {
                let exists = nodes.iter().any(|m| m.path == r && m.g == n.g);
                if no_move && !exists { refuse = Some(format!("{r} does not exist")) }
                if !no_move && exists { refuse = Some(format!("{r} exists")) }
                if !no_move && want.iter().any(|w| w.1 == r && nodes[w.0].g == n.g) { refuse = Some("collision".into()) }
                want.push((i, r));
            }
        }
    }
    if want.iter().any(|w| want.iter().any(|x| nodes[x.0].path == w.1 && nodes[x.0].g == nodes[w.0].g)) { ctx.label("targets that are sources themselves") }
    if refuse.as_deref() == Some("collision") { ctx.label("two names that become one") }
    if want.is_empty() && refuse.is_none() { refuse = Some("no matches".into()) }
    // targets in the way
    let mut obstacle = false; let mut maybe = false;
    if !no_move { for (i, r) in &want {
        let rel = native(&full(r, nodes[*i].g));
        let dir = &dirs[home[*i]];
        if let Some(dest) = { let c = dir.join(&rel); if s.chance(1, 40) { Some(c) } else { None } } { if !dest.exists() && std::fs::create_dir_all(dest.join("x")).is_ok() { ctx.label("a directory is in the way") } }
        if dir.join(&rel).is_dir() { if std::fs::read_dir(dir.join(&rel)).unwrap().all(|e| e.unwrap().path().is_dir()) { obstacle = true } else { maybe = true } }
        let mut up = std::path::Path::new(&rel).parent();
        while let Some(u) = up { if dir.join(u).is_file() { if junk.iter().any(|j| u == std::path::Path::new(&j.1)) { obstacle = true } else { maybe = true } } up = u.parent(); }
    } }
    let tree = VirtualTagsDirectory::new(&dirs, None).unwrap();
    let before: Vec<Files> = dirs.iter().map(|d| snapshot(d)).collect();
    let d = format!("find {from:?} replace {to:?} {} {} filter {filter_text} {threads} threads; {}", if all { "all" } else { "start" }, if no_move { "no move" } else { "move" }, nodes.iter().zip(&home).map(|(n, h)| format!("{h}:{}{} -> {:?}", n.name(), if n.state == State::Damaged { " (damaged)" } else { "" }, direct(n.g, &n.v))).collect::<Vec<_>>().join("; "));
    let r = refactor_paths_for_tag_tree(&from, &to, &tree, NonZeroUsize::new(threads).unwrap(), if all { ReplaceType::All } else { ReplaceType::Start }, no_move, &filter);
    let after: Vec<Files> = dirs.iter().map(|d| snapshot(d)).collect();
    for d in &dirs { ensure!(d.is_dir(), "the tags directory itself was removed", "{d:?}") }
    if f2 == t2 {
        ctx.label("nothing to do");
        ensure!(r.is_ok_and(|r| r.0.is_empty()) && after == before, "replacing text by itself did something", "{d}");
        ctx.drop_dir(&root);
        return Ok(())
    }
    match r {
        Err((e, _)) => {
            ensure!(refuse.is_some() || obstacle || maybe, "refactor refused", "{e}: {d}");
            for i in 0..layers { ensure!(after[i] == before[i], "refused refactor changed files", "{e}; layer {i} before {:?} after {:?}: {d}", before[i].keys().collect::<Vec<_>>(), after[i].keys().collect::<Vec<_>>()) }
            ctx.label(if refuse.is_some() { "refused" } else { "refused part-way" });
            if !want.is_empty() { ctx.nontrivial_s(&d) }
        }
        Ok((renamed, results)) => {
            ensure!(refuse.is_none(), "refactor should have been refused", "{refuse:?}: {d}");
            ensure!(!obstacle, "refactor past an obstacle", "{d}");
            let got: BTreeSet<(String, String)> = renamed.iter().map(|(a, b)| (a.to_internal_path(), b.to_internal_path())).collect();
            let exp: BTreeSet<(String, String)> = want.iter().map(|(i, r)| (nodes[*i].name(), full(r, nodes[*i].g))).collect();
            ensure!(got == exp && renamed.len() == want.len(), "reported renames differ from what the replacement says", "{got:?} vs {exp:?}: {d}");
            let map: HashMap<String, (u32, String)> = want.iter().map(|(i, r)| (nodes[*i].name(), (l.groups[nodes[*i].g].fourcc, r.clone()))).collect();
            let moved: BTreeSet<String> = want.iter().map(|(i, _)| l.groups[nodes[*i].g].name.clone()).collect();
            let mut exp_files = before.clone();
            let mut errors = BTreeSet::new();
            if !no_move { for (i, r) in &want { let b = exp_files[home[*i]].remove(&native(&nodes[*i].name())).unwrap(); exp_files[home[*i]].insert(native(&full(r, nodes[*i].g)), b); } }
            let mut rewritten = 0;
            for (i, n) in nodes.iter().enumerate() {
                let now = if no_move { n.path.clone() } else { want.iter().find(|w| w.0 == i).map(|w| w.1.clone()).unwrap_or(n.path.clone()) };
                if referenceable()[n.g].is_disjoint(&moved) { continue }
                if n.state == State::Damaged { errors.insert(full(&now, n.g)); continue }
                let mut v = canon_struct(l, l.groups[n.g].st, &n.v);
                let mut changed = false;
                refs_mut(l, l.groups[n.g].st, &mut v, false, &mut |_, _, r| if let V::Ref(f, p) = r { if let Some((_, q)) = map.get(&format!("{p}.{}", group_str(*f))) { if !p.is_empty() { *p = q.clone(); changed = true } } });
                if changed { rewritten += 1; exp_files[home[i]].insert(native(&full(&now, n.g)), encode_tag(l, &l.groups[n.g], &v)); }
            }
            for i in 0..layers {
                let (a, b) = (&after[i], &exp_files[i]);
                ensure!(a.keys().eq(b.keys()), "wrong files after the refactor", "layer {i}: {:?}, should be {:?}: {d}", a.keys().collect::<Vec<_>>(), b.keys().collect::<Vec<_>>());
                for (k, x) in a { ensure!(*x == b[k], "tag content after the refactor", "layer {i} {k}: {d}") }
            }
            let bad: BTreeSet<String> = results.iter().filter(|r| !r.1.errors.is_empty()).map(|r| r.0.to_internal_path()).collect();
            ensure!(bad == errors, "tags reported as failed", "{bad:?}, should be {errors:?}: {d}");
            if rewritten > 0 { ctx.label("references rewritten") }
            if !errors.is_empty() { ctx.label("unreadable tag reported") }
            ctx.label(if no_move { "references only" } else { "moved" });
            ctx.nontrivial_s(&d);
        }
    }
    ctx.sample(|| d);
    ctx.drop_dir(&root);
    Ok(())
}

// ------------------------------------------------------------------ C18
struct Known(BTreeSet<String>);
impl TagTree for Known {
    fn open_tag_copy(&self, p: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { Err(Error::TagNotFound(p.clone())) }
    fn files_in_path(&self, _: &str) -> Option<Vec<TagTreeItem>> { None }
    fn write_tag(&mut self, p: &TagPath, _: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> { Err(Error::TagNotFound(p.clone())) }
    fn is_read_only(&self) -> bool { true }
    fn contains(&self, p: &TagPath) -> bool { self.0.contains(&p.to_internal_path()) }
    fn root(&self) -> TagTreeItem { TagTreeItem::new(TagTreeItemType::Directory, std::borrow::Cow::Borrowed(""), None, self) }
    fn tree_type(&self) -> TreeType { TreeType::LooseTags }
    fn get_all_tags_with_filter(&self, _: Option<&TagFilter>) -> Vec<TagPath> { vec![] }
}
fn c18_groups(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let g = if s.chance(1, 8) { s.below(l.groups.len() as u64) as usize } else { *s.pick(referring()) };
    let st = l.groups[g].st;
    let mut v = { let budget = *s.pick(&[300i64, 2000]); Gen { budget, max_items: 3, fill_unstored: true, ..Default::default() }.structure(s, l, st) };
    if s.chance(1, 300) { let what = enlarge(s, l, st, &mut v, 60_000, &[]); ctx.label(size_class(&what)) }
    // two groups some field of this tag allows, or any
    let cand: Vec<u32> = referenceable()[g].iter().map(|n| l.fourcc_of[n]).collect();
    let pick = |s: &mut Src| if !cand.is_empty() && !s.chance(1, 8) { *s.pick(&cand) } else if s.chance(1, 6) { 0 } else { l.groups[s.below(l.groups.len() as u64) as usize].fourcc };
    let (from, to) = (pick(s), pick(s));
    let base = ["a", "b\\c", "d"];
    refs_mut(l, st, &mut v, false, &mut |_, _, r| match s.below(6) { 0 => *r = V::Ref(from, String::new()), 1 => (), 2 => *r = V::Ref(to, (*s.pick(&base)).into()), _ => *r = V::Ref(from, (*s.pick(&base)).into()) });
    let mut known = BTreeSet::new();
    for b in base { if s.bool() { known.insert(format!("{b}.{}", group_str(to))); } if s.bool() { known.insert(format!("{b}.{}", group_str(from))); } }
    let access = s.bool();
    let before = super::tagfile::build(l, &l.groups[g], &OPS[g], &v)?;
    let v0 = get_struct(l, st, before.as_dynamic(), "").map_err(|e| Fail::new("field cannot be read by name", e))?;
    let mut want = v0.clone();
    let (mut changed, mut kept, mut ros) = (0, 0, 0);
    refs_mut(l, st, &mut want, false, &mut |allowed, ro, r| if let V::Ref(f, p) = r {
        if from == to || *f != from { return }
        let ok = allowed.iter().any(|a| l.fourcc_of[a] == to) && (p.is_empty() || known.contains(&format!("{p}.{}", group_str(to))));
        if ro { ros += 1 }
        if ok && (access || !ro) { *f = to; changed += 1 } else { kept += 1 }
    });
    let mut t = before;
    let tree = Known(known.clone());
    let (gf, gt) = (make_ref(from, "").group(), make_ref(to, "").group());
    let d = format!("{} -> {} in {}, {changed} eligible, {kept} of the group not, targets {known:?}", group_str(from), group_str(to), l.groups[g].name);
    let r = refactor_groups_for_block(t.as_mut_dynamic(), gf, gt, &tree, access);
    let got = get_struct(l, st, t.as_dynamic(), "").map_err(|e| Fail::new("field cannot be read by name", e))?;
    if got != want { fail!("wrong references changed", "{}: {d}", first_diff(l, st, &got, &want, "").unwrap_or_default()) }
    ensure!(r == (changed > 0), "change reported wrongly", "{r}: {d}");
    let r2 = refactor_groups_for_block(t.as_mut_dynamic(), gf, gt, &tree, access);
    ensure!(!r2 && get_struct(l, st, t.as_dynamic(), "").unwrap() == want, "repeating the refactor changes something", "{d}");
    if changed > 0 { ctx.label("changed") } if kept > 0 { ctx.label("ineligible references") } if ros > 0 { ctx.label("read-only references") }
    if changed + kept > 0 { ctx.nontrivial_s(&format!("{d} {want:?}")) }
    ctx.sample(|| d);
    Ok(())
}

// ------------------------------------------------------------------ C24
fn list_7z(b: &[u8]) -> Result<Vec<(String, Vec<u8>)>, String> {
    let mut out = vec![];
    let mut r = sevenz_rust::SevenZReader::new(std::io::Cursor::new(b), b.len() as u64, sevenz_rust::Password::empty()).map_err(|e| e.to_string())?;
    r.for_each_entries(|e, rd| { let mut v = vec![]; std::io::Read::read_to_end(rd, &mut v)?; out.push((e.name().to_string(), v)); Ok(true) }).map_err(|e| e.to_string())?;
    Ok(out)
}
pub fn compare_archive(bytes: &[u8], want: &BTreeMap<String, Vec<u8>>, d: &str) -> R {
    let got = list_7z(bytes).map_err(|e| Fail::new("archive cannot be read", e))?;
    let names: Vec<&String> = got.iter().map(|g| &g.0).collect();
    let set: BTreeSet<&String> = names.iter().cloned().collect();
    ensure!(set.len() == names.len(), "archive holds an entry twice", "{names:?}: {d}");
    ensure!(set.iter().cloned().eq(want.keys()), "archive does not hold the dependency closure", "{names:?}, should be {:?}: {d}", want.keys().collect::<Vec<_>>());
    for (n, b) in &got { ensure!(*b == want[n], "archived tag differs", "{n}: {d}") }
    Ok(())
}
fn c24_tag(s: &mut Src, ctx: &mut Ctx) -> R {
    let root = ctx.fresh_dir();
    let many = s.chance(1, 60);
    let nodes = if many { gen_many(s) } else {
        let paths = gen_paths(s, 1, 8);
        let states = s.chance(1, 3);
        gen_nodes(s, paths, states, false)
    };
    let nodes = if many || s.chance(2, 3) { drop_dangling(nodes) } else { nodes };
    let layers = s.usize(1, 2);
    let dirs = place(s, &root, &nodes, layers);
    let tree = VirtualTagsDirectory::new(&dirs, None).unwrap();
    let level = s.below(11) as u32;
    let lv = LZMACompressionLevel::new(level);
    ensure!(lv.is_ok() == (level <= 9), "compression level", "{level}");
    let Ok(lv) = lv else { ctx.drop_dir(&root); return Ok(()) };
    let n = if many { &nodes[0] } else { &nodes[s.below(nodes.len() as u64) as usize] };
    let p = tp(&n.path, n.g);
    if many { ctx.label("hundreds of tags") }
    let d = format!("archive {} level {level}: {}", n.name(), nodes.iter().map(|n| format!("{} {:?} -> {:?}", n.name(), n.state, direct(n.g, &n.v))).collect::<Vec<_>>().join("; "));
    let w = walk(&nodes, &n.name());
    let by: HashMap<String, &Node> = nodes.iter().map(|n| (n.name(), n)).collect();
    let good = w.missing.is_empty() && w.damaged.is_empty() && w.through.keys().all(|k| by[k].state == State::Ok);
    let cached = s.bool();
    let r = if cached { archive_tag_to_7zip(&p, &CachingTagTree::new(tree, CachingTagTreeWriteStrategy::Manual), lv) } else { archive_tag_to_7zip(&p, &tree, lv) };
    match r {
        Err(e) => { ensure!(!good, "archive refused", "{e}: {d}"); ctx.label("refused"); }
        Ok(b) => {
            ensure!(good, "archive made although a tag is missing or unreadable", "{d}");
            let want: BTreeMap<String, Vec<u8>> = w.through.keys().map(|k| (native(k), by[k].bytes.clone())).collect();
            compare_archive(&b, &want, &d)?;
            ctx.label("archived");
            if want.len() > 1 { ctx.nontrivial_s(&d); ctx.label("archive of several tags") }
        }
    }
    ctx.sample(|| d);
    ctx.drop_dir(&root);
    Ok(())
}
/// remove references to tags that are not there
pub fn drop_dangling(mut nodes: Vec<Node>) -> Vec<Node> {
    let l = layout();
    let there: BTreeSet<String> = nodes.iter().filter(|n| n.state == State::Ok).map(|n| n.name()).collect();
    for n in &mut nodes {
        refs_mut(l, l.groups[n.g].st, &mut n.v, false, &mut |_, _, r| if let V::Ref(f, p) = r { if !there.contains(&format!("{p}.{}", group_str(*f))) { p.clear() } });
        if n.state == State::Ok { n.bytes = file_of(n.g, &n.v) }
    }
    nodes
}
pub fn default_file(g: usize) -> &'static Vec<u8> {
    static D: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    &D.get_or_init(|| { let l = layout(); (0..l.groups.len()).map(|g| file_of(g, &default_struct(l, l.groups[g].st))).collect() })[g]
}
pub fn engine_names() -> Vec<String> { layout().json["engines"].as_object().unwrap().keys().cloned().collect() }
pub fn engine(name: &str) -> &'static ringhopper_primitives::engine::Engine { ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().find(|e| e.name == name).expect("engine") }
pub fn required(name: &str, kind: &str) -> Vec<String> {
    let r = &layout().json["engines"][name]["required"];
    let mut v: Vec<String> = r["all"].as_array().unwrap().iter().chain(r[kind].as_array().unwrap()).map(|x| x.as_str().unwrap().replace('/', "\\").to_lowercase()).collect();
    v.sort(); v.dedup(); v
}
/// a scenario with everything its engine needs, and perhaps one tag lost
pub struct Needs { pub engine: String, pub kind: usize, pub nodes: Vec<Node>, pub scenario: String, pub required: Vec<String>, pub lost: Option<String> }
pub fn gen_needs(s: &mut Src) -> Needs {
    let l = layout();
    let sg = l.group_by_name["scenario"];
    let engines = engine_names();
    let en = s.pick(&engines).clone();
    let kind = s.below(3) as usize;
    let mut paths = gen_paths(s, 0, 4);
    let scen = ("levels\\test\\x".to_string(), sg);
    paths.retain(|p| *p != scen);
    paths.push(scen.clone());
    let mut nodes = gen_nodes(s, paths, false, false);
    let last = nodes.len() - 1;
    let tyf = l.structs[l.groups[sg].st].fields.iter().position(|f| f.matcher == "type").unwrap();
    for n in &mut nodes { if n.g == sg { if let V::St(x) = &mut n.v { x[tyf] = V::N(kind as u32) } } }
    let req = required(&en, ["sp", "mp", "ui"][kind]);
    let used: Vec<String> = nodes.iter().map(|n| n.name()).collect();
    for r in &req {
        if used.contains(r) { continue }
        let (p, g) = r.rsplit_once('.').unwrap();
        let g = l.group_by_name[g];
        let mut v = default_struct(l, l.groups[g].st);
        // some of them refer to other tags
        if s.chance(1, 12) { v = small_value(s, g); let t: Vec<(String, usize)> = nodes.iter().map(|n| (n.path.clone(), n.g)).collect(); plant_refs(s, g, &mut v, &t, false); }
        let bytes = file_of(g, &v);
        nodes.push(Node { path: p.into(), g, v, state: State::Ok, bytes });
    }
    let scenario = nodes[last].name();
    nodes = drop_dangling(nodes);
    let lost = if s.chance(1, 4) { let i = s.below(nodes.len() as u64) as usize; nodes[i].state = *s.pick(&[State::Missing, State::Damaged]); if nodes[i].state == State::Damaged { let mut b = nodes[i].bytes.clone(); damage(s, &mut b); nodes[i].bytes = b; } Some(nodes[i].name()) } else { None };
    Needs { engine: en, kind, nodes, scenario, required: req, lost }
}
impl Needs {
    /// what the scenario needs, and whether all of it can be found and (where it may refer to more) read
    pub fn want(&self) -> (BTreeSet<String>, bool) {
        let mut want: BTreeSet<String> = BTreeSet::new();
        let mut good = true;
        for r in self.required.iter().chain([&self.scenario]) { let w = walk(&self.nodes, r); good &= w.missing.is_empty() && w.damaged.is_empty(); want.extend(w.through.into_keys()); }
        (want, good)
    }
}
fn c24_map(s: &mut Src, ctx: &mut Ctx) -> R {
    let root = ctx.fresh_dir();
    let needs = gen_needs(s);
    let (want, good) = needs.want();
    let Needs { engine: en, kind, nodes, scenario, required: req, lost } = needs;
    let dirs = place(s, &root, &nodes, 1);
    let tree = CachingTagTree::new(VirtualTagsDirectory::new(&dirs, None).unwrap(), CachingTagTreeWriteStrategy::Manual);
    let sg = layout().group_by_name["scenario"];
    let sp = tp("levels\\test\\x", sg);
    let by: HashMap<String, &Node> = nodes.iter().map(|n| (n.name(), n)).collect();
    let readable = good && want.iter().all(|k| by[k].state == State::Ok);
    let d = format!("map archive for {en} kind {kind}: {} needed tags, closure of {}, lost {lost:?}; scenario -> {:?}", req.len(), want.len(), direct(sg, &by[&scenario].v));
    match recursively_get_dependencies_for_map(&sp, &tree, engine(&en)) {
        Err(e) => ensure!(!good, "map dependencies refused", "{e}: {d}"),
        Ok(m) => { ensure!(good, "map dependencies complete although a tag is missing", "{d}"); let m = names(&m); ensure!(m == want, "map dependencies differ", "missing {:?}, extra {:?}: {d}", want.difference(&m).collect::<Vec<_>>(), m.difference(&want).collect::<Vec<_>>()) }
    }
    if s.chance(1, 3) { match archive_map_to_7zip(&sp, &tree, engine(&en), LZMACompressionLevel::new(s.below(3) as u32).unwrap()) {
        Err(e) => ensure!(!readable, "archive refused", "{e}: {d}"),
        Ok(b) => { ensure!(readable, "archive made although a tag is missing or unreadable", "{d}"); compare_archive(&b, &want.iter().map(|k| (native(k), by[k].bytes.clone())).collect(), &d)?; ctx.label("map archived") }
    } }
    // a tag that is not a scenario is refused
    if let Some(o) = nodes.iter().find(|n| n.g != sg && n.state == State::Ok) { ensure!(recursively_get_dependencies_for_map(&tp(&o.path, o.g), &tree, engine(&en)).is_err(), "map dependencies of a tag that is no scenario", "{}", o.name()); }
    ctx.label(["singleplayer", "multiplayer", "user interface"][kind]);
    if lost.is_some() { ctx.label("lost tag") }
    ctx.nontrivial_s(&d);
    ctx.sample(|| d);
    ctx.drop_dir(&root);
    Ok(())
}

pub static C16: Check = Check {
    id: "C16", terminates: true,
    subs: &[Sub { name: "graph", quick: 6_000, thorough: 300_000, run: c16_graph }, Sub { name: "many", quick: 400, thorough: 3000, run: c16_many }],
    rule: "A case is a tree of 1 to 9 tags on disk (one or two layers) with generated contents whose references mostly point into the tree, some of the tags missing or damaged; direct, recursive (strict and tolerant) and reverse dependencies of every tag, with and without the cache, are compared with a walk over the generated graph; some trees hold 130 to 300 tags in chains or at random. Non-trivial: some tag refers to a tag; distinct by graph.",
    assumptions: &["a tag of a group that cannot refer to anything is not read, so damage in it goes unnoticed", "a reference of a group that no field of its tag may hold is not looked for by the reverse search"],
};
pub static C17: Check = Check {
    id: "C17", terminates: true,
    subs: &[Sub { name: "paths", quick: 9_000, thorough: 400_000, run: c17_paths }],
    rule: "A case is a tree of 1 to 8 tags with overlapping names in one or two layers, a find/replace pair, mode, filter and thread count, possibly with damaged tags, colliding targets and files or directories in the way; all files afterwards are compared with a model. Non-trivial: at least one tag matches; distinct by tree and arguments.",
    assumptions: &["of a tag present in two layers the copy with priority is renamed; the shadowed copy is left alone", "references of a group their field may not hold are not generated"],
};
pub static C18: Check = Check {
    id: "C18", terminates: true,
    subs: &[Sub { name: "groups", quick: 240_000, thorough: 4_000_000, run: c18_groups }],
    rule: "A case is one generated tag whose references are set to the group changed from, to, or others, empty or to paths that exist or not; every value of the tag is compared with a reference rewrite. Non-trivial: the tag holds a reference of the group; distinct by contents.",
    assumptions: &[],
};
pub static C24: Check = Check {
    id: "C24", terminates: true,
    subs: &[Sub { name: "tag", quick: 2_500, thorough: 60_000, run: c24_tag }, Sub { name: "map", quick: 1_500, thorough: 40_000, run: c24_map }],
    rule: "A case is a generated tree and one tag archived at a level 0 to 9, or a scenario with the tags one of the 21 engines needs (from the definitions snapshot) and its map dependencies; some trees lack a tag or hold a damaged one. The archive is unpacked with the 7z reader and compared name by name, byte by byte; some trees hold hundreds of tags. Non-trivial: an archive of two or more tags, or a map; distinct by tree.",
    assumptions: &["the 7z reader of the sevenz-rust crate"],
};

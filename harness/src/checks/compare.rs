//! C19: comparison of tags.
use super::tagfile::{build, gen_settings, pick_group};
use crate::engine::*;
use crate::layout::*;
use crate::value::*;
use ringhopper::tag::compare::{compare_tags, TagComparisonDifference};
use ringhopper_primitives::dynamic::*;
use ringhopper_primitives::primitive::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
enum Kind { Value, Bytes, Length(usize, usize) }
#[derive(Clone, Debug)]
struct Diff { path: String, depth: usize, kind: Kind }
/// What differs, worked out from the values alone.
struct Model<'a> { l: &'a Layout, cache: bool, out: Vec<Diff>, lists: Vec<(String, usize, usize)> }
impl Model<'_> {
    fn hit(&mut self, at: &str, depth: usize, kind: Kind) { self.out.push(Diff { path: at.to_string(), depth, kind }) }
    fn structure(&mut self, st: usize, a: &V, b: &V, at: &str, depth: usize) {
        let (V::St(x), V::St(y)) = (a, b) else { panic!() };
        for ((f, a), b) in self.l.structs[st].fields.iter().zip(x).zip(y) {
            if f.exclude || matches!(f.ty, Ty::Pad(_)) || (f.cache_only && !self.cache) { continue }
            let p = if at.is_empty() { f.matcher.clone() } else { format!("{at}.{}", f.matcher) };
            match (f.count, a, b) {
                (Count::One, _, _) => self.one(&f.ty, a, b, &p, depth + 1),
                (Count::Bounds, V::Arr(m), V::Arr(n)) => { self.lists.push((p.clone(), 2, 2)); for (k, w) in ["lower", "upper"].iter().enumerate() { self.one(&f.ty, &m[k], &n[k], &format!("{p}.{w}"), depth + 2) } }
                (_, V::Arr(m), V::Arr(n)) => { self.lists.push((p.clone(), m.len(), n.len())); for k in 0..m.len() { self.one(&f.ty, &m[k], &n[k], &format!("{p}[{k}]"), depth + 2) } }
                _ => panic!()
            }
        }
    }
    fn one(&mut self, ty: &Ty, a: &V, b: &V, at: &str, depth: usize) {
        match (ty, a, b) {
            (Ty::Prim { unit: Scalar::F32, .. }, V::W(m), V::W(n)) => {
                let same = m.iter().zip(n).all(|(a, b)| a == b || f32::from_bits(*a) == f32::from_bits(*b) || (f32::from_bits(*a).is_nan() && f32::from_bits(*b).is_nan()));
                if !same { self.hit(at, depth, Kind::Value) }
            }
            (Ty::Bits(i), V::N(m), V::N(n)) => for o in &self.l.bits[*i].options {
                if o.exclude || (o.cache_only && !self.cache) { continue }
                if (m & o.value != 0) != (n & o.value != 0) { self.hit(&format!("{at}.{}", o.matcher), depth + 1, Kind::Value) }
            },
            (Ty::Struct(i), _, _) => self.structure(*i, a, b, at, depth),
            (Ty::Refl(i), V::Refl(m), V::Refl(n)) => {
                self.lists.push((at.to_string(), m.len(), n.len()));
                if m.len() != n.len() { self.hit(at, depth, Kind::Length(m.len(), n.len())) }
                for k in 0..m.len().min(n.len()) { self.structure(*i, &m[k], &n[k], &format!("{at}[{k}]"), depth + 1) }
            }
            (Ty::Data("UTF16String"), V::Data(m), V::Data(n)) => if m != n { self.hit(at, depth, Kind::Value) },
            (Ty::Data(_), V::Data(m), V::Data(n)) => if m.len() != n.len() { self.hit(at, depth, Kind::Length(m.len(), n.len())) } else if m != n { self.hit(at, depth, Kind::Bytes) },
            _ => if a != b { self.hit(at, depth, Kind::Value) }
        }
    }
}
/// change some fields of a value
pub fn edit(s: &mut Src, l: &Layout, st: usize, v: &mut V, rate: u64, g: &mut Gen) {
    let V::St(vs) = v else { return };
    for (f, v) in l.structs[st].fields.iter().zip(vs) {
        if f.exclude || matches!(f.ty, Ty::Pad(_)) || (f.cache_only && !g.fill_unstored) { continue }
        let mut one = |s: &mut Src, v: &mut V| match (&f.ty, v) {
            (Ty::Struct(i), v) => edit(s, l, *i, v, rate, g),
            (Ty::Refl(i), V::Refl(a)) => {
                if s.below(100) < rate { match s.below(4) {
                    0 if !a.is_empty() => { a.pop(); }
                    1 if !a.is_empty() => { let k = s.usize(0, a.len() - 1); a.remove(k); }
                    2 if a.len() > 1 => { let k = s.usize(0, a.len() - 2); a.swap(k, k + 1) }
                    _ => { let k = s.usize(0, a.len()); let x = if !a.is_empty() && s.bool() { a[k.min(a.len() - 1)].clone() } else { default_struct(l, *i) }; a.insert(k, x) }
                } }
                for x in a { edit(s, l, *i, x, rate, g) }
            }
            (t, v) => if s.below(100) < rate { match (t, &mut *v, s.below(3)) {
                (Ty::Prim { unit, .. }, V::W(w), 0 | 1) => { let k = s.usize(0, w.len() - 1); let m = match unit.width() { 1 => 0xFF, 2 => 0xFFFF, _ => u32::MAX }; if *unit != Scalar::Group { w[k] = (w[k] ^ (1 << s.below(unit.width() as u64 * 8))) & m } else { w[k] = g.scalar(s, Scalar::Group) } }
                (Ty::Data(d), V::Data(b), 0 | 1) if *d != "UTF16String" => match s.below(3) { 0 if !b.is_empty() => { let k = s.usize(0, b.len() - 1); b[k] ^= 1 << s.below(8) } 1 if !b.is_empty() => { b.pop(); } _ => b.push(s.u8()) },
                (Ty::Bits(i), V::N(n), 0 | 1) => { let o: Vec<u32> = l.bits[*i].options.iter().filter(|o| !o.exclude && (g.fill_unstored || !o.cache_only)).map(|o| o.value).collect(); if !o.is_empty() { *n ^= *s.pick(&o) } }
                (Ty::Ref(a), V::Ref(f, p), 0 | 1) => match s.below(3) { 0 => *f = l.fourcc_of[s.pick(a)], 1 if !p.is_empty() => { p.push('y') } _ => p.clear() },
                (t, v, _) => *v = g.one(s, l, t)
            } }
        };
        match v { V::Arr(a) => for x in a { one(s, x) }, x => one(s, x) }
    }
}
fn nan_free(v: &V, l: &Layout, st: usize) -> bool {
    let mut m = Model { l, cache: true, out: vec![], lists: vec![] };
    let _ = &mut m;
    fn go(l: &Layout, st: usize, v: &V) -> bool {
        let V::St(vs) = v else { return true };
        l.structs[st].fields.iter().zip(vs).all(|(f, v)| {
            let one = |v: &V| match (&f.ty, v) { (Ty::Prim { unit: Scalar::F32, .. }, V::W(w)) => w.iter().all(|x| !f32::from_bits(*x).is_nan()), (Ty::Struct(i), v) => go(l, *i, v), (Ty::Refl(i), V::Refl(a)) => a.iter().all(|x| go(l, *i, x)), _ => true };
            match v { V::Arr(a) => a.iter().all(one), v => one(v) }
        })
    }
    go(l, st, v)
}
/// Add digits to floating point numbers beyond what a tag can hold.
fn blur(d: &mut dyn DynamicTagData, n: &mut u64) {
    if let Some(a) = d.as_array_mut() { for i in 0..a.len() { blur(a.get_at_index_mut(i).unwrap(), n) } return }
    if let Some(v) = d.as_any_mut().downcast_mut::<f64>() { *n = mix(*n); let w = *v * (1.0 + (*n % 1000) as f64 * 1e-13); if w as f32 == *v as f32 { *v = w } return }
    if let Some(v) = d.as_any_mut().downcast_mut::<Vector3D>() { for c in [&mut v.x, &mut v.y, &mut v.z] { blur(c, n) } return }
    if let Some(v) = d.as_any_mut().downcast_mut::<Vector2D>() { for c in [&mut v.x, &mut v.y] { blur(c, n) } return }
    if let Some(v) = d.as_any_mut().downcast_mut::<Plane3D>() { blur(&mut v.vector, n); blur(&mut v.d, n); return }
    if let Some(v) = d.as_any_mut().downcast_mut::<Plane2D>() { blur(&mut v.vector, n); blur(&mut v.d, n); return }
    if let Some(v) = d.as_any_mut().downcast_mut::<Quaternion>() { for c in [&mut v.x, &mut v.y, &mut v.z, &mut v.w] { blur(c, n) } return }
    if let Some(v) = d.as_any_mut().downcast_mut::<Matrix3x3>() { for c in &mut v.vectors { blur(c, n) } return }
    if let Some(v) = d.as_any_mut().downcast_mut::<ColorRGBFloat>() { for c in [&mut v.red, &mut v.green, &mut v.blue] { blur(c, n) } return }
    if let Some(v) = d.as_any_mut().downcast_mut::<ColorARGBFloat>() { for c in [&mut v.alpha, &mut v.red, &mut v.green, &mut v.blue] { blur(c, n) } return }
    if d.data_type() == DynamicTagDataType::Block { for f in d.fields() { if let Some(x) = d.get_field_mut(f) { blur(x, n) } } }
}
fn show(d: &[TagComparisonDifference]) -> String { d.iter().take(12).map(|d| format!("{}@{}: {}", d.path, d.depth, d.difference)).collect::<Vec<_>>().join("; ") }
fn paths(d: &[TagComparisonDifference]) -> Vec<&str> { d.iter().map(|d| d.path.as_str()).collect() }
fn inside(q: &str, list: &str) -> bool { q == list || (q.starts_with(list) && matches!(q.as_bytes()[list.len()], b'[' | b'.')) }

fn c19_compare(s: &mut Src, ctx: &mut Ctx) -> R { c19_with(s, ctx, false) }
fn c19_large(s: &mut Src, ctx: &mut Ctx) -> R { c19_with(s, ctx, true) }
fn c19_with(s: &mut Src, ctx: &mut Ctx, large: bool) -> R {
    let l = layout();
    let (_, g, o) = pick_group(s);
    let mut gen = gen_settings(s);
    gen.raw = false;
    gen.nan = s.chance(1, 6);
    gen.fill_unstored = s.bool();
    if large { gen.budget = 60 }
    let mut v = gen.structure(s, l, g.st);
    if large { let what = enlarge(s, l, g.st, &mut v, 120_000, &gen.paths); ctx.label(size_class(&what)) }
    let mut w = v.clone();
    if large { for _ in 0..s.usize(0, 4) { touch(s, l, g.st, &mut w, &mut gen) } }
    else {
        let rate = *s.pick(&[0u64, 1, 3, 10, 40, 100]);
        gen.budget = 4000;
        edit(s, l, g.st, &mut w, rate, &mut gen);
    }
    let (a, b) = (build(l, g, o, &v)?, build(l, g, o, &w)?);
    // read back: what the fields really hold
    let get = |t: &dyn DynamicTagData| get_struct(l, g.st, t, &g.name).map_err(|e| Fail::new("field cannot be read by name", e));
    let (va, vb) = (get(a.as_dynamic())?, get(b.as_dynamic())?);
    let bytes = |t: &dyn ringhopper_primitives::tag::PrimaryTagStructDyn| t.to_tag_file().ok();
    let before = (bytes(a.as_ref()), bytes(b.as_ref()));
    let mut total = 0;
    for cache in [false, true] {
        let mut m = Model { l, cache, out: vec![], lists: vec![] };
        m.structure(g.st, &va, &vb, "", 0);
        total = total.max(m.out.len());
        let d = compare_tags(a.as_ref(), b.as_ref(), cache, false);
        let (want, got): (Vec<&str>, Vec<&str>) = (m.out.iter().map(|d| d.path.as_str()).collect(), paths(&d));
        if want != got {
            let (sw, sg): (std::collections::BTreeSet<_>, std::collections::BTreeSet<_>) = (want.iter().collect(), got.iter().collect());
            let missing: Vec<_> = sw.difference(&sg).take(5).collect(); let extra: Vec<_> = sg.difference(&sw).take(5).collect();
            ensure!(missing.is_empty(), "difference not reported", "{}: {missing:?}; cache_only {cache}", g.name);
            ensure!(extra.is_empty(), "difference reported where there is none", "{}: {extra:?}: {}", g.name, show(&d.iter().filter(|d| !sw.contains(&d.path.as_str())).cloned().collect::<Vec<_>>()));
            fail!("differences reported twice or out of order", "{}: {got:?} vs {want:?}", g.name);
        }
        for (w, d) in m.out.iter().zip(&d) {
            ensure_eq!(w.depth, d.depth, "difference reported at the wrong depth", "{} {}", g.name, d.path);
            match &w.kind {
                Kind::Length(x, y) => ensure!(d.difference.contains("length is different") && d.difference.contains(&format!("{x} != {y}")), "length difference not reported as one", "{} {}: {} ({x}, {y})", g.name, d.path, d.difference),
                _ => ensure!(!d.difference.contains("length is different") && !d.difference.contains("minimized"), "difference reported as one of length", "{} {}: {}", g.name, d.path, d.difference)
            }
            ensure!(!d.difference.contains("forged"), "bytes differ but their hashes do not", "{} {}: {}", g.name, d.path, d.difference);
            // the path is one that leads to the field
            for (t, tn) in [(&a, "first"), (&b, "second")] {
                let n = resolve(t.as_dynamic(), &d.path);
                ensure!(n, "path does not lead anywhere", "{} {} in the {tn} tag", g.name, d.path);
            }
        }
        // the other way round
        let r = compare_tags(b.as_ref(), a.as_ref(), cache, false);
        ensure!(paths(&r) == got, "comparison the other way round names other fields", "{}: {:?} vs {got:?}", g.name, paths(&r));
        // shortened
        let lists: BTreeMap<&str, (usize, usize)> = m.lists.iter().map(|(p, a, b)| (p.as_str(), (*a, *b))).collect();
        for (dir, x, y) in [("", &a, &b), ("reverse ", &b, &a)] {
            let s = compare_tags(x.as_ref(), y.as_ref(), cache, true);
            let mut seen = vec![false; got.len()];
            for e in &s {
                if e.difference.contains("minimized") {
                    let Some((m, n)) = lists.get(e.path.as_str()) else { fail!("merged entry that is not a list", "{} {}", g.name, e.path) };
                    ensure!(*m.max(n) > 1, "merged entry for a list of one", "{} {}", g.name, e.path);
                    let n: usize = e.difference.split(|c: char| !c.is_ascii_digit()).find_map(|t| t.parse().ok()).unwrap_or(0);
                    let mut k = 0;
                    for (i, q) in got.iter().enumerate() { if inside(q, &e.path) { ensure!(!seen[i], "difference merged twice", "{} {dir}{q}", g.name); seen[i] = true; k += 1 } }
                    ensure!(n >= 2 && n <= k, "merged entry counts wrong", "{} {dir}{}: {} for {k} differences", g.name, e.path, e.difference);
                    let depth = e.path.matches(|c| c == '.' || c == '[').count() + 1;
                    ensure_eq!(e.depth, depth, "merged entry at the wrong depth", "{} {}", g.name, e.path);
                    ctx.label("merged entry");
                } else {
                    let Some(i) = got.iter().position(|q| *q == e.path) else { fail!("shortened comparison reports something else", "{} {dir}{}", g.name, e.path) };
                    ensure!(!seen[i], "difference reported twice", "{} {dir}{}", g.name, e.path);
                    seen[i] = true;
                }
            }
            if let Some(i) = seen.iter().position(|x| !x) { fail!("shortened comparison hides a difference", "{} {dir}{}", g.name, got[i]) }
            // one entry per list at most
            for (p, (m, n)) in &lists { if *m.min(n) > 1 { let k = s.iter().filter(|e| inside(&e.path, p)).count(); ensure!(k <= 1, "list not merged in the shortened comparison", "{} {dir}{p}: {k} entries", g.name) } }
        }
    }
    ctx.label(match total { 0 => "no difference", 1 => "one difference", 2..=5 => "2-5 differences", _ => "more" });
    if total > 0 { ctx.nontrivial_s(&format!("{}{total}{:?}", g.name, before.0.as_ref().map(|b| hash_bytes(b)))); ctx.label(&format!("group {}", g.name)); }
    ctx.sample(|| format!("{}: {total} differences, e.g. {}", g.name, show(&compare_tags(a.as_ref(), b.as_ref(), true, false)[..1.min(total)])));
    // identical copies
    let mut c = build(l, g, o, &v)?;
    for x in [false, true] { let d = compare_tags(a.as_ref(), c.as_ref(), x, s.bool()); ensure!(d.is_empty(), "identical tags differ", "{}: {}", g.name, show(&d)); let d = compare_tags(a.as_ref(), a.as_ref(), x, s.bool()); ensure!(d.is_empty(), "identical tags differ", "{} with itself: {}", g.name, show(&d)) }
    // digits a tag cannot hold make no difference
    if nan_free(&va, l, g.st) {
        let mut n = s.u64();
        let dynamic: &mut dyn DynamicTagData = c.as_mut_dynamic();
        for f in dynamic.fields() { if let Some(x) = dynamic.get_field_mut(f) { blur(x, &mut n) } }
        let d = compare_tags(a.as_ref(), c.as_ref(), true, false);
        ensure!(d.is_empty(), "tags that are saved alike differ", "{}: {}", g.name, show(&d));
    }
    ensure!((bytes(a.as_ref()), bytes(b.as_ref())) == before, "comparison changed a tag", "{}", g.name);
    Ok(())
}
/// Follow a reported path by field names and indices only.
pub fn resolve(d: &dyn DynamicTagData, path: &str) -> bool {
    let mut cur = d;
    for part in path.split('.') {
        let (name, rest) = part.split_at(part.find('[').unwrap_or(part.len()));
        let Some(x) = cur.get_field(name) else { return false };
        cur = x;
        for i in rest.split('[').skip(1) {
            let Some(i) = i.strip_suffix(']').and_then(|i| i.parse().ok()) else { return false };
            let Some(x) = cur.as_array().and_then(|a| a.get_at_index(i)) else { return false };
            cur = x;
        }
    }
    true
}
pub static C19: Check = Check {
    id: "C19", terminates: true,
    subs: &[Sub { name: "compare", quick: 96_000, thorough: 800_000, run: c19_compare }, Sub { name: "large", quick: 4000, thorough: 60_000, run: c19_large }],
    rule: "A case is one generated tag and an edited copy (nothing changed up to everything changed), compared in full and shortened, with and without cache-only fields, both ways round, against differences computed from the values; in some cases (large) one list or data holds hundreds of items. Non-trivial: at least one difference; distinct by group, number of differences and content.",
    assumptions: &["numbers are compared with the precision a tag file has, zero equals minus zero"],
};

//! C09: field selectors.  C10: default values.
use super::tagfile::{build, gen_settings, pick_group};
use crate::engine::*;
use crate::layout::*;
use crate::value::*;
use ringhopper::tag::default::{group_has_defaults, set_all_defaults_for_tag, unset_all_defaults_for_tag};
use ringhopper_primitives::dynamic::DynamicTagData;

fn addr(d: &dyn DynamicTagData) -> usize { d as *const dyn DynamicTagData as *const () as usize }

// ------------------------------------------------------------------ C09: the reference evaluator
#[derive(Clone, Copy)]
enum Node<'a> { One(&'a Ty), Many(&'a Field), Flag }
#[derive(Clone, Debug, PartialEq)]
enum Step { Field(usize), Item(usize), Flag(u32) }
enum Ev<'a> { Hit { node: Node<'a>, at: Vec<Step>, addr: usize, kind: String }, Err }
/// A parsed selector: names and index lists, or None when it is not one.
#[derive(Clone, Debug)]
enum Tok { Name(String), Index(String) }
/// None: malformed whatever it is applied to; the flag says that the spelling is one the tool may or may not tolerate
fn tokens(t: &str) -> (Vec<Result<Tok, ()>>, bool) {
    let (mut out, mut odd) = (vec![], false);
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '.' { out.push(Err(())); return (out, odd) }
        if c[i] == '[' {
            let Some(e) = (i + 1..c.len()).find(|k| c[*k] == ']') else { out.push(Err(())); return (out, odd) };
            out.push(Ok(Tok::Index(c[i + 1..e].iter().collect())));
            i = e + 1;
            if i < c.len() { if c[i] == '.' { i += 1; if i == c.len() { odd = true } } else if c[i] != '[' { odd = true } }
        } else {
            let e = (i..c.len()).find(|k| c[*k] == '.' || c[*k] == '[').unwrap_or(c.len());
            out.push(Ok(Tok::Name(c[i..e].iter().collect())));
            i = e;
            if i < c.len() && c[i] == '.' { i += 1; if i == c.len() || c[i] == '[' { odd = true } }
        }
    }
    (out, odd)
}
/// indices a bracket denotes, ascending, once each
fn indices(t: &str, len: usize) -> Option<Vec<usize>> {
    if t.chars().any(|c| !c.is_ascii_digit() && !",-e*".contains(c)) { return None }
    let mut set = std::collections::BTreeSet::new();
    for r in t.split(',') {
        if r == "*" { set.extend(0..len); continue }
        if len == 0 { return None }
        let n = |x: &str| if x == "e" { Some(len - 1) } else if !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit()) { x.parse::<usize>().ok() } else { None };
        let parts: Vec<&str> = r.split('-').collect();
        let (a, b) = match parts[..] { [a] => (n(a)?, n(a)?), [a, b] => (n(a)?, n(b)?), _ => return None };
        if a > b || b >= len { return None }
        set.extend(a..=b);
    }
    Some(set.into_iter().collect())
}
fn is_array(n: Node) -> bool { matches!(n, Node::Many(_) | Node::One(Ty::Refl(_))) }
fn eval<'a>(l: &'a Layout, node: Node<'a>, d: &dyn DynamicTagData, toks: &[Result<Tok, ()>], at: &mut Vec<Step>, out: &mut Vec<Ev<'a>>) {
    let (tok, rest) = match toks.split_first() { None => { out.push(Ev::Hit { node, at: at.clone(), addr: addr(d), kind: format!("{:?}", d.data_type()) }); return } Some((Err(()), _)) => { out.push(Ev::Err); return } Some((Ok(t), r)) => (t, r) };
    match tok {
        Tok::Index(t) => {
            let Some(arr) = (if is_array(node) { d.as_array() } else { None }) else { out.push(Ev::Err); return };
            let Some(ix) = indices(t, arr.len()) else { out.push(Ev::Err); return };
            for i in ix {
                at.push(Step::Item(i));
                let item: Node = match node { Node::Many(f) => Node::One(&f.ty), Node::One(Ty::Refl(s)) => Node::One(struct_ty(*s)), _ => unreachable!() };
                match arr.get_at_index(i) { Some(x) => eval(l, item, x, rest, at, out), None => out.push(Ev::Err) }
                at.pop();
            }
        }
        Tok::Name(n) => {
            let (step, next): (Step, Node) = match node {
                Node::One(Ty::Struct(s)) => match l.structs[*s].fields.iter().position(|f| !f.exclude && !matches!(f.ty, Ty::Pad(_)) && f.matcher == *n) {
                    Some(i) => { let f = &l.structs[*s].fields[i]; (Step::Field(i), if matches!(f.count, Count::One) { Node::One(&f.ty) } else { Node::Many(f) }) }
                    None => { out.push(Ev::Err); return }
                },
                Node::One(Ty::Bits(b)) => match l.bits[*b].options.iter().find(|o| !o.exclude && o.matcher == *n) { Some(o) => (Step::Flag(o.value), Node::Flag), None => { out.push(Ev::Err); return } },
                Node::Many(f) if matches!(f.count, Count::Bounds) && (n == "lower" || n == "upper") => (Step::Item((n == "upper") as usize), Node::One(&f.ty)),
                _ => { out.push(Ev::Err); return }
            };
            at.push(step);
            match d.get_field(n) { Some(x) => eval(l, next, x, rest, at, out), None => out.push(Ev::Err) }
            at.pop();
        }
    }
}
fn struct_ty(i: usize) -> &'static Ty {
    static T: std::sync::OnceLock<Vec<Ty>> = std::sync::OnceLock::new();
    &T.get_or_init(|| (0..layout().structs.len()).map(Ty::Struct).collect())[i]
}
fn slot<'v>(v: &'v mut V, at: &[Step]) -> &'v mut V {
    let mut cur = v;
    for s in at { cur = match (s, cur) { (Step::Field(i), V::St(f)) => &mut f[*i], (Step::Item(i), V::Arr(f) | V::Refl(f)) => &mut f[*i], (Step::Flag(_), v) => v, (s, v) => panic!("{s:?} {v:?}") } }
    cur
}
fn gen_index(s: &mut Src, len: usize) -> String {
    let n = *s.pick(&[1usize, 1, 2, 3, 5]);
    let mut t = vec![];
    for _ in 0..n {
        let top = len.max(1) as u64 + s.chance(1, 12) as u64;
        let one = |s: &mut Src| if s.chance(1, 5) { "e".to_string() } else if s.chance(1, 20) { format!("0{}", s.below(top)) } else { s.below(top).to_string() };
        t.push(match s.below(6) { 0 => "*".into(), 1 | 2 => one(s), 3 | 4 => { let (a, b) = (s.below(top), s.below(top)); if s.chance(1, 5) { format!("{}-e", a.min(b)) } else { format!("{}-{}", a.min(b), a.max(b)) } } _ => { let (a, b) = (one(s), one(s)); format!("{a}-{b}") } });
    }
    t.join(",")
}
fn gen_selector(s: &mut Src, l: &Layout, st: usize, v: &V) -> String {
    let mut t = String::new();
    let (mut st, mut v) = (st, v);
    loop {
        let V::St(vs) = v else { break };
        let f: Vec<usize> = l.structs[st].fields.iter().enumerate().filter(|(_, f)| !f.exclude && !matches!(f.ty, Ty::Pad(_))).map(|(i, _)| i).collect();
        if f.is_empty() { break }
        // prefer fields that lead somewhere
        let deep: Vec<usize> = f.iter().copied().filter(|i| match &vs[*i] { V::Refl(a) => !a.is_empty(), V::St(_) | V::Arr(_) => true, _ => false }).collect();
        let i = if !deep.is_empty() && s.chance(3, 4) { *s.pick(&deep) } else { *s.pick(&f) };
        let fd = &l.structs[st].fields[i];
        if !t.is_empty() { t.push('.') }
        t += &fd.matcher;
        v = &vs[i];
        if let (Ty::Struct(x), Count::One) = (&fd.ty, fd.count) { st = *x; if s.chance(1, 8) { break } continue }
        match v {
            V::Refl(a) | V::Arr(a) => {
                if s.chance(1, 8) { break }
                if matches!(fd.count, Count::Bounds) && s.bool() { t += if s.bool() { ".lower" } else { ".upper" }; }
                else { t += &format!("[{}]", gen_index(s, a.len())); }
                if a.is_empty() { if s.bool() { break } if let Ty::Refl(x) = fd.ty { if let Some(f) = l.structs[x].fields.iter().find(|f| !f.exclude && !matches!(f.ty, Ty::Pad(_))) { t.push('.'); t += &f.matcher; } } break }
                match (&fd.ty, &a[0]) { (Ty::Refl(x) | Ty::Struct(x), V::St(_)) => { st = *x; v = &a[s.below(a.len() as u64) as usize]; if s.chance(1, 10) { break } } _ => break }
            }
            _ => { if let Ty::Bits(b) = fd.ty { if s.chance(3, 4) { let o: Vec<&OptDef> = l.bits[b].options.iter().filter(|o| !o.exclude).collect(); if !o.is_empty() { t.push('.'); t += &s.pick(&o).matcher; } } } break }
        }
    }
    t
}
fn gen_bad(s: &mut Src, t: String) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..s.usize(1, 3) {
        let i = s.below(c.len() as u64 + 1) as usize;
        match s.below(5) {
            0 if i < c.len() => { c.remove(i); }
            1 if i < c.len() => c[i] = *s.pick(&['[', ']', '.', ',', '-', '*', 'e', '0', '9', 'x', 'é', '語', ' ', '+']),
            2 => { let k = s.below(c.len() as u64 + 1) as usize; let (a, b) = (i.min(k), i.max(k)); let part: Vec<char> = c[a..b].to_vec(); for (n, x) in part.into_iter().enumerate() { c.insert(a + n, x) } }
            3 => { for x in s.pick(&["[0]", "[]", "[*]", "[99999999999999999999999]", "[0-0-0]", "..", ".", "[-1]", "[0-]", "[,]", "[1-0]", "[0,0]", "[e]", "[0", "]", ".lower", ".é[0]"]).chars().rev() { c.insert(i, x) } }
            _ => c.insert(i, *s.pick(&['[', ']', '.', ',', '-', '*', 'e', '0', '9', 'x', 'é', '語', ' ']))
        }
    }
    c.into_iter().collect()
}
fn c09_select(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let (_, g, o) = pick_group(s);
    let mut gen = gen_settings(s);
    let v = gen.structure(s, l, g.st);
    let mut tag = build(l, g, o, &v)?;
    let mut mirror = get_struct(l, g.st, tag.as_dynamic(), &g.name).map_err(|e| Fail::new("field cannot be read by name", e))?;
    for _ in 0..6 {
        let mut sel = gen_selector(s, l, g.st, &mirror);
        let bad = s.chance(1, 3);
        if bad { sel = gen_bad(s, sel) }
        let (toks, odd) = tokens(&sel);
        let mut want = vec![];
        eval(l, Node::One(struct_ty(g.st)), tag.as_dynamic(), &toks, &mut vec![], &mut want);
        let what = format!("{} {sel:?}", g.name);
        if odd {
            // tolerated or refused, but nothing else
            ctx.label("loosely spelled");
            let mut got = vec![];
            tag.as_dynamic().foreach(&sel, |r| { got.push(r.ok().map(addr)); true });
            let hits: Vec<usize> = want.iter().filter_map(|e| match e { Ev::Hit { addr, .. } => Some(*addr), _ => None }).collect();
            ensure!(got.iter().flatten().all(|a| hits.contains(a)), "selector visits something else", "{what}");
            continue
        }
        let errs = want.iter().filter(|e| matches!(e, Ev::Err)).count();
        let hits = want.len() - errs;
        if hits > 1 { ctx.nontrivial_s(&format!("{what}{hits}")) }
        ctx.label(if errs > 0 { "with an error" } else { match hits { 0 => "nothing selected", 1 => "one selected", 2..=5 => "2-5 selected", _ => "6+ selected" } });
        ctx.sample(|| format!("{what}: {hits} selected, {errs} errors"));
        // 1. reading
        let list = |w: &Vec<Ev>| w.iter().map(|e| match e { Ev::Hit { at, .. } => format!("{at:?}"), _ => "error".into() }).collect::<Vec<_>>().join(" ");
        let mut got: Vec<Option<(usize, String)>> = vec![];
        tag.as_dynamic().foreach(&sel, |r| { got.push(r.ok().map(|d| (addr(d), format!("{:?}", d.data_type())))); true });
        let exp: Vec<Option<(usize, String)>> = want.iter().map(|e| match e { Ev::Hit { addr, kind, .. } => Some((*addr, kind.clone())), Ev::Err => None }).collect();
        ensure!(got.len() == exp.len() && got == exp, if errs > 0 { "malformed selector not reported as such" } else { "selector visits other fields" }, "{what}: {} visits of which {} errors, expected {}", got.len(), got.iter().filter(|x| x.is_none()).count(), list(&want));
        ensure_eq!(tag.as_dynamic().validate_matcher(&sel).is_ok(), errs == 0, "selector judged wrongly", "{what}");
        // 2. stopping early
        if want.len() > 1 {
            let k = 1 + s.below(want.len() as u64) as usize;
            let mut n = 0;
            tag.as_dynamic().foreach(&sel, |_| { n += 1; n < k });
            ensure_eq!(n, k, "does not stop when told to", "{what}");
            let mut n = 0;
            tag.as_mut_dynamic().foreach_mut(&sel, |_| { n += 1; n < k });
            ensure_eq!(n, k, "does not stop when told to", "{what} (writing)");
        }
        // 3. writing
        let mut news: Vec<Option<V>> = vec![];
        for e in &want {
            let Ev::Hit { node, at, .. } = e else { news.push(None); continue };
            let old = slot(&mut mirror, at).clone();
            news.push(match node {
                Node::Flag => { let Some(Step::Flag(bit)) = at.last() else { unreachable!() }; let V::N(n) = old else { unreachable!() }; Some(V::N(n ^ bit)) }
                Node::One(Ty::Struct(_) | Ty::Refl(_) | Ty::Pad(_)) | Node::Many(_) => None,
                Node::One(ty) => { let mut g2 = Gen::default(); Some(g2.one(s, l, ty)) }
            });
            if let Some(Some(n)) = news.last() { *slot(&mut mirror, at) = n.clone() }
        }
        let mut i = 0; let mut bad = None; let mut seen = vec![];
        tag.as_mut_dynamic().foreach_mut(&sel, |r| {
            let k = i; i += 1;
            match r {
                Ok(d) => {
                    seen.push(Some((addr(d), format!("{:?}", d.data_type()))));
                    if let (Some(Some(n)), Some(Ev::Hit { node, at, .. })) = (news.get(k), want.get(k)) {
                        match (node, n) {
                            (Node::Flag, V::N(x)) => { let Some(Step::Flag(bit)) = at.last() else { unreachable!() }; match d.as_any_mut().downcast_mut::<bool>() { Some(b) => *b = x & bit != 0, None => bad = Some("a flag is not a bool".to_string()) } }
                            (Node::One(ty), n) => if let Err(e) = set_one(l, ty, n, d, "selected") { bad = Some(e) },
                            _ => ()
                        }
                    }
                }
                Err(_) => seen.push(None)
            }
            true
        });
        if let Some(e) = bad { fail!("field cannot be set", "{what}: {e}") }
        ensure!(seen == exp, "selector visits other fields when writing", "{what}: {} visits, expected {}", seen.len(), list(&want));
        let now = get_struct(l, g.st, tag.as_dynamic(), &g.name).map_err(|e| Fail::new("field cannot be read by name", e))?;
        ensure!(now == mirror, "write through a selector changes something else", "{what}: {}", first_diff(l, g.st, &now, &mirror, &g.name).unwrap_or_default());
    }
    Ok(())
}
/// Field names listed, found by name, and found by address agree; list editing works at any place.
fn c09_names(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let i = s.cycle(l.groups.len() as u64) as usize;
    let (g, o) = (&l.groups[i], &crate::gen_table::OPS[i]);
    let v = gen_settings(s).structure(s, l, g.st);
    let mut tag = build(l, g, o, &v)?;
    fn walk(l: &Layout, st: usize, d: &dyn DynamicTagData, at: &str) -> R {
        let want: Vec<&str> = l.structs[st].fields.iter().filter(|f| !f.exclude && !matches!(f.ty, Ty::Pad(_))).map(|f| f.matcher.as_str()).collect();
        let mut got = d.fields().to_vec(); let mut w = want.clone(); got.sort(); w.sort();
        ensure_eq!(got, w, "fields listed differ", "{at}");
        for n in &want {
            let Some(f) = d.get_field(n) else { fail!("field cannot be found by its listed name", "{at}.{n}") };
            ensure_eq!(d.name_of_field_from_ptr(f), *n, "field has another name when found by address", "{at}");
        }
        ensure!(d.get_field("").is_none() && d.get_field("no such field").is_none() && d.get_field(&want.first().map(|n| format!("{n} ")).unwrap_or_default()).is_none(), "unknown field found", "{at}");
        for f in l.structs[st].fields.iter().filter(|f| !f.exclude) {
            match &f.ty {
                Ty::Struct(x) if matches!(f.count, Count::One) => walk(l, *x, d.get_field(&f.matcher).unwrap(), &format!("{at}.{}", f.matcher))?,
                Ty::Refl(x) => { let a = d.get_field(&f.matcher).unwrap().as_array().unwrap(); for k in 0..a.len() { walk(l, *x, a.get_at_index(k).unwrap(), &format!("{at}.{}[{k}]", f.matcher))? } }
                Ty::Bits(b) => { let bf = d.get_field(&f.matcher).unwrap(); if let Count::One = f.count { let mut got = bf.fields().to_vec(); got.sort(); let mut w: Vec<&str> = l.bits[*b].options.iter().filter(|o| !o.exclude).map(|o| o.matcher.as_str()).collect(); w.sort(); w.dedup(); got.dedup(); ensure_eq!(got, w, "flags listed differ", "{at}.{}", f.matcher); } }
                _ => ()
            }
        }
        Ok(())
    }
    walk(l, g.st, tag.as_dynamic(), &g.name)?;
    ctx.nontrivial_s(&format!("{}{}", g.name, richness(l, g.st, &v)));
    // edit one list
    let lists: Vec<usize> = l.structs[g.st].fields.iter().enumerate().filter(|(_, f)| !f.exclude && matches!(f.ty, Ty::Refl(_))).map(|(i, _)| i).collect();
    if lists.is_empty() { ctx.label("no list"); return Ok(()) }
    let fi = *s.pick(&lists);
    let f = &l.structs[g.st].fields[fi]; let Ty::Refl(x) = f.ty else { unreachable!() };
    let mut mirror = get_struct(l, g.st, tag.as_dynamic(), &g.name).map_err(|e| Fail::new("field cannot be read by name", e))?;
    for _ in 0..s.usize(1, 4) {
        let V::St(m) = &mut mirror else { unreachable!() };
        let V::Refl(items) = &mut m[fi] else { unreachable!() };
        let at = s.usize(0, items.len());
        let blank = default_struct(l, x);
        let mut donor = (o.default)();
        let nv = Gen { budget: 400, ..Default::default() }.structure(s, l, x);
        { let r = donor.as_mut_dynamic().get_field_mut(&f.matcher).unwrap().as_reflexive_mut().unwrap(); r.insert_default(0); set_struct(l, x, &nv, r.get_at_index_mut(0).unwrap(), "item").map_err(|e| Fail::new("field cannot be set by name", e))?; }
        let nv = get_struct(l, x, donor.as_dynamic().get_field(&f.matcher).unwrap().as_array().unwrap().get_at_index(0).unwrap(), "item").map_err(|e| Fail::new("field cannot be read by name", e))?;
        let r = tag.as_mut_dynamic().get_field_mut(&f.matcher).unwrap().as_reflexive_mut().unwrap();
        match s.below(3) {
            0 => { r.insert_default(at); items.insert(at, blank); }
            1 => { r.insert_copy(at, donor.as_dynamic().get_field(&f.matcher).unwrap().as_array().unwrap().get_at_index(0).unwrap()); items.insert(at, nv.clone()); }
            _ => { let dr = donor.as_mut_dynamic().get_field_mut(&f.matcher).unwrap().as_array_mut().unwrap(); r.insert_moved(at, dr.get_at_index_mut(0).unwrap()); items.insert(at, nv.clone()); }
        }
        let now = get_struct(l, g.st, tag.as_dynamic(), &g.name).map_err(|e| Fail::new("field cannot be read by name", e))?;
        ensure!(now == mirror, "inserting an item changes something else", "{}.{} at {at}: {}", g.name, f.matcher, first_diff(l, g.st, &now, &mirror, &g.name).unwrap_or_default());
    }
    ctx.label("list edited");
    Ok(())
}

// ------------------------------------------------------------------ C10
fn fl(w: u32) -> f32 { f32::from_bits(w) }
fn unit_of(f: &Field) -> Option<(Scalar, usize, &'static str)> { if let Ty::Prim { unit, n, name } = &f.ty { Some((*unit, *n, *name)) } else { None } }
/// default of a field, as the words of the value
fn default_words(f: &Field) -> Option<Vec<u32>> {
    let d = f.def.as_ref()?;
    let (u, _, name) = unit_of(f)?;
    Some(d.iter().map(|x| if name == "Angle" { (*x as f32).to_radians().to_bits() } else if u == Scalar::F32 { (*x as f32).to_bits() } else { *x as i64 as u32 }).collect())
}
pub fn words(v: &V) -> Vec<u32> { match v { V::W(w) => w.clone(), V::Arr(a) => a.iter().flat_map(words).collect(), _ => vec![] } }
pub fn set_words(v: &mut V, w: &[u32]) { match v { V::W(x) => { let n = x.len(); x.copy_from_slice(&w[..n]) } V::Arr(a) => { let mut k = 0; for i in a { let n = words(i).len(); set_words(i, &w[k..k + n]); k += n; } } _ => () } }
fn eq_words(u: Scalar, a: &[u32], b: &[u32]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(a, b)| if u == Scalar::F32 { fl(*a) == fl(*b) } else { a == b }) }
fn generic(l: &Layout, st: usize, v: &mut V, fill: bool) {
    let V::St(vs) = v else { return };
    for (f, v) in l.structs[st].fields.iter().zip(vs) {
        if f.exclude { continue }
        if let Some(d) = default_words(f) {
            let u = unit_of(f).unwrap().0;
            let zero = vec![0u32; d.len()];
            let cur = words(v);
            if fill { if eq_words(u, &cur, &zero) { set_words(v, &d) } } else if eq_words(u, &cur, &d) { set_words(v, &zero) }
            continue
        }
        match (&f.ty, v) { (Ty::Struct(x), V::Arr(a)) => for i in a { generic(l, *x, i, fill) }, (Ty::Struct(x), v) => generic(l, *x, v, fill), (Ty::Refl(x), V::Refl(a)) => for i in a { generic(l, *x, i, fill) }, _ => () }
    }
}
/// the field at a dotted path of blocks below a structure
pub fn at<'v>(l: &Layout, st: usize, v: &'v mut V, path: &str) -> &'v mut V {
    let (mut st, mut cur) = (st, v);
    for n in path.split('.') {
        let i = l.structs[st].fields.iter().position(|f| f.matcher == n).unwrap_or_else(|| panic!("{path} in {}", l.structs[st].name));
        if let Ty::Struct(x) | Ty::Refl(x) = l.structs[st].fields[i].ty { st = x }
        let V::St(vs) = cur else { panic!() };
        cur = &mut vs[i];
    }
    cur
}
pub fn st_of(l: &Layout, st: usize, path: &str) -> usize { let mut st = st; for n in path.split('.') { let f = l.structs[st].fields.iter().find(|f| f.matcher == n).unwrap(); if let Ty::Struct(x) | Ty::Refl(x) = f.ty { st = x } } st }
pub fn getf(l: &Layout, st: usize, v: &mut V, p: &str) -> f32 { let V::W(w) = at(l, st, v, p) else { panic!("{p}") }; fl(w[0]) }
pub fn setf(l: &Layout, st: usize, v: &mut V, p: &str, x: f32) { let V::W(w) = at(l, st, v, p) else { panic!("{p}") }; w[0] = x.to_bits() }
/// together: all zero -> the defaults, all default -> zero
fn jointly(l: &Layout, st: usize, v: &mut V, p: &[&str], d: &[f32], fill: bool) {
    let cur: Vec<f32> = p.iter().map(|p| getf(l, st, v, p)).collect();
    if fill { if cur.iter().all(|x| *x == 0.0) { for (p, d) in p.iter().zip(d) { setf(l, st, v, p, *d) } } } else if cur.iter().zip(d).all(|(a, b)| a == b) { for p in p { setf(l, st, v, p, 0.0) } }
}
fn scale_pair(l: &Layout, st: usize, v: &mut V, pu: &str, pv: &str, fill: bool) {
    let (a, b) = (getf(l, st, v, pu), getf(l, st, v, pv));
    let ok = |x: f32| x == 0.0 || x == 1.0;
    let (a, b) = if fill { match (a == 0.0, b == 0.0) { (true, true) => (1.0, 1.0), (true, false) => (b, b), (false, true) => (a, a), _ => (a, b) } } else if ok(a) && ok(b) { (0.0, 0.0) } else { (a, b) };
    setf(l, st, v, pu, a); setf(l, st, v, pv, b);
}
fn bounds(l: &Layout, st: usize, v: &mut V, p: &str) -> [Vec<f32>; 2] { let V::Arr(a) = at(l, st, v, p) else { panic!("{p}") }; let g = |i: usize| words(&a[i]).iter().map(|w| fl(*w)).collect(); [g(0), g(1)] }
fn set_bound(l: &Layout, st: usize, v: &mut V, p: &str, i: usize, x: &[f32]) { let V::Arr(a) = at(l, st, v, p) else { panic!("{p}") }; let w: Vec<u32> = x.iter().map(|x| x.to_bits()).collect(); set_words(&mut a[i], &w) }
pub fn each<'v>(l: &Layout, st: usize, v: &'v mut V, p: &str) -> (usize, &'v mut Vec<V>) { let s = st_of(l, st, p); let V::Refl(a) = at(l, st, v, p) else { panic!("{p}") }; (s, a) }
pub fn object_path(l: &Layout, st: usize) -> Option<(String, usize)> {
    if l.structs[st].name == "Object" { return Some((String::new(), st)) }
    let f = l.structs[st].fields.iter().find(|f| matches!(f.ty, Ty::Struct(x) if ["Object", "Unit", "Item", "Device", "BasicObject"].contains(&l.structs[x].name.as_str())))?;
    let Ty::Struct(x) = f.ty else { return None };
    let (p, s) = object_path(l, x)?;
    Some((if p.is_empty() { f.matcher.clone() } else { format!("{}.{p}", f.matcher) }, s))
}
fn sound_defaults(class: &str) -> (f32, f32, f32) {
    let (lo, hi) = match class {
        "device_machinery" | "device_force_field" | "ambient_machinery" | "ambient_nature" | "device_door" | "music" | "device_nature" => (0.9, 5.0),
        "weapon_empty" | "weapon_idle" | "weapon_ready" | "weapon_reload" | "weapon_charge" | "weapon_overheat" => (1.0, 9.0),
        "scripted_dialog_other" | "scripted_dialog_player" | "game_event" | "unit_dialog" | "scripted_dialog_force_unspatialized" => (3.0, 20.0),
        "first_person_damage" | "object_impacts" | "ambient_computers" | "particle_impacts" | "device_computers" | "slow_particle_impacts" => (0.5, 3.0),
        "vehicle_engine" | "projectile_impact" | "vehicle_collision" => (1.4, 8.0),
        "weapon_fire" => (4.0, 70.0), "scripted_effect" => (2.0, 5.0), "projectile_detonation" => (8.0, 120.0), "unit_footsteps" => (0.9, 10.0), c => panic!("class {c}")
    };
    let zero_gain = ["object_impacts", "particle_impacts", "slow_particle_impacts", "unit_dialog", "music", "ambient_nature", "ambient_machinery", "ambient_computers", "scripted_dialog_player", "scripted_dialog_other", "scripted_dialog_force_unspatialized", "scripted_effect"].contains(&class);
    (lo, hi, if zero_gain { 0.0 } else { 1.0 })
}
fn sound(l: &Layout, st: usize, v: &mut V, fill: bool) {
    let V::N(c) = *at(l, st, v, "sound_class") else { panic!() };
    let Ty::Enum(e) = l.structs[st].fields.iter().find(|f| f.matcher == "sound_class").unwrap().ty.clone() else { panic!() };
    let class = l.enums[e].options.iter().find(|o| o.value == c).unwrap().matcher.clone();
    let Ty::Bits(b) = l.structs[st].fields.iter().find(|f| f.matcher == "flags").unwrap().ty else { panic!() };
    let bit = l.bits[b].options.iter().find(|o| o.matcher == "split_long_sound_into_permutations").unwrap().value;
    let V::N(flags) = *at(l, st, v, "flags") else { panic!() };
    let split = flags & bit != 0;
    let (sp, ranges) = each(l, st, v, "pitch_ranges");
    for r in ranges {
        let n = getf(l, sp, r, "natural_pitch");
        let n = if n <= 0.0 { 1.0 } else { n };
        let [mut lo, mut up] = bounds(l, sp, r, "bend_bounds").map(|x| x[0]);
        if up < n { up = n } if lo > n { lo = n }
        if !fill && up == n && lo == 0.0 { up = 0.0 }
        set_bound(l, sp, r, "bend_bounds", 0, &[lo]); set_bound(l, sp, r, "bend_bounds", 1, &[up]);
        let V::W(w) = at(l, sp, r, "actual_permutation_count") else { panic!() };
        let actual = w[0] as usize;
        let (spm, perms) = each(l, sp, r, "permutations");
        let main = if split { actual } else { perms.len() };
        if perms.len() < main { continue }
        for p in &mut perms[..main] { jointly(l, spm, p, &["gain"], &[1.0], fill) }
        if !split { continue }
        if !fill { for p in &mut perms[main..] { setf(l, spm, p, "gain", 0.0) } }
        else { for i in 0..main {
            let gain = getf(l, spm, &mut perms[i], "gain");
            let mut seen = std::collections::HashSet::new(); let mut cur = i;
            loop { let V::W(w) = at(l, spm, &mut perms[cur], "next_permutation_index") else { panic!() }; let nx = w[0] as usize; if nx == 0xFFFF || nx >= perms.len() || !seen.insert(nx) { break } setf(l, spm, &mut perms[nx], "gain", gain); cur = nx; }
        } }
    }
    let (lo, hi, zg) = sound_defaults(&class);
    for (p, i, d) in [("distance_bounds", 0, lo), ("distance_bounds", 1, hi), ("random_pitch_bounds", 0, 1.0), ("random_pitch_bounds", 1, 1.0)] {
        let cur = bounds(l, st, v, p)[i][0];
        if fill && cur == 0.0 { set_bound(l, st, v, p, i, &[d]) } else if !fill && cur == d { set_bound(l, st, v, p, i, &[0.0]) }
    }
    jointly(l, st, v, &["zero_skip_fraction_modifier", "one_skip_fraction_modifier"], &[1.0, 1.0], fill);
    jointly(l, st, v, &["zero_pitch_modifier", "one_pitch_modifier"], &[1.0, 1.0], fill);
    jointly(l, st, v, &["zero_gain_modifier", "one_gain_modifier"], &[zg, 1.0], fill);
}
fn special(l: &Layout, g: &GroupDef, v: &mut V, fill: bool) -> bool {
    let st = g.st;
    match g.name.as_str() {
        "sound" => sound(l, st, v, fill),
        "light" => {
            let p = "color.color"; let [a, b] = bounds(l, st, v, p);
            let (from, to) = if fill { (0.0, 1.0) } else { (1.0, 0.0) };
            if a[1..].iter().chain(&b[1..]).all(|x| *x == from) { set_bound(l, st, v, p, 0, &[a[0], to, to, to]); set_bound(l, st, v, p, 1, &[b[0], to, to, to]); }
        }
        "particle" => {
            for i in 0..2 { let x = bounds(l, st, v, "radius_animation")[i][0]; let (from, to) = if fill { (0.0, 1.0) } else { (1.0, 0.0) }; if x == from { set_bound(l, st, v, "radius_animation", i, &[to]) } }
            let (a, b) = (getf(l, st, v, "fade_start_size"), getf(l, st, v, "fade_end_size"));
            if fill { if a == 0.0 || b == 0.0 { setf(l, st, v, "fade_start_size", 5.0); setf(l, st, v, "fade_end_size", 4.0) } }
            else if (a == 5.0 || a == 0.0) && (b == 4.0 || b == 0.0) { setf(l, st, v, "fade_start_size", 0.0); setf(l, st, v, "fade_end_size", 0.0) }
        }
        "light_volume" => jointly(l, st, v, &["perpendicular_brightness_scale", "parallel_brightness_scale"], &[1.0, 1.0], fill),
        "sound_looping" => jointly(l, st, v, &["zero_detail_sound_period", "one_detail_sound_period"], &[1.0, 1.0], fill),
        "lens_flare" => { let x = getf(l, st, v, "rotation_function_scale"); let full = 360f32.to_radians(); if fill { if x == 0.0 || x == 360.0 { setf(l, st, v, "rotation_function_scale", full) } } else if x == full || x == 360.0 { setf(l, st, v, "rotation_function_scale", 0.0) } }
        "shader_model" => scale_pair(l, st, v, "maps.map_u_scale", "maps.map_v_scale", fill),
        "shader_transparent_chicago" | "shader_transparent_generic" => { let (s, a) = each(l, st, v, "maps"); for m in a { scale_pair(l, s, m, "parameters.map_u_scale", "parameters.map_v_scale", fill) } }
        "shader_transparent_chicago_extended" => for p in ["2_stage_maps", "4_stage_maps"] { let p = if l.structs[st].fields.iter().any(|f| f.matcher == p) { p.to_string() } else { format!("_{p}") }; let (s, a) = each(l, st, v, &p); for m in a { scale_pair(l, s, m, "parameters.map_u_scale", "parameters.map_v_scale", fill) } },
        "model" | "gbxmodel" => {
            let pre = if g.name == "model" { "" } else { "model_geometry_part." };
            let (sg, geos) = each(l, st, v, "geometries");
            for geo in geos { let (sp, parts) = each(l, sg, geo, "parts"); for p in parts {
                let names = [format!("{pre}prev_filthy_part_index"), format!("{pre}next_filthy_part_index")];
                let cur: Vec<u32> = names.iter().map(|n| words(at(l, sp, p, n))[0]).collect();
                let (from, to) = if fill { (0, 255) } else { (255, 0) };
                if cur == [from, from] { for n in &names { set_words(at(l, sp, p, n), &[to]) } }
            } }
        }
        _ => {
            let Some((p, so)) = object_path(l, st) else { return false };
            let o = if p.is_empty() { v } else { at(l, st, v, &p) };
            let (r, b) = (getf(l, so, o, "render_bounding_radius"), getf(l, so, o, "bounding_radius"));
            if fill { if r == 0.0 { setf(l, so, o, "render_bounding_radius", b) } } else if r == b { setf(l, so, o, "render_bounding_radius", 0.0) }
        }
    }
    true
}
fn fill(l: &Layout, g: &GroupDef, v: &V) -> V { let mut v = v.clone(); generic(l, g.st, &mut v, true); special(l, g, &mut v, true); v }
fn strip(l: &Layout, g: &GroupDef, v: &V) -> V { let mut v = v.clone(); special(l, g, &mut v, false); generic(l, g.st, &mut v, false); v }
/// whether anything in this structure (or below) has a default
fn any_default(l: &Layout, st: usize) -> bool { l.structs[st].fields.iter().any(|f| f.def.is_some() || match f.ty { Ty::Struct(x) | Ty::Refl(x) => any_default(l, x), _ => false }) }
/// bias values towards zero and defaults
pub fn bias(s: &mut Src, l: &Layout, st: usize, v: &mut V, nice: &[f32], depth: u32) {
    let V::St(vs) = v else { return };
    for (f, v) in l.structs[st].fields.iter().zip(vs) {
        if f.exclude || *v == V::None { continue }
        if let Some(d) = default_words(f) {
            match s.below(6) { 0 => set_words(v, &vec![0; d.len()]), 1 | 2 => set_words(v, &d), 3 => { let mut w = vec![0; d.len()]; let i = s.below(d.len() as u64) as usize; w[i] = d[i]; set_words(v, &w) } 4 if unit_of(f).unwrap().0 == Scalar::F32 => { let mut w = d.clone(); let i = s.below(d.len() as u64) as usize; w[i] = fl(w[i]).to_bits() ^ 1; set_words(v, &w) } _ => () }
            continue
        }
        match (&f.ty, &mut *v) {
            (Ty::Prim { unit: Scalar::F32, .. }, v) => if s.chance(2, 3) { let n = words(v).len(); let same = s.bool(); let x = s.pick(nice).to_bits(); let w: Vec<u32> = (0..n).map(|_| if same { x } else { s.pick(nice).to_bits() }).collect(); set_words(v, &w) },
            (Ty::Struct(x), V::Arr(a)) => for i in a { bias(s, l, *x, i, nice, depth + 1) },
            (Ty::Struct(x), v) => bias(s, l, *x, v, nice, depth + 1),
            (Ty::Refl(x), V::Refl(a)) => for i in a { bias(s, l, *x, i, nice, depth + 1) },
            (Ty::Prim { n: 1, unit: Scalar::U16 | Scalar::I16 | Scalar::Index, .. }, v @ V::W(_)) => if s.chance(1, 2) { let x = *s.pick(&[0u32, 255, 0, 255, 1, 2, 3, 0xFFFF]); set_words(v, &[x]) },
            _ => ()
        }
    }
}
const SPECIAL: &[&str] = &["sound", "light", "particle", "light_volume", "shader_model", "shader_transparent_chicago", "shader_transparent_chicago_extended", "shader_transparent_generic", "lens_flare", "sound_looping", "model", "gbxmodel"];
/// sounds split into permutations that lead to further ones
fn link(s: &mut Src, l: &Layout, st: usize, v: &mut V) {
    let b = match l.structs[st].fields.iter().find(|f| f.matcher == "flags").unwrap().ty { Ty::Bits(b) => b, _ => panic!() };
    let bit = l.bits[b].options.iter().find(|o| o.matcher == "split_long_sound_into_permutations").unwrap().value;
    if let V::N(f) = at(l, st, v, "flags") { *f |= bit }
    let (rst, pst) = (l.st("SoundPitchRange"), l.st("SoundPermutation"));
    let n = s.usize(1, 2);
    let ranges = (0..n).map(|_| {
        let mut r = default_struct(l, rst);
        let k = s.usize(0, 7);
        let main = s.usize(0, k);
        let stray = s.chance(1, 4);
        let perms = (0..k).map(|i| {
            let mut p = default_struct(l, pst);
            setf(l, pst, &mut p, "gain", *s.pick(&[0.0, 1.0, 0.5, 2.0]));
            // usually an index past the main ones, each used once
            let nx = if stray { *s.pick(&[0xFFFF, 0, i as u32, k as u32, k as u32 - 1, 0x8000]) } else if i < main { (main + i < k).then_some((main + i) as u32).unwrap_or(0xFFFF) } else { (i + main.max(1) < k).then_some((i + main.max(1)) as u32).unwrap_or(0xFFFF) };
            *at(l, pst, &mut p, "next_permutation_index") = V::W(vec![nx]);
            p
        }).collect();
        *at(l, rst, &mut r, "permutations") = V::Refl(perms);
        *at(l, rst, &mut r, "actual_permutation_count") = V::W(vec![if stray && s.bool() { s.below(k as u64 + 3) as u32 } else { main as u32 }]);
        setf(l, rst, &mut r, "natural_pitch", *s.pick(&[0.0, 1.0, 2.0, -1.0]));
        r
    }).collect();
    *at(l, st, v, "pitch_ranges") = V::Refl(ranges);
}
fn c10_laws(s: &mut Src, ctx: &mut Ctx) -> R { c10_with(s, ctx, false) }
fn c10_large(s: &mut Src, ctx: &mut Ctx) -> R { c10_with(s, ctx, true) }
fn c10_with(s: &mut Src, ctx: &mut Ctx, large: bool) -> R {
    let l = layout();
    let i = if s.chance(1, 3) { l.group_by_name[*s.pick(SPECIAL)] } else { s.cycle(l.groups.len() as u64) as usize };
    let (g, o) = (&l.groups[i], &crate::gen_table::OPS[i]);
    let mut gen = gen_settings(s);
    gen.fill_unstored = s.chance(1, 4);
    if large { gen.budget = 60 }
    let mut v = gen.structure(s, l, g.st);
    if large { let what = enlarge(s, l, g.st, &mut v, 60_000, &gen.paths); ctx.label(size_class(&what)) }
    let mut nice = vec![0.0f32, 1.0, -0.0, 5.0, 4.0, 2.0, -1.0, 0.5, 1.5, 360.0, 360f32.to_radians(), 0.9, 1.4, 9.0, 3.0, 20.0, 8.0, 70.0, 120.0, 10.0];
    if g.name == "sound" { nice.extend([0.0, 1.0, 1.0, 0.0, 0.9, 5.0]) } else { nice.truncate(12); nice.extend([0.0, 1.0, 0.0, 1.0]) }
    bias(s, l, g.st, &mut v, &nice, 0);
    if g.name == "sound" && s.chance(3, 4) { link(s, l, g.st, &mut v); ctx.label("linked permutations") }
    let tag = build(l, g, o, &v)?;
    let start = get_struct(l, g.st, tag.as_dynamic(), &g.name).map_err(|e| Fail::new("field cannot be read by name", e))?;
    let bytes = tag.to_tag_file().map_err(|e| Fail::new("valid tag not written", e.to_string()))?;
    // -0 and 0 are the same value
    fn plain(v: &V) -> V { match v { V::W(w) => V::W(w.iter().map(|x| if *x == 0x8000_0000 { 0 } else { *x }).collect()), V::St(a) => V::St(a.iter().map(plain).collect()), V::Arr(a) => V::Arr(a.iter().map(plain).collect()), V::Refl(a) => V::Refl(a.iter().map(plain).collect()), v => v.clone() } }
    let apply = |ops: &str, from_file: bool| -> Result<V, Fail> {
        let mut t = if from_file { (o.read)(&bytes, ringhopper_primitives::tag::ParseStrictness::Strict).map_err(|e| Fail::new("own file not read back", e.to_string()))? } else { build(l, g, o, &start)? };
        for c in ops.chars() { match c { 'f' => set_all_defaults_for_tag(t.as_mut()), 's' => unset_all_defaults_for_tag(t.as_mut()), 'F' => (o.set_defaults)(t.as_mut()), _ => (o.unset_defaults)(t.as_mut()) } }
        let r = get_struct(l, g.st, t.as_dynamic(), &g.name).map_err(|e| Fail::new("field cannot be read by name", e))?;
        // after another trip through a file it is the same tag
        Ok(plain(&r))
    };
    let same = |a: &V, b: &V, sig: &str, what: &str| -> R { ensure!(a == b, sig, "{what}: {}", first_diff(l, g.st, a, b, &g.name).unwrap_or_default()); Ok(()) };
    let (wf, ws) = (plain(&fill(l, g, &start)), plain(&strip(l, g, &start)));
    let p0 = plain(&start);
    let (cf, cs) = (wf != p0, ws != p0);
    if cf || cs { ctx.nontrivial_b(&bytes); ctx.label(&format!("group {}", g.name)); }
    ctx.label(match (cf, cs) { (true, true) => "both change", (true, false) => "filling changes", (false, true) => "stripping changes", _ => "neither changes" });
    ctx.sample(|| format!("{}: filling changes something: {cf}; stripping: {cs}", g.name));
    let (f, t) = (apply("f", false)?, apply("s", false)?);
    same(&f, &wf, "filling defaults differs from the default tables", "filled")?;
    same(&t, &ws, "stripping defaults differs from the default tables", "stripped")?;
    // tags loaded from files have exactly the same defaults
    let want_f = plain(&canon_struct(l, g.st, &fill(l, g, &canon_struct(l, g.st, &start))));
    let got_f = apply("f", true)?;
    same(&plain(&canon_struct(l, g.st, &got_f)), &want_f, "filling differs for a tag loaded from a file", "filled")?;
    same(&plain(&canon_struct(l, g.st, &apply("s", true)?)), &plain(&canon_struct(l, g.st, &strip(l, g, &canon_struct(l, g.st, &start)))), "stripping differs for a tag loaded from a file", "stripped")?;
    // laws
    same(&apply("ff", false)?, &f, "filling twice differs from once", "fill fill")?;
    same(&apply("ss", false)?, &t, "stripping twice differs from once", "strip strip")?;
    same(&apply("sf", false)?, &plain(&fill(l, g, &strip(l, g, &start))), "filling after stripping", "strip fill")?;
    same(&apply("fs", false)?, &plain(&strip(l, g, &fill(l, g, &start))), "stripping after filling", "fill strip")?;
    if g.name != "sound" { same(&apply("sf", false)?, &f, "filling after stripping differs from filling", "strip fill")? }
    if !SPECIAL.contains(&g.name.as_str()) { same(&apply("fs", false)?, &t, "stripping after filling differs from stripping", "fill strip")? }
    // the type's own defaults are the generic ones
    let mut w = start.clone(); generic(l, g.st, &mut w, true);
    same(&apply("F", false)?, &plain(&w), "the type's own defaults differ from the tables", "set_defaults")?;
    let mut w = start.clone(); generic(l, g.st, &mut w, false);
    same(&apply("S", false)?, &plain(&w), "the type's own defaults differ from the tables", "unset_defaults")?;
    // advertised
    let has = any_default(l, g.st) || SPECIAL.contains(&g.name.as_str()) || object_path(l, g.st).is_some();
    ensure_eq!(group_has_defaults(tag_group(&g.name)), has, "advertised wrongly", "{}", g.name);
    if !has { ensure!(f == p0 && t == p0, "group without defaults changed", "{}", g.name) }
    Ok(())
}

pub static C09: Check = Check {
    id: "C09", terminates: true,
    subs: &[Sub { name: "select", quick: 180_000, thorough: 600_000, run: c09_select }, Sub { name: "names", quick: 123_000, thorough: 82_000, run: c09_names }],
    rule: "A case is one generated tag with six selectors (two thirds valid, one third mutated), each read, stopped early, and written through; or one generated tag whose field names are all listed, looked up, and found by address, with up to four list insertions. Non-trivial: a selector denoting more than one field; distinct by selector and count (for names, by group and content size).",
    assumptions: &["a trailing dot and a missing dot after ] are spellings the tool may tolerate or refuse"],
};
pub static C10: Check = Check {
    id: "C10", terminates: true,
    subs: &[Sub { name: "laws", quick: 60_000, thorough: 600_000, run: c10_laws }, Sub { name: "large", quick: 2000, thorough: 30_000, run: c10_large }],
    rule: "A case is one generated tag biased to zero and default values, filled, stripped, both twice and in both orders, in memory and loaded from a file, compared with an interpreter of the default tables; in some cases (large) one list of the tag holds hundreds of items. Non-trivial: filling or stripping changes the tag; distinct by tag bytes.",
    assumptions: &["the interpreter's tables of group-specific defaults are those of the original tools as the code documents them"],
};

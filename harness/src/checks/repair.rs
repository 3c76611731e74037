//! C25: repairing a tag makes it valid and changes nothing valid.
use super::geom::*;
use super::scripts::program;
use super::sounds::{judge, repaired};
use super::tree::*;
use super::verify::*;
use crate::engine::*;
use crate::layout::*;
use crate::value::*;
use ringhopper::definitions::{Scenario, Sound};
use ringhopper::tag::bludgeon::*;
use ringhopper::tag::scenario::decompile_scripts;
use std::collections::{BTreeMap, BTreeSet};

fn gid(n: &str) -> usize { layout().group_by_name[n] }
fn fl(x: u32) -> f32 { f32::from_bits(x) }
/// every number that is not one becomes zero, colours are between zero and one
fn fix_numbers(l: &Layout, st: usize, v: &mut V) {
    let V::St(vs) = v else { return };
    for (f, x) in l.structs[st].fields.iter().zip(vs) {
        let go = |x: &mut V| match (&f.ty, x) {
            (Ty::Prim { name, unit: Scalar::F32, .. }, V::W(w)) => for i in w.iter_mut() {
                if fl(*i).is_nan() { *i = 0 }
                if name.starts_with("Color") { if fl(*i) < 0.0 { *i = 0 } if fl(*i) > 1.0 { *i = 1.0f32.to_bits() } }
            },
            (Ty::Struct(i), x) => fix_numbers(l, *i, x),
            (Ty::Refl(i), V::Refl(a)) => for x in a { fix_numbers(l, *i, x) },
            _ => ()
        };
        match x { V::Arr(a) => a.iter_mut().for_each(go), x => go(x) }
    }
}
/// `a` is `b` scaled to unit length, or `b` itself if it has unit length
fn straightened(b: &[u32], a: &[u32]) -> Result<(), &'static str> {
    if unit_len(b) { return if a == b { Ok(()) } else { Err("changed although it has unit length") } }
    if !unit_len(a) { return Err("not of unit length") }
    let m = b.iter().map(|x| (fl(*x) as f64).powi(2)).sum::<f64>().sqrt();
    if m == 0.0 || !m.is_finite() { return Ok(()) }
    if b.iter().zip(a).any(|(b, a)| (fl(*b) as f64 / m - fl(*a) as f64).abs() > 1e-6) { return Err("points elsewhere") }
    Ok(())
}
fn words(v: &V) -> Vec<u32> { bits(v).to_vec() }
/// What repairing `v` gives: the expected tag, or None if it cannot be repaired. What is only known up to rounding is
/// checked in `after` and taken from there.
fn expected(g: usize, path: &str, v: &V, after: &V) -> Result<Option<V>, Fail> {
    let l = layout();
    let gr = &l.groups[g];
    let mut x = v.clone();
    fix_numbers(l, gr.st, &mut x);
    match gr.name.as_str() {
        n @ ("model" | "gbxmodel") => {
            let gbx = n == "gbxmodel";
            let (nst, rst, pst, mst) = (l.st("ModelNode"), l.st("ModelRegion"), l.st("ModelRegionPermutation"), l.st("ModelRegionPermutationMarker"));
            let (kst, ist, bst) = (l.st("ModelMarker"), l.st("ModelMarkerInstance"), l.st("ModelGeometryPart"));
            let nodes = items(l, gr.st, &x, "nodes").len();
            // markers go back to the permutations they came from
            let mut adds = vec![];
            for m in items(l, gr.st, &x, "runtime_markers") { for i in items(l, kst, m, "instances") {
                let (r, p, n) = (int(l, ist, i, "region_index") as usize, int(l, ist, i, "permutation_index") as usize, int(l, ist, i, "node_index"));
                let there = items(l, gr.st, &x, "regions").get(r).is_some_and(|r| p < items(l, rst, r, "permutations").len());
                if !there || n as usize >= nodes { return Ok(None) }
                let mut k = default_struct(l, mst);
                *sub_mut(l, mst, &mut k, "name") = sub(l, kst, m, "name").clone();
                set_int(l, mst, &mut k, "node_index", n);
                for f in ["rotation", "translation"] { *sub_mut(l, mst, &mut k, f) = sub(l, ist, i, f).clone() }
                adds.push((r, p, k));
            } }
            items_mut(l, gr.st, &mut x, "runtime_markers").clear();
            for (r, p, k) in adds { items_mut(l, pst, &mut items_mut(l, rst, &mut items_mut(l, gr.st, &mut x, "regions")[r], "permutations")[p], "markers").push(k) }
            // vertices missing in one form are made from the other
            let tables = tables(&x, gbx);
            let local = tables.iter().any(|t| t.is_some()) || (gbx && int(l, gr.st, &x, "flags") & 2 != 0);
            let wild = parts_mut(&mut x, gbx).iter().any(|p| items(l, bst, p, "uncompressed_vertices").iter().any(|u| { let V::St(u) = u else { panic!() }; [5, 6].iter().any(|k| { let n = bits(&u[*k])[0]; n != 0xFFFF && n >= 42 }) }));
            let packs_ok = nodes <= 42 && !local && !wild;
            let mut a2 = after.clone();
            let (ps, qs) = (parts_mut(&mut x, gbx), parts_mut(&mut a2, gbx));
            ensure_eq!(ps.len(), qs.len(), "parts of a model", "{path}");
            for (k, (b, a)) in ps.into_iter().zip(qs).enumerate() {
                let get = |v: &V, n: &str| items(l, bst, v, n).to_vec();
                let (bu, bc, au, ac) = (get(b, "uncompressed_vertices"), get(b, "compressed_vertices"), get(a, "uncompressed_vertices"), get(a, "compressed_vertices"));
                if bc.is_empty() && packs_ok {
                    ensure_eq!(bu.len(), ac.len(), "vertices packed by repair", "part {k}");
                    for (i, (u, c)) in bu.iter().zip(&ac).enumerate() { if let Err(e) = packs(u, c) { fail!("vertices packed by repair", "part {k} vertex {i}: {e}") } }
                    *items_mut(l, bst, b, "compressed_vertices") = ac;
                }
                if bu.is_empty() && !bc.is_empty() && unpackable(&bc, tables[k].as_deref()) {
                    ensure_eq!(bc.len(), au.len(), "vertices unpacked by repair", "part {k}");
                    for (i, (c, u)) in bc.iter().zip(&au).enumerate() { if let Err(e) = unpacks(c, u, tables[k].as_deref()) { fail!("vertices unpacked by repair", "part {k} vertex {i}: {e}") } }
                    *items_mut(l, bst, b, "uncompressed_vertices") = au;
                }
            }
            let mut turn = |b: &mut V, a: Option<&V>, what: &str| -> R { let Some(a) = a else { fail!("model after repair", "{what} missing") }; if let Err(e) = straightened(bits(b), bits(a)) { fail!("rotation after repair", "{what} {:?} -> {:?}: {e}", words(b).iter().map(|x| fl(*x)).collect::<Vec<_>>(), words(a).iter().map(|x| fl(*x)).collect::<Vec<_>>()) } *b = a.clone(); Ok(()) };
            let an = items(l, gr.st, after, "nodes");
            for (i, n) in items_mut(l, gr.st, &mut x, "nodes").iter_mut().enumerate() { turn(sub_mut(l, nst, n, "default_rotation"), an.get(i).map(|n| sub(l, nst, n, "default_rotation")), "node")? }
            let ar = items(l, gr.st, after, "regions");
            for (i, r) in items_mut(l, gr.st, &mut x, "regions").iter_mut().enumerate() { for (j, p) in items_mut(l, rst, r, "permutations").iter_mut().enumerate() { for (k, m) in items_mut(l, pst, p, "markers").iter_mut().enumerate() {
                let a = ar.get(i).and_then(|r| items(l, rst, r, "permutations").get(j)).and_then(|p| items(l, pst, p, "markers").get(k)).map(|m| sub(l, mst, m, "rotation"));
                turn(sub_mut(l, mst, m, "rotation"), a, "marker")?
            } } }
        }
        "sound" => {
            let t = tag_of(g, &x)?;
            let t: &Sound = t.as_any().downcast_ref().unwrap();
            let j = judge(t);
            if !j.repairable { return Ok(None) }
            x = read(gr, &repaired(t, &j))?;
        }
        "scenario" => {
            let sourced = !items(l, gr.st, &x, "source_files").is_empty();
            if !sourced && !(items(l, gr.st, &x, "scripts").is_empty() && items(l, gr.st, &x, "globals").is_empty()) {
                let mut t = tag_of(g, &x)?;
                let sc: &mut Scenario = t.as_any_mut().downcast_mut().unwrap();
                if decompile_scripts(sc, path.rsplit('\\').next().unwrap()).is_err() { return Ok(None) }
                x = read(gr, t.as_ref())?;
            }
        }
        "unicode_string_list" => {
            let st = l.st("UnicodeStringListString");
            for y in items_mut(l, gr.st, &mut x, "strings").iter_mut() {
                let b = data(sub(l, st, y, "string")).to_vec();
                if !good_string(&b) { *sub_mut(l, st, y, "string") = V::Data(salvaged(&b)) }
            }
        }
        "scenario_structure_bsp" => {
            let (lst, mst) = (l.st("ScenarioStructureBSPLightmap"), l.st("ScenarioStructureBSPMaterial"));
            let mats = |v: &V| -> Vec<(usize, usize, Vec<u8>, usize)> { items(l, gr.st, v, "lightmaps").iter().flat_map(|x| items(l, lst, x, "materials")).map(|m| (bits(q(l, mst, m, "rendered_vertices.vertex_count").0)[0] as usize, bits(q(l, mst, m, "lightmap_vertices.vertex_count").0)[0] as usize, data(sub(l, mst, m, "uncompressed_vertices")).to_vec(), data(sub(l, mst, m, "compressed_vertices")).len())).collect() };
            let (bm, am) = (mats(&x), mats(after));
            if bm.iter().any(|(n, k, f, p)| !((*k == 0 || k == n) && (f.is_empty() || f.len() == n * 56 + k * 20) && (*p == 0 || *p == n * 32 + k * 8))) { return Ok(None) }
            ensure_eq!(bm.len(), am.len(), "materials of a level", "{path}");
            let mut done = vec![];
            for (b, a) in bm.iter().zip(&am) {
                let mut d = b.2.clone();
                ensure_eq!(d.len(), a.2.len(), "vertices of a level", "{path}");
                if !d.is_empty() { for i in 0..b.0 {
                    let w = |d: &[u8]| -> Vec<u32> { (0..3).map(|k| { let o = i * 56 + 12 + k * 4; u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) }).collect() };
                    if let Err(e) = straightened(&w(&d), &w(&a.2)) { fail!("normal after repair", "vertex {i}: {e}") }
                    d[i * 56 + 12..i * 56 + 24].copy_from_slice(&a.2[i * 56 + 12..i * 56 + 24]);
                } }
                done.push(d);
            }
            let mut done = done.into_iter();
            for y in items_mut(l, gr.st, &mut x, "lightmaps") { for m in items_mut(l, lst, y, "materials") { *sub_mut(l, mst, m, "uncompressed_vertices") = V::Data(done.next().unwrap()) } }
        }
        _ => ()
    }
    Ok(Some(x))
}
/// the readable part of damaged text
fn salvaged(b: &[u8]) -> Vec<u8> {
    let mut out = String::new();
    if b.len() % 2 == 0 && !b.is_empty() {
        let u: Vec<u16> = b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).take_while(|u| *u != 0).collect();
        let t: Vec<char> = String::from_utf16_lossy(&u).chars().collect();
        for (i, c) in t.iter().enumerate() {
            match *c {
                '\n' if !out.ends_with('\r') => out.push_str("\r\n"),
                '\n' | '\t' => out.push(*c),
                '\r' => if t.get(i + 1) == Some(&'\n') { out.push('\r') },
                c if c.is_ascii_control() => (),
                c => out.push(c)
            }
        }
    }
    out.encode_utf16().chain([0]).flat_map(|u| u.to_le_bytes()).collect()
}
/// faults repairing takes care of
fn left(g: usize, v: &V) -> Option<String> {
    let l = layout();
    let gr = &l.groups[g];
    let mut c = [0; 3];
    numbers(l, gr.st, v, &mut c);
    if c[0] > 0 { return Some(format!("{} bad numbers", c[0])) }
    match gr.name.as_str() {
        n @ ("model" | "gbxmodel") => {
            if !items(l, gr.st, v, "runtime_markers").is_empty() { return Some("runtime markers".into()) }
            let (mut a, mut b) = ([0; 3], [0; 3]);
            model_faults(n == "gbxmodel", v, &mut a);
            if !super::verify::indices(n == "gbxmodel", v) { b[0] += 1 }
            if a != b { return Some("rotations".into()) }
        }
        "unicode_string_list" => { let st = l.st("UnicodeStringListString"); if items(l, gr.st, v, "strings").iter().any(|x| !good_string(data(sub(l, st, x, "string")))) { return Some("damaged text".into()) } }
        "scenario" => if items(l, gr.st, v, "source_files").is_empty() && !(items(l, gr.st, v, "scripts").is_empty() && items(l, gr.st, v, "globals").is_empty()) { return Some("no sources".into()) },
        "sound" => { let t = tag_of(g, v).ok()?; let j = judge(t.as_any().downcast_ref().unwrap()); if !j.playable && j.links && !j.empty { return Some("not playable".into()) } }
        _ => ()
    }
    None
}
/// a value with faults, and the path of its tag
pub fn gen_broken(s: &mut Src) -> (usize, String, V, &'static str) {
    let l = layout();
    let g = if s.bool() { gid(s.pick(&["model", "gbxmodel", "gbxmodel", "sound", "scenario", "unicode_string_list", "scenario_structure_bsp"])) } else { s.below(l.groups.len() as u64) as usize };
    let bad = *s.pick(&[4u64, 12, 60, 300, 100_000]);
    let gr = &l.groups[g];
    let mut path = if s.chance(1, 3) { gen_path(s) } else { "a\\b".to_string() };
    if super::paths::ref_path(&path).as_deref() != Some(&path) { path = "x".into() }
    let mut note = "";
    let mut v = match gr.name.as_str() {
        "scenario" if s.chance(2, 3) => {
            let b = *s.pick(&[4i64, 20, 60]);
            let mut p = program(s, b);
            if s.chance(1, 4) {
                let d = if s.chance(3, 4) { &mut p.scenario.script_syntax_data.bytes } else { &mut p.scenario.script_string_data.bytes };
                if !d.is_empty() { let k = s.usize(0, d.len() - 1); if s.chance(1, 4) { d.truncate(k) } else { d[k] = s.u8() } }
                note = "damaged scripts";
            }
            if s.chance(1, 6) { path = "a".repeat(s.usize(30, 33)) }
            let mut v = get_struct(l, gr.st, &p.scenario as &dyn ringhopper_primitives::dynamic::DynamicTagData, "scenario").expect("scenario read by name");
            if s.chance(1, 6) { items_mut(l, gr.st, &mut v, "source_files").push(default_struct(l, l.st("ScenarioSourceFile"))) }
            v
        }
        _ => gen_tag(s, g, bad)
    };
    if matches!(gr.name.as_str(), "model" | "gbxmodel") {
        items_mut(l, gr.st, &mut v, "runtime_markers").clear();
        let (kst, ist, rst) = (l.st("ModelMarker"), l.st("ModelMarkerInstance"), l.st("ModelRegion"));
        let nodes = items(l, gr.st, &v, "nodes").len();
        let perms: Vec<usize> = items(l, gr.st, &v, "regions").iter().map(|r| items(l, rst, r, "permutations").len()).collect();
        for _ in 0..s.below(3) {
            let mut m = default_struct(l, kst);
            *sub_mut(l, kst, &mut m, "name") = V::S32(gen_str32(s, false));
            for _ in 0..s.below(4) {
                let mut i = default_struct(l, ist);
                let r = s.usize(0, perms.len().max(1) - 1);
                let (mut r, mut p, mut n) = (r as u64, s.below(perms.get(r).copied().unwrap_or(0).max(1) as u64), s.below(nodes.max(1) as u64));
                if s.chance(1, 8) { match s.below(4) { 0 => r = perms.len() as u64, 1 => p = *s.pick(&[255, perms.get(r as usize).copied().unwrap_or(0) as u64]), 2 => n = nodes as u64, _ => n = 255 } }
                for (f, x) in [("region_index", r), ("permutation_index", p), ("node_index", n)] { set_int(l, ist, &mut i, f, x.min(255) as u32) }
                for f in ["rotation", "translation"] { let k = bits(sub(l, ist, &i, f)).len(); let x: Vec<u32> = (0..k).map(|_| s.f32().to_bits()).collect(); *sub_mut(l, ist, &mut i, f) = V::W(x) }
                items_mut(l, kst, &mut m, "instances").push(i);
            }
            items_mut(l, gr.st, &mut v, "runtime_markers").push(m);
        }
    }
    tidy(s, l, gr.st, &mut v, bad, false);
    (g, path, canon_struct(l, gr.st, &v), note)
}
fn c25_tags(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let (g, path, v, note) = gen_broken(s);
    let gr = &l.groups[g];
    let mut t = tag_of(g, &v)?;
    let before = read(gr, t.as_ref())?;
    let p = tp(&path, g);
    let done = matches!(no_panic(|| bludgeon_tag(t.as_mut(), &p))?, BludgeonResult::Done);
    let after = read(gr, t.as_ref())?;
    let want = expected(g, &path, &before, &after)?;
    ensure_eq!(done, want.is_some(), format!("{} can be repaired", gr.name), "{path} {note}");
    let want = want.unwrap_or_else(|| { let mut x = before.clone(); fix_numbers(l, gr.st, &mut x); x });
    ensure!(after == want, format!("{} after repair", gr.name), "{path} {note}: {}", first_diff(l, gr.st, &after, &want, &gr.name).unwrap_or_default());
    if done {
        if let Some(e) = left(g, &after) { fail!(format!("{} still faulty after repair", gr.name), "{path}: {e}") }
        let file = bytes_of(t.as_ref())?;
        let again = matches!(no_panic(|| bludgeon_tag(t.as_mut(), &p))?, BludgeonResult::Done);
        ensure!(again && read(gr, t.as_ref())? == after && bytes_of(t.as_ref())? == file, format!("repairing a {} twice", gr.name), "{path}");
    }
    let n = gr.name.as_str();
    ctx.label(if !done { "cannot be repaired" } else if after == before { "nothing to repair" } else { "repaired" });
    if matches!(n, "model" | "gbxmodel" | "sound" | "scenario" | "unicode_string_list" | "scenario_structure_bsp") { ctx.label(&format!("{n} {}", if !done { "cannot be repaired" } else if after == before { "nothing to repair" } else { "repaired" })) }
    if richness(l, gr.st, &before) > 0 { ctx.nontrivial_s(&format!("{g}{before:?}")) }
    ctx.sample(|| format!("{n}: {}", if !done { "cannot be repaired".into() } else { first_diff(l, gr.st, &before, &after, n).map(|d| d.chars().take(160).collect()).unwrap_or("nothing to repair".to_string()) }));
    Ok(())
}
fn c25_worlds(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = gen_world(s);
    let l = layout();
    let mut changed = 0;
    let mut done = BTreeSet::new();
    for t in w.tags.values_mut() {
        if t.state != State::Fine { continue }
        let mut x = tag_of(t.g, &t.v)?;
        if matches!(no_panic(|| bludgeon_tag(x.as_mut(), &tp(&t.path, t.g)))?, BludgeonResult::Done) {
            let v = read(&l.groups[t.g], x.as_ref())?;
            if v != t.v { changed += 1 }
            t.v = v;
            done.insert(t.name());
            if let Some(e) = left(t.g, &t.v) { fail!(format!("{} still faulty after repair", l.groups[t.g].name), "{}: {e}", t.name()) }
        }
    }
    let Ok(reach) = reachable(&w) else { ctx.label("cannot be verified"); return Ok(()) };
    let j = Judge::new(&w, &reach);
    let want: BTreeMap<String, super::verify::Count> = reach.iter().map(|n| (n.clone(), j.of(&w.tags[n]))).collect();
    match run_verifier(&w, 1, 0, 0)? {
        Err(e) => fail!("verifier refuses", "{e}"),
        Ok(got) => {
            agree(&w, &want, &got, 1)?;
            for n in &done { if let Some((_, m)) = got.of.get(n) { if let Some(m) = m.iter().find(|m| m.contains("automatically fixed") || (m.contains("bludgeon") && !n.ends_with(".sound"))) { fail!("verifier still reports what repair fixes", "{n}: {m}") } } }
        }
    }
    ctx.label(if changed > 0 { "repaired" } else { "nothing to repair" });
    ctx.nontrivial_s(&format!("{:?}", w.tags.values().map(|t| &t.v).collect::<Vec<_>>()));
    ctx.sample(|| format!("{} tags, {changed} repaired, {} reported afterwards", w.tags.len(), want.values().filter(|c| **c != [0; 3]).count()));
    Ok(())
}
/// more permutations than an index can name
fn c25_crowded(s: &mut Src, ctx: &mut Ctx) -> R {
    use ringhopper::definitions::{SoundPermutation, SoundPitchRange};
    let mut t = Sound::default();
    let n = *s.pick(&[65534usize, 65535, 65536, 65537, 70_000, 131_072]);
    let split = s.chance(1, 3).then(|| (s.usize(0, n - 1), *s.pick(&[1u16, 2, 65534])));
    let ranges = s.usize(1, 2);
    let crowded = s.usize(0, ranges - 1);
    for r in 0..ranges {
        let mut p = SoundPitchRange::default();
        let n = if r == crowded { n } else { 3 };
        p.actual_permutation_count = *s.pick(&[0u16, 1, 65535, n as u16]);
        p.permutations.items = vec![SoundPermutation::default(); n];
        if let (Some((k, x)), true) = (split, r == crowded) { p.permutations.items[k].next_permutation_index = Some(x) }
        t.pitch_ranges.items.push(p);
    }
    let before = t.clone();
    let playable = no_panic(|| ringhopper::tag::verify::sound_is_playable(&t))?;
    let done = matches!(no_panic(|| bludgeon_tag(&mut t, &tp("a", gid("sound"))))?, BludgeonResult::Done);
    ctx.label(if n > 65535 { "too many" } else { "as many as there can be" });
    ctx.nontrivial_s(&format!("{n} {split:?} {ranges} {crowded} {:?}", before.pitch_ranges.items.iter().map(|p| p.actual_permutation_count).collect::<Vec<_>>()));
    ctx.sample(|| format!("{n} permutations, split {split:?}: {}", if done { "repaired" } else { "cannot be repaired" }));
    if n > 65535 {
        ensure!(!playable, "sound with too many permutations is playable", "{n}");
        ensure!(!done && t == before, "sound with too many permutations is repaired", "{n}");
    } else {
        ensure!(done, "sound can be repaired", "{n} {split:?}");
        ensure_eq!(t.pitch_ranges.items[crowded].actual_permutation_count, split.map(|x| x.1).unwrap_or(n as u16), "permutation count after repair", "{n} {split:?}");
        ensure_eq!(t.pitch_ranges.items.iter().map(|p| p.permutations.items.len()).collect::<Vec<_>>(), before.pitch_ranges.items.iter().map(|p| p.permutations.items.len()).collect::<Vec<_>>(), "permutations after repair", "");
    }
    Ok(())
}

pub static C25: Check = Check {
    id: "C25", terminates: true,
    subs: &[
        Sub { name: "tags", quick: 60_000, thorough: 2_000_000, run: c25_tags },
        Sub { name: "worlds", quick: 6_000, thorough: 200_000, run: c25_worlds },
        Sub { name: "crowded", quick: 48, thorough: 2_000, run: c25_crowded },
    ],
    rule: "tags: one generated tag of any group (half of them of the groups with repairs of their own) with faults seeded at one of five rates, repaired twice. worlds: every tag of a generated scenario tree repaired, then verified. crowded: sounds whose permutations are about as many as, or more than, an index can name. Non-trivial: a tag with at least one field set; distinct by value.",
    assumptions: &["values are compared with the precision of the tag file", "level vertex data has no signalling NaNs outside normals", "scripts are decompiled by the same code in the expected tag (C26 decides that code)"],
};

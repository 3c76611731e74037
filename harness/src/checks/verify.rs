//! C33: the verifier reports every fault and nothing else.
use super::bitmaps::{walk, Kind, FORMATS};
use super::fields::object_path;
use super::geom::*;
use super::graph::{direct, engine, engine_names, referenceable, required};
use super::sounds::{gen_sound, judge};
use super::tree::*;
use crate::engine::*;
use crate::layout::*;
use crate::value::*;
use ringhopper::tag::tree::*;
use ringhopper::tag::verify::verify;
use ringhopper_primitives::error::{Error, RinghopperResult};
use ringhopper_primitives::primitive::*;
use ringhopper_primitives::tag::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::num::NonZeroUsize;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};

// ------------------------------------------------------------------ worlds
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum State { Fine, Damaged }
pub struct Tag { pub path: String, pub g: usize, pub v: V, pub state: State }
impl Tag { pub fn name(&self) -> String { full(&self.path, self.g) } }
pub struct World { pub engine: String, pub kind: usize, pub scenario: String, pub hudg: Option<String>, pub tags: BTreeMap<String, Tag>, pub required: Vec<String> }

fn gid(n: &str) -> usize { layout().group_by_name[n] }
/// structure below a dotted path of blocks
pub fn q<'a>(l: &Layout, st: usize, v: &'a V, path: &str) -> (&'a V, usize) {
    let (mut st, mut cur) = (st, v);
    if path.is_empty() { return (cur, st) }
    for n in path.split('.') {
        let i = pos(l, st, n);
        let V::St(vs) = cur else { panic!("{path}") };
        cur = &vs[i];
        if let Ty::Struct(x) | Ty::Refl(x) = l.structs[st].fields[i].ty { st = x }
    }
    (cur, st)
}
fn q_mut<'a>(l: &Layout, st: usize, v: &'a mut V, path: &str) -> (&'a mut V, usize) {
    let (mut st, mut cur) = (st, v);
    if path.is_empty() { return (cur, st) }
    for n in path.split('.') {
        let i = pos(l, st, n);
        let V::St(vs) = cur else { panic!("{path}") };
        cur = &mut vs[i];
        if let Ty::Struct(x) | Ty::Refl(x) = l.structs[st].fields[i].ty { st = x }
    }
    (cur, st)
}
pub fn refl(v: &V) -> &[V] { let V::Refl(a) = v else { panic!() }; a }
fn num(v: &V) -> u32 { match v { V::W(w) => w[0], V::N(n) => *n, _ => panic!() } }
fn put_num(v: &mut V, x: u32) { match v { V::W(w) => w[0] = x, V::N(n) => *n = x, _ => panic!() } }
fn fl(x: u32) -> f32 { f32::from_bits(x) }
pub fn data(v: &V) -> &[u8] { let V::Data(b) = v else { panic!() }; b }
/// makes numbers valid except for a few, and sequence indices small
pub fn tidy(s: &mut Src, l: &Layout, st: usize, v: &mut V, bad: u64, seqs: bool) {
    let V::St(vs) = v else { return };
    for (f, x) in l.structs[st].fields.iter().zip(vs) {
        if f.exclude { continue }
        if seqs && f.matcher == "sequence_index" { put_num(x, match s.below(12) { 0..=3 => 0xFFFF, 4 => s.below(9) as u32, 5 if s.chance(1, 4) => *s.pick(&[0xFFFEu32, 255, 4]), _ => s.below(3) as u32 }); continue }
        let mut go = |s: &mut Src, x: &mut V| match (&f.ty, x) {
            (Ty::Prim { name, unit: Scalar::F32, .. }, V::W(w)) => {
                let color = name.starts_with("Color");
                for i in w.iter_mut() {
                    if color && !(0.0..=1.0).contains(&fl(*i)) { *i = (s.below(1001) as f32 / 1000.0).to_bits() }
                    if s.chance(1, bad) { *i = if color && s.bool() { s.pick(&[1.001f32, -0.001, 2.0, f32::INFINITY, 1e30, -1e-30]).to_bits() } else { *s.pick(&[0x7FC00000u32, 0xFFC00000, 0x7FC01234]) } }
                }
            }
            (Ty::Struct(i), x) => tidy(s, l, *i, x, bad, seqs),
            (Ty::Refl(i), V::Refl(a)) => for x in a { tidy(s, l, *i, x, bad, seqs) },
            _ => ()
        };
        match x { V::Arr(a) => for x in a { go(s, x) }, x => go(s, x) }
    }
}
fn string_data(s: &mut Src) -> Vec<u8> {
    let n = s.usize(0, 6);
    let mut u: Vec<u16> = vec![];
    for _ in 0..n { match s.below(8) { 0 => u.extend([13, 10]), 1 => u.push(9), 2 => u.push(*s.pick(&[0xE9u16, 0x8A9E, 0xFFFD, 0x80, 0x7E])), 3 => u.extend([0xD800, 0xDF48]), _ => u.push(b'a' as u16 + s.below(26) as u16) } }
    u.push(0);
    let mut b: Vec<u8> = u.iter().flat_map(|x| x.to_le_bytes()).collect();
    if s.chance(1, 10) {
        match s.below(9) {
            0 => b.clear(),
            1 => { b.pop(); }
            2 => { b.pop(); b.pop(); }
            3 => b.push(65),
            4 => { let mut c = vec![0, 0]; c.extend(&b); b = c }
            5 => { let mut c = vec![0x0A, 0]; c.extend(&b); b = c }
            6 => { let mut c = vec![0x0D, 0]; c.extend(&b); b = c }
            7 => { let mut c = s.pick(&[0x01u16, 0x1F, 0x7F, 0x0B]).to_le_bytes().to_vec(); c.extend(&b); b = c }
            _ => { let mut c = s.pick(&[0xD800u16, 0xDC00]).to_le_bytes().to_vec(); c.extend(&b); b = c }
        }
    }
    b
}
/// text ended by its only NUL, without control characters but tabs and whole line breaks
pub fn good_string(b: &[u8]) -> bool {
    if b.len() < 2 || b.len() % 2 != 0 { return false }
    let u: Vec<u16> = b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
    let (last, u) = u.split_last().unwrap();
    if *last != 0 || u.contains(&0) { return false }
    let Ok(t) = String::from_utf16(u) else { return false };
    !t.replace("\r\n", "").replace('\t', "").chars().any(|c| (c as u32) < 32 || c as u32 == 127)
}
pub fn gen_bitmap(s: &mut Src, v: &mut V, bad: u64) {
    let l = layout();
    let st = l.groups[gid("bitmap")].st;
    let sprites = s.chance(2, 5);
    set_int(l, st, v, "type", if sprites { 3 } else if s.chance(4, 5) { 0 } else { s.below(5) as u32 });
    let formats: [&[usize]; 7] = [&[10], &[10, 11], &[10, 12], &[6, 7, 5], &[8, 9], &[0, 1, 2, 4], &[13]];
    let enc = s.below(7) as usize;
    set_int(l, st, v, "encoding_format", enc as u32);
    let usage = s.below(6) as u32;
    set_int(l, st, v, "usage", usage);
    let height = s.bool();
    let fl = int(l, st, v, "flags") & !2 | (height as u32) << 1;
    set_int(l, st, v, "flags", fl);
    let (qst, sst, dst) = (l.st("BitmapGroupSequence"), l.st("BitmapGroupSprite"), l.st("BitmapData"));
    let seqs = (0..s.below(5)).map(|_| {
        let mut x = default_struct(l, qst);
        let n = if s.chance(1, 5) { 0 } else { s.below(4) as u32 };
        set_int(l, qst, &mut x, "bitmap_count", n);
        if sprites && s.chance(4, 5) || s.chance(1, 8) { for _ in 0..s.range(1, 3) { items_mut(l, qst, &mut x, "sprites").push(default_struct(l, sst)) } }
        x
    }).collect();
    *items_mut(l, st, v, "bitmap_group_sequence") = seqs;
    let mut pixels = vec![0u8; s.usize(0, 3)];
    let mut datas = vec![];
    for _ in 0..s.below(4) {
        let mut d = default_struct(l, dst);
        let compressed = usage == 2 || usage == 5;
        let mut f = if (compressed && !height) || (!height && s.chance(1, 4)) { 3 } else { *s.pick(formats[enc]) };
        if s.chance(1, bad) { f = s.below(14) as usize }
        let (w, h) = (s.usize(1, 20), s.usize(1, 20));
        let kind = match s.below(5) { 0 => Kind::Cube, 1 => Kind::Solid(s.usize(1, 6)), _ => Kind::Flat };
        let mips = *s.pick(&[0u32, 1, 2, 5, 9]);
        let size: usize = walk(w, h, kind, FORMATS[f].1, Some(mips as usize), false).iter().map(|m| m[8]).sum::<usize>() * FORMATS[f].2;
        let mut at = pixels.len();
        pixels.resize(at + size, 7);
        let (mut w, mut h, mut z) = (w, h, if let Kind::Solid(z) = kind { z } else { s.below(3) as usize });
        if s.chance(1, bad) { match s.below(6) { 0 => w = 0, 1 => h = 0, 2 => z = 0, 3 => { pixels.pop(); } 4 => at = *s.pick(&[u32::MAX as usize, pixels.len() + 1, at + 1]), _ => w = 65535 } }
        for (n, x) in [("width", w as u32), ("height", h as u32), ("depth", z as u32), ("type", match kind { Kind::Flat => 0, Kind::Solid(_) => 1, Kind::Cube => 2 }), ("format", FORMATS[f].0 as u32), ("mipmap_count", mips), ("pixel_data_offset", at as u32)] { set_int(l, dst, &mut d, n, x) }
        datas.push(d);
    }
    *items_mut(l, st, v, "bitmap_data") = datas;
    *sub_mut(l, st, v, "processed_pixel_data") = V::Data(pixels);
}
fn unit_vec(s: &mut Src, n: usize, bad: u64) -> Vec<f32> {
    let mut x = vec![0.0f32; n];
    let i = s.usize(0, n - 1);
    x[i] = if s.bool() { 1.0 } else { -1.0 };
    if s.bool() { let j = (i + 1) % n; x[i] = 0.6; x[j] = -0.8 }
    if s.chance(1, bad) { x[i] = *s.pick(&[0.0f32, 1.001, 0.9, -2.0, 1.0001]) }
    x
}
fn put_f(v: &mut V, x: &[f32]) { *v = V::W(x.iter().map(|f| f.to_bits()).collect()) }
pub fn unit_len(w: &[u32]) -> bool { (1.0 - w.iter().map(|x| fl(*x) as f64 * fl(*x) as f64).sum::<f64>()).abs() < 1e-5 }
/// makes the rotations of a model unit length, except for a few
pub fn straighten(s: &mut Src, gbx: bool, v: &mut V, bad: u64) {
    let l = layout();
    let st = l.groups[gid(if gbx { "gbxmodel" } else { "model" })].st;
    let (nst, rst, pst, mst) = (l.st("ModelNode"), l.st("ModelRegion"), l.st("ModelRegionPermutation"), l.st("ModelRegionPermutationMarker"));
    for n in items_mut(l, st, v, "nodes") { let x = unit_vec(s, 4, bad); put_f(sub_mut(l, nst, n, "default_rotation"), &x) }
    for r in items_mut(l, st, v, "regions") { for p in items_mut(l, rst, r, "permutations") { for m in items_mut(l, pst, p, "markers") { let x = unit_vec(s, 4, bad); put_f(sub_mut(l, mst, m, "rotation"), &x) } } }
}
fn gen_level(s: &mut Src, v: &mut V, bad: u64) {
    let l = layout();
    let st = l.groups[gid("scenario_structure_bsp")].st;
    let (lst, mst) = (l.st("ScenarioStructureBSPLightmap"), l.st("ScenarioStructureBSPMaterial"));
    let rst = l.st("ModelVertexReference");
    let mut lms = vec![];
    for _ in 0..s.below(3) {
        let mut x = default_struct(l, lst);
        for _ in 0..s.below(3) {
            let mut m = default_struct(l, mst);
            let n = s.usize(0, 4);
            let mut lm = if s.bool() { n } else { 0 };
            let mut full = full_vertices(s, n, lm, &mut |s| { let x = unit_vec(s, 3, bad); [x[0], x[1], x[2]] });
            let mut pk = packed_vertices(s, n, lm);
            if s.chance(1, 4) { full.clear() }
            if s.chance(1, 4) { pk.clear() }
            if s.chance(1, bad * 2) { match s.below(4) { 0 => { full.push(0) } 1 => { pk.push(0) } 2 => { full.pop(); } _ => lm += 1 } }
            put_num(sub_mut(l, rst, sub_mut(l, mst, &mut m, "rendered_vertices"), "vertex_count"), n as u32);
            put_num(sub_mut(l, rst, sub_mut(l, mst, &mut m, "lightmap_vertices"), "vertex_count"), lm as u32);
            *sub_mut(l, mst, &mut m, "uncompressed_vertices") = V::Data(full);
            *sub_mut(l, mst, &mut m, "compressed_vertices") = V::Data(pk);
            items_mut(l, lst, &mut x, "materials").push(m);
        }
        lms.push(x);
    }
    *items_mut(l, st, v, "lightmaps") = lms;
    let (ost, cst, kst, ist, zst) = (l.st("ScenarioStructureBSPDetailObjectData"), l.st("ScenarioStructureBSPGlobalDetailObjectCell"), l.st("ScenarioStructureBSPGlobalDetailObjectCount"), l.st("ScenarioStructureBSPGlobalDetailObject"), l.st("ScenarioStructureBSPGlobalZReferenceVector"));
    let mut objs = vec![];
    for _ in 0..s.below(3) {
        let mut o = default_struct(l, ost);
        let (mut counts, mut inst) = (0u32, 0u32);
        for _ in 0..s.below(4) {
            let mut c = default_struct(l, cst);
            let mut layers = 0u32;
            for _ in 0..s.below(4) { layers |= 1 << match s.below(8) { 0 => s.below(32), _ => s.below(3) } }
            let (mut at, mut first) = (counts, inst);
            for _ in 0..layers.count_ones() {
                let mut k = default_struct(l, kst);
                let n = s.below(3) as u32;
                set_int(l, kst, &mut k, "count", if s.chance(1, bad * 2) { 200 } else { n });
                items_mut(l, ost, &mut o, "counts").push(k);
                items_mut(l, ost, &mut o, "z_reference_vectors").push(default_struct(l, zst));
                for _ in 0..n { items_mut(l, ost, &mut o, "instances").push(default_struct(l, ist)) }
                counts += 1; inst += n;
            }
            if s.chance(1, bad * 2) { match s.below(3) { 0 => at += 1, 1 => first += 1, _ => at = u32::MAX } }
            set_int(l, cst, &mut c, "valid_layers_flags", layers);
            set_int(l, cst, &mut c, "start_index", first);
            set_int(l, cst, &mut c, "count_index", at);
            items_mut(l, ost, &mut o, "cells").push(c);
        }
        if s.chance(1, bad * 2) { let f = *s.pick(&["counts", "z_reference_vectors", "instances"]); items_mut(l, ost, &mut o, f).pop(); }
        objs.push(o);
    }
    *items_mut(l, st, v, "detail_objects") = objs;
}
/// a value for a tag of group `g`; most are valid
pub fn gen_tag(s: &mut Src, g: usize, bad: u64) -> V {
    let l = layout();
    let gr = &l.groups[g];
    let mut v = match gr.name.as_str() {
        "sound" => { let (t, _) = gen_sound(s); get_struct(l, gr.st, &t as &dyn ringhopper_primitives::dynamic::DynamicTagData, "sound").expect("sound read by name") }
        n @ ("model" | "gbxmodel") => {
            let sh = gen_shape(s, n == "gbxmodel");
            let mut v = gen_model(s, n == "gbxmodel", &sh);
            straighten(s, n == "gbxmodel", &mut v, bad);
            if s.chance(1, bad / 4) { spoil(s, &mut v, n == "gbxmodel", &sh); }
            if s.chance(1, bad / 2) { items_mut(l, gr.st, &mut v, "runtime_markers").push(default_struct(l, l.st("ModelMarker"))) }
            let c = *s.pick(&[0, 1, 1, 1, 2, 0xFFFFFFFF]);
            set_int(l, gr.st, &mut v, "node_list_checksum", c);
            v
        }
        "bitmap" => { let mut v = default_struct(l, gr.st); gen_bitmap(s, &mut v, bad); v }
        "unicode_string_list" => {
            let mut v = default_struct(l, gr.st);
            let st = l.st("UnicodeStringListString");
            for _ in 0..s.below(5) { let mut x = default_struct(l, st); *sub_mut(l, st, &mut x, "string") = V::Data(string_data(s)); items_mut(l, gr.st, &mut v, "strings").push(x) }
            v
        }
        _ => small_value(s, g)
    };
    let name = gr.name.as_str();
    if name == "scenario_structure_bsp" { gen_level(s, &mut v, bad) }
    if name == "sound" { let st = l.st("SoundPitchRange"); for r in items_mut(l, gr.st, &mut v, "pitch_ranges") { if s.chance(1, 3) {
        put_f(sub_mut(l, st, r, "natural_pitch"), &[*s.pick(&[0.0f32, 1.0, 0.5, -1.0])]);
        let b: Vec<V> = (0..2).map(|_| V::W(vec![s.pick(&[0.0f32, 0.5, 1.0, 2.0, 0.75]).to_bits()])).collect();
        *sub_mut(l, st, r, "bend_bounds") = V::Arr(b);
    } } }
    if name == "model_animations" { let st = l.st("ModelAnimationsAnimation"); for a in items_mut(l, gr.st, &mut v, "animations") { let c = *s.pick(&[0, 1, 1, 1, 1, 2]); set_int(l, st, a, "node_list_checksum", c) } }
    if name == "weapon" { let z = *s.pick(&[0u32, 1, 2, 0xFFFF]); set_int(l, gr.st, &mut v, "zoom_levels", z) }
    if name == "weapon_hud_interface" { let st = l.st("WeaponHUDInterfaceCrosshair"); for c in items_mut(l, gr.st, &mut v, "crosshairs") { if s.bool() { set_int(l, st, c, "crosshair_type", 1) } } }
    if name == "particle" { for f in ["fade_start_size", "fade_end_size"] { let x = *s.pick(&[0.0f32, 0.0, 5.0, 4.0, 1.0]); put_f(sub_mut(l, gr.st, &mut v, f), &[x]) } }
    if name == "particle_system" {
        let (tst, pst) = (l.st("ParticleSystemType"), l.st("ParticleSystemTypeParticleState"));
        for _ in 0..s.below(3) {
            let mut x = default_struct(l, tst);
            let k = s.below(2) as u32;
            set_int(l, tst, &mut x, "complex_sprite_render_modes", k);
            for _ in 0..s.below(3) { items_mut(l, tst, &mut x, "particle_states").push(default_struct(l, pst)) }
            items_mut(l, gr.st, &mut v, "particle_types").push(x);
        }
    }
    if name == "scenario" && items(l, gr.st, &v, "source_files").is_empty() && !s.chance(1, 6) { items_mut(l, gr.st, &mut v, "source_files").push(default_struct(l, l.st("ScenarioSourceFile"))) }
    tidy(s, l, gr.st, &mut v, bad * 4, true);
    v
}
/// puts something into lists that are empty, so that there is more to check
fn enrich(s: &mut Src, l: &Layout, st: usize, v: &mut V, depth: u32) {
    let V::St(vs) = v else { return };
    for (f, x) in l.structs[st].fields.iter().zip(vs) {
        if f.exclude { continue }
        match (&f.ty, x) {
            (Ty::Struct(i), x @ V::St(_)) => enrich(s, l, *i, x, depth),
            (Ty::Refl(i), V::Refl(a)) if depth < 3 => {
                if a.is_empty() && s.chance(2, 5) { for _ in 0..s.range(1, 2) { a.push(default_struct(l, *i)) } }
                for x in a { enrich(s, l, *i, x, depth + 1) }
            }
            _ => ()
        }
    }
}
/// makes one number of one kind of value bad
fn spoil_number(s: &mut Src, l: &Layout, st: usize, v: &mut V) {
    fn each(l: &Layout, st: usize, v: &mut V, to: &mut dyn FnMut(&str, &mut u32, usize)) {
        let V::St(vs) = v else { return };
        for (f, x) in l.structs[st].fields.iter().zip(vs) {
            if f.exclude { continue }
            let mut go = |x: &mut V| match (&f.ty, x) {
                (Ty::Prim { name, unit: Scalar::F32, .. }, V::W(w)) => for (i, x) in w.iter_mut().enumerate() { to(name, x, i) },
                (Ty::Struct(i), x) => each(l, *i, x, &mut *to),
                (Ty::Refl(i), V::Refl(a)) => for x in a { each(l, *i, x, &mut *to) },
                _ => ()
            };
            match x { V::Arr(a) => for x in a { go(x) }, x => go(x) }
        }
    }
    let mut kinds: BTreeMap<(String, usize), u64> = BTreeMap::new();
    each(l, st, v, &mut |n, _, i| *kinds.entry((n.to_string(), i)).or_insert(0) += 1);
    if kinds.is_empty() { return }
    let all: BTreeSet<&String> = kinds.keys().map(|k| &k.0).collect();
    let name = s.pick(&all.into_iter().collect::<Vec<_>>()).to_string();
    let of: Vec<(&(String, usize), &u64)> = kinds.iter().filter(|k| k.0.0 == name).collect();
    let ((n, part), count) = *s.pick(&of);
    let mut which = s.below(*count) as i64;
    let to = if n.starts_with("Color") { *s.pick(&[0x7FC00000u32, 1.001f32.to_bits(), 0xB8D1B717, 0x3F800001, 0x7F800000]) } else { *s.pick(&[0x7FC00000u32, 0xFFC00000, 0x7F800001]) };
    each(l, st, v, &mut |m, x, i| if m == n && i == *part { if which == 0 { *x = to } which -= 1 });
}
const THEMES: &[&[&str]] = &[
    &["weapon", "weapon_hud_interface", "weapon_hud_interface", "unit_hud_interface", "grenade_hud_interface", "bitmap", "bitmap", "bitmap"],
    &["particle", "particle_system", "effect", "bitmap", "bitmap", "bitmap", "projectile", "sound"],
    &["scenery", "biped", "vehicle", "gbxmodel", "model", "model_animations", "model_collision_geometry", "weapon"],
];
fn set_ref(v: &mut V, name: &str) { let (p, g) = name.rsplit_once('.').unwrap(); *v = V::Ref(layout().fourcc_of[g], p.to_string()) }
fn plant(s: &mut Src, w: &Tag, cast: &[(String, usize)], bad: u64, keep: bool) -> V {
    let l = layout();
    let mut v = w.v.clone();
    super::graph::refs_mut(l, l.groups[w.g].st, &mut v, false, &mut |allowed, _, r| {
        let null = |s: &mut Src| V::Ref(l.fourcc_of[s.pick(allowed)], String::new());
        if s.chance(1, bad * 3) { let t = s.pick(cast); *r = V::Ref(l.groups[t.1].fourcc, t.0.clone()); return }
        if s.chance(1, if keep { 12 } else { 3 }) { *r = null(s); return }
        let fit: Vec<&(String, usize)> = cast.iter().filter(|t| allowed.contains(&l.groups[t.1].name)).collect();
        *r = if fit.is_empty() { null(s) } else { let t = *s.pick(&fit); V::Ref(l.groups[t.1].fourcc, t.0.clone()) }
    });
    v
}
const CAST: &[&str] = &["weapon", "weapon_hud_interface", "unit_hud_interface", "grenade_hud_interface", "bitmap", "bitmap", "sound", "effect", "particle", "particle_system", "scenery", "equipment", "biped", "vehicle", "model", "gbxmodel", "gbxmodel",
    "model_animations", "scenario_structure_bsp", "unicode_string_list", "hud_globals", "detail_object_collection", "damage_effect", "projectile", "shader_model"];
pub fn supported(en: &str, g: usize) -> bool {
    let l = layout();
    let Some(list) = &l.groups[g].engines else { return true };
    let mut e = Some(en.to_string());
    while let Some(n) = e { if list.contains(&n) { return true } e = l.json["engines"][&n]["inherits"].as_str().map(|x| x.to_string()) }
    false
}
pub fn gen_world(s: &mut Src) -> World {
    let l = layout();
    let en = { let n = engine_names(); let n: Vec<String> = { let mut n = n; n.sort(); n }; n[s.below(n.len() as u64) as usize].clone() };
    let kind = s.below(3) as usize;
    let bad = *s.pick(&[60u64, 200, 12, 100_000]);
    let scenario = full("levels\\test\\x", gid("scenario"));
    let req: Vec<String> = required(&en, ["sp", "mp", "ui"][kind]);
    let mut tags: BTreeMap<String, Tag> = BTreeMap::new();
    let mut cast: Vec<(String, usize)> = vec![];
    let n = s.usize(2, 14);
    // a few kinds of tags which have much to do with each other
    let theme: Option<&[&str]> = if s.chance(2, 5) { Some(*s.pick(THEMES)) } else { None };
    for i in 0..n {
        let g = if let (Some(t), true) = (theme, s.chance(9, 10)) { gid(s.pick(t)) } else if s.chance(1, 5) { s.below(l.groups.len() as u64) as usize } else { gid(s.pick(CAST)) };
        if !supported(&en, g) && !s.chance(1, 20) { continue }
        if ["globals", "scenario", "tag_collection"].contains(&l.groups[g].name.as_str()) { continue }
        let p = if s.chance(1, 6) { gen_path(s) } else { format!("t{i}") };
        if super::paths::ref_path(&p).as_deref() == Some(&p) { cast.push((p, g)) }
    }
    // one tag of many values, of which one number may be spoilt
    let focus: Option<(String, usize)> = if s.chance(1, 4) { let g = if s.chance(1, 3) { gid("physics") } else { s.below(l.groups.len() as u64) as usize }; if supported(&en, g) && !["globals", "scenario", "tag_collection"].contains(&l.groups[g].name.as_str()) { Some(("focus".into(), g)) } else { None } } else { None };
    if let Some(f) = &focus { cast.push(f.clone()) }
    let long = focus.is_some() && s.chance(1, 10);
    let text = ("ui\\hud item messages".to_string(), gid("unicode_string_list"));
    let hudg = ("ui\\hud".to_string(), gid("hud_globals"));
    cast.push(text.clone()); cast.push(hudg.clone());
    let globals = ("globals\\globals".to_string(), gid("globals"));
    let scen = ("levels\\test\\x".to_string(), gid("scenario"));
    let mut all = cast.clone();
    all.push(scen.clone());
    all.push(globals.clone());
    for r in &req { let (p, g) = r.rsplit_once('.').unwrap(); let t = (p.to_string(), gid(g)); if !all.contains(&t) { all.push(t) } }
    let mut hud_ref = None;
    for t in &all {
        let name = full(&t.0, t.1);
        if tags.contains_key(&name) { continue }
        let gn = l.groups[t.1].name.as_str();
        let st = l.groups[t.1].st;
        let mut v = if cast.contains(t) || gn == "scenario" || s.chance(1, 6) { gen_tag(s, t.1, bad) } else { default_struct(l, st) };
        if gn == "scenario" { set_int(l, st, &mut v, "type", kind as u32) }
        if theme.map_or(false, |t| t.contains(&gn)) && gn != "bitmap" { enrich(s, l, st, &mut v, 0); if gn == "weapon_hud_interface" { let cst = l.st("WeaponHUDInterfaceCrosshair"); for c in items_mut(l, st, &mut v, "crosshairs") { if s.bool() { set_int(l, cst, c, "crosshair_type", 1) } } } tidy(s, l, st, &mut v, bad * 4, true) }
        if Some(t) == focus.as_ref() && gn != "bitmap" && gn != "scenario_structure_bsp" { enrich(s, l, st, &mut v, 0); if long { enlarge(s, l, st, &mut v, 40_000, &[]); } tidy(s, l, st, &mut v, if long { 1_000_000 } else { bad * 4 }, true); if s.chance(3, 4) { spoil_number(s, l, st, &mut v) } }
        let hub = gn == "tag_collection" && req.contains(&name);
        if hub {
            let cst = l.st("TagCollectionTag");
            *items_mut(l, st, &mut v, "tags") = vec![];
            for c in &cast { if s.chance(9, 10) { let mut x = default_struct(l, cst); *sub_mut(l, cst, &mut x, "reference") = V::Ref(l.groups[c.1].fourcc, c.0.clone()); items_mut(l, st, &mut v, "tags").push(x) } }
        }
        let mut tag = Tag { path: t.0.clone(), g: t.1, v, state: State::Fine };
        if gn == "globals" {
            let mut fill = |s: &mut Src, v: &mut V, f: &str, n: usize| { let Ty::Refl(x) = l.structs[st].fields[pos(l, st, f)].ty else { panic!() }; let a = items_mut(l, st, v, f); let n = if s.chance(1, bad / 6) { s.usize(0, n.max(1)) } else { n }; a.truncate(n); while a.len() < n { a.push(default_struct(l, x)) } };
            let (a, b) = (s.usize(1, 2), s.usize(1, 2));
            fill(s, &mut tag.v, "interface_bitmaps", a); fill(s, &mut tag.v, "multiplayer_information", b); fill(s, &mut tag.v, "weapon_list", 16); fill(s, &mut tag.v, "falling_damage", 1); fill(s, &mut tag.v, "materials", 32);
            let ng = if s.chance(1, 12) { 3 } else { s.usize(0, 2) };
            fill(s, &mut tag.v, "grenades", ng);
            let gst = l.st("GlobalsGrenade");
            for x in items_mut(l, st, &mut tag.v, "grenades") { for f in ["maximum_count", "mp_spawn_default"] { let k = if s.chance(1, 12) { *s.pick(&[8u32, 65535]) } else { s.below(8) as u32 }; set_int(l, gst, x, f, k) } }
            let mst = l.st("GlobalsMultiplayerInformation");
            let sst = l.st("GlobalsSound");
            for x in items_mut(l, st, &mut tag.v, "multiplayer_information") { let n = *s.pick(&[43usize, 43, 42, 0, 44]); *items_mut(l, mst, x, "sounds") = vec![default_struct(l, sst); n] }
        }
        let mut v = if hub { tag.v } else { plant(s, &tag, &cast, bad, theme.is_some()) };
        if gn == "particle_system" {
            let bitmaps: Vec<&(String, usize)> = cast.iter().filter(|c| c.1 == gid("bitmap")).collect();
            let (tst, pst) = (l.st("ParticleSystemType"), l.st("ParticleSystemTypeParticleState"));
            for x in items_mut(l, st, &mut v, "particle_types") { for p in items_mut(l, tst, x, "particle_states") { if !bitmaps.is_empty() && s.chance(3, 4) { let c = *s.pick(&bitmaps); set_ref(sub_mut(l, pst, p, "bitmaps"), &full(&c.0, c.1)) } } }
        }
        // weapon HUD interfaces mostly lead to later ones
        if gn == "weapon_hud_interface" { let at = all.iter().position(|x| x == t); let r = sub_mut(l, st, &mut v, "child_hud"); if let V::Ref(f, p) = r { if all.iter().position(|x| x.0 == *p && x.1 == t.1) <= at && !s.chance(1, 4) && l.group_of_fourcc(*f) == Some(gn) { *p = String::new() } } }
        if let Some((op, ost)) = object_path(l, st) {
            let o = q_mut(l, st, &mut v, &op).0;
            let none = matches!(sub(l, ost, o, "model"), V::Ref(_, p) if p.is_empty());
            if none { for f in ["animation_graph", "collision_model"] { if !s.chance(1, bad / 8 + 2) { if let V::Ref(_, p) = sub_mut(l, ost, o, f) { p.clear() } } } }
            let k = if s.chance(1, bad / 6) { *s.pick(&[65535, 5, 9]) } else { s.below(3) as u32 };
            set_int(l, ost, o, "hud_text_message_index", k);
        }
        if gn == "hud_globals" {
            let more = q_mut(l, st, &mut v, "more_hud_crap");
            for f in ["loading_begin_text", "loading_end_text", "checkpoint_begin_text", "checkpoint_end_text"] { let k = match s.below(8) { 0..=3 => 0xFFFF, 4 => s.below(12) as u32, _ => s.below(3) as u32 }; set_int(l, more.1, more.0, f, k) }
            if *t == hudg && !s.chance(1, 8) { let m = q_mut(l, st, &mut v, "messaging_parameters"); set_ref(sub_mut(l, m.1, m.0, "item_message_text"), &full(&text.0, text.1)) }
        }
        if gn == "globals" {
            let ist = l.st("GlobalsInterfaceBitmaps");
            if let Some(x) = items_mut(l, st, &mut v, "interface_bitmaps").first_mut() {
                let r = sub_mut(l, ist, x, "hud_globals");
                if !s.chance(1, 60) { set_ref(r, &full(&hudg.0, hudg.1)) }
                if let V::Ref(f, p) = r { if !p.is_empty() && l.group_of_fourcc(*f) == Some("hud_globals") { hud_ref = Some(format!("{p}.hud_globals")) } }
            }
        }
        if gn == "unicode_string_list" && *t == text && !s.chance(1, bad / 6) {
            // long enough for most indices
            let sst = l.st("UnicodeStringListString");
            let a = items_mut(l, st, &mut v, "strings");
            a.retain(|x| good_string(data(sub(l, sst, x, "string"))));
            while a.len() < 3 { let mut x = default_struct(l, sst); *sub_mut(l, sst, &mut x, "string") = V::Data(vec![65, 0, 0, 0]); a.push(x) }
        }
        tag.v = canon_struct(l, st, &v);
        tags.insert(name, tag);
    }
    // detail object palette
    {
        let t = tags.get_mut(&scenario).unwrap();
        let st = l.groups[t.g].st;
        let Ty::Refl(x) = l.structs[st].fields[pos(l, st, "detail_object_collection_palette")].ty else { panic!() };
        let dobc: Vec<&(String, usize)> = cast.iter().filter(|c| c.1 == gid("detail_object_collection")).collect();
        let a = items_mut(l, st, &mut t.v, "detail_object_collection_palette");
        if !dobc.is_empty() && s.bool() { *a = (0..s.range(1, 4)).map(|_| { let c = *s.pick(&dobc); let mut e = default_struct(l, x); if !s.chance(1, 6) { *sub_mut(l, x, &mut e, "reference") = V::Ref(l.groups[c.1].fourcc, c.0.clone()) } e }).collect() }
    }
    if s.chance(1, 5) { let k = s.below(cast.len() as u64) as usize; let c = cast[k].clone(); tags.get_mut(&full(&c.0, c.1)).unwrap().state = State::Damaged }
    // tags that do not exist
    let t = tags.values().filter(|t| t.state == State::Fine).map(|t| t.name()).collect::<Vec<_>>();
    if s.chance(1, 10) {
        let k = s.below(t.len() as u64) as usize;
        let t = tags.get_mut(&t[k]).unwrap();
        let mut n = 0;
        let want = s.below(6);
        super::graph::refs_mut(l, l.groups[t.g].st, &mut t.v, false, &mut |_, _, r| if let V::Ref(_, p) = r { if !p.is_empty() { if n == want { *p = "gone".into() } n += 1 } });
    }
    if s.chance(1, 40) { let k = s.below(t.len() as u64) as usize; tags.remove(&t[k]); }
    World { engine: en, kind, scenario, hudg: hud_ref, tags, required: req }
}

// ------------------------------------------------------------------ what must be reported
pub type Count = [u64; 3]; // errors, warnings, pedantic warnings
pub struct Judge<'a> { pub w: &'a World, pub child: HashMap<String, String>, memo: RefCell<HashMap<String, Count>> }
impl<'a> Judge<'a> {
    pub fn new(w: &'a World, reach: &BTreeSet<String>) -> Self {
        let l = layout();
        let g = gid("weapon_hud_interface");
        let mut child = HashMap::new();
        for n in reach { if let Some(t) = w.tags.get(n) { if t.g == g { if let V::Ref(f, p) = sub(l, l.groups[g].st, &t.v, "child_hud") { if !p.is_empty() && l.group_of_fourcc(*f) == Some("weapon_hud_interface") { child.insert(n.clone(), full(p, g)); } } } } }
        Judge { w, child, memo: Default::default() }
    }
    /// the tag referred to, if it is one of these groups and has no errors
    fn open(&self, r: &V, groups: &[&str], c: &mut Count) -> Option<&'a Tag> {
        let l = layout();
        let V::Ref(f, p) = r else { panic!() };
        if p.is_empty() { return None }
        let g = l.group_of_fourcc(*f).unwrap();
        if !groups.contains(&g) { return None }
        let t = self.w.tags.get(&format!("{p}.{g}")).unwrap();
        if t.state != State::Fine { c[0] += 1; return None }
        if self.of(t)[0] > 0 { c[0] += 1; return None }
        Some(t)
    }
    fn sequence(&self, b: &Tag, index: u32, min: usize, kind: Option<u32>) -> bool {
        let l = layout();
        let st = l.groups[b.g].st;
        if let Some(k) = kind { if int(l, st, &b.v, "type") != k { return false } }
        if index == 0xFFFF { return true }
        let qst = l.st("BitmapGroupSequence");
        let Some(x) = items(l, st, &b.v, "bitmap_group_sequence").get(index as usize) else { return false };
        let (sprites, bitmaps) = (items(l, qst, x, "sprites").len(), int(l, qst, x, "bitmap_count") as usize);
        min <= match kind { Some(3) => sprites, Some(_) => bitmaps, None => if sprites == 0 { bitmaps } else { sprites } }
    }
    fn element(&self, v: &V, st: usize, field: &str, c: &mut Count) {
        let l = layout();
        if let Some(b) = self.open(sub(l, st, v, field), &["bitmap"], c) { if !self.sequence(b, int(l, st, v, "sequence_index"), 1, None) { c[0] += 1 } }
    }
    pub fn of(&self, t: &'a Tag) -> Count {
        let n = t.name();
        if let Some(c) = self.memo.borrow().get(&n) { return *c }
        let c = self.judge(t);
        self.memo.borrow_mut().insert(n, c);
        c
    }
    fn judge(&self, t: &'a Tag) -> Count {
        let l = layout();
        let mut c: Count = [0; 3];
        if t.state != State::Fine { return [1, 0, 0] }
        let gr = &l.groups[t.g];
        let (st, v) = (gr.st, &t.v);
        numbers(l, st, v, &mut c);
        let mut copy = t.v.clone();
        super::graph::refs_mut(l, st, &mut copy, false, &mut |allowed, _, r| if let V::Ref(f, p) = r { if !p.is_empty() {
            let g = l.group_of_fourcc(*f).unwrap();
            if !allowed.iter().any(|a| a == g) || !supported(&self.w.engine, gid(g)) { c[0] += 1 }
        } });
        let text_len = |t: &Tag| items(l, l.groups[t.g].st, &t.v, "strings").len();
        let null = |r: &V| matches!(r, V::Ref(_, p) if p.is_empty());
        if let Some((op, ost)) = object_path(l, st) {
            let o = q(l, st, v, &op).0;
            let model = self.open(sub(l, ost, o, "model"), &["model", "gbxmodel"], &mut c);
            if null(sub(l, ost, o, "model")) { for f in ["animation_graph", "collision_model"] { if !null(sub(l, ost, o, f)) { c[0] += 1 } } }
            if let Some(m) = model {
                let sum = int(l, l.groups[m.g].st, &m.v, "node_list_checksum");
                if sum != 0 { if let Some(a) = self.open(sub(l, ost, o, "animation_graph"), &["model_animations"], &mut c) {
                    let ast = l.st("ModelAnimationsAnimation");
                    if items(l, l.groups[a.g].st, &a.v, "animations").iter().any(|x| { let k = int(l, ast, x, "node_list_checksum"); k != 0 && k != sum }) { c[0] += 1 }
                } }
            }
            let h = &self.w.tags[self.w.hudg.as_ref().unwrap()];
            if let Some(m) = self.open(q(l, l.groups[h.g].st, &h.v, "messaging_parameters.item_message_text").0, &["unicode_string_list"], &mut c) { if int(l, ost, o, "hud_text_message_index") as usize >= text_len(m) { c[0] += 1 } }
        }
        match gr.name.as_str() {
            "weapon" => {
                let zoom = int(l, st, v, "zoom_levels") as usize;
                if zoom > 0 { if let Some(h) = self.open(sub(l, st, v, "hud_interface"), &["weapon_hud_interface"], &mut c) {
                    let (cst, xst) = (l.st("WeaponHUDInterfaceCrosshair"), l.st("WeaponHUDInterfaceCrosshairOverlay"));
                    for x in items(l, l.groups[h.g].st, &h.v, "crosshairs") {
                        if int(l, cst, x, "crosshair_type") != 1 { continue }
                        let Some(b) = self.open(sub(l, cst, x, "crosshair_bitmap"), &["bitmap"], &mut c) else { continue };
                        for o in items(l, cst, x, "crosshair_overlays") { if !self.sequence(b, int(l, xst, o, "sequence_index"), zoom, Some(if int(l, xst, o, "flags") & 2 != 0 { 0 } else { 3 })) { c[0] += 1 } }
                    }
                } }
            }
            "weapon_hud_interface" => {
                for (list, ty, bitmap, inner, ity) in [("crosshairs", "WeaponHUDInterfaceCrosshair", "crosshair_bitmap", "crosshair_overlays", "WeaponHUDInterfaceCrosshairOverlay"), ("overlay_elements", "WeaponHUDInterfaceOverlayElement", "overlay_bitmap", "overlays", "WeaponHUDInterfaceOverlay")] {
                    let (cst, xst) = (l.st(ty), l.st(ity));
                    for x in items(l, st, v, list) { if let Some(b) = self.open(sub(l, cst, x, bitmap), &["bitmap"], &mut c) { for o in items(l, cst, x, inner) { if !self.sequence(b, int(l, xst, o, "sequence_index"), 1, None) { c[0] += 1 } } } }
                }
                for (list, ty, f) in [("meter_elements", "WeaponHUDInterfaceMeter", "meter_bitmap"), ("static_elements", "WeaponHUDInterfaceStaticElement", "interface_bitmap")] {
                    let est = l.st(ty);
                    for x in items(l, st, v, list) { let (p, pst) = q(l, est, x, "properties"); self.element(p, pst, f, &mut c) }
                }
                let mut seen: HashSet<String> = HashSet::from([t.name()]);
                let mut at = t.name();
                let mut lost = false;
                while let Some(n) = self.child.get(&at) { if !seen.insert(n.clone()) { lost = true; break } at = n.clone() }
                if lost { c[0] += 1 } else { self.open(sub(l, st, v, "child_hud"), &["weapon_hud_interface"], &mut c); }
            }
            "unit_hud_interface" => {
                for p in ["hud_background", "shield_panel_background", "health_panel_background", "motion_sensor_background", "motion_sensor_foreground"] { let (x, xst) = q(l, st, v, p); self.element(x, xst, "interface_bitmap", &mut c) }
                for p in ["shield_panel_meter.hudinterface_meter_element", "health_panel_meter.hudinterface_meter_element"] { let (x, xst) = q(l, st, v, p); self.element(x, xst, "meter_bitmap", &mut c) }
                let (a, ast) = q(l, st, v, "auxiliary_elements");
                for x in items(l, ast, a, "overlays") { let (x, xst) = q(l, l.st("UnitHUDInterfaceAuxiliaryOverlay"), x, "properties"); self.element(x, xst, "interface_bitmap", &mut c) }
                for x in items(l, ast, a, "meters") { let pst = l.st("UnitHUDInterfaceAuxiliaryPanel"); let (y, yst) = q(l, pst, x, "background"); self.element(y, yst, "interface_bitmap", &mut c); let (y, yst) = q(l, pst, x, "meter"); self.element(y, yst, "meter_bitmap", &mut c) }
            }
            "grenade_hud_interface" => {
                for p in ["background", "total_grenades_background"] { let (x, xst) = q(l, st, v, p); self.element(x, xst, "interface_bitmap", &mut c) }
                let (x, xst) = q(l, st, v, "total_grenades_overlays");
                if let Some(b) = self.open(sub(l, xst, x, "bitmap"), &["bitmap"], &mut c) { for o in items(l, xst, x, "overlays") { if !self.sequence(b, int(l, l.st("GrenadeHUDInterfaceOverlay"), o, "sequence_index"), 1, None) { c[0] += 1 } } }
            }
            "hud_globals" => if let Some(m) = self.open(q(l, st, v, "messaging_parameters.item_message_text").0, &["unicode_string_list"], &mut c) {
                let (x, xst) = q(l, st, v, "more_hud_crap");
                for f in ["loading_begin_text", "loading_end_text", "checkpoint_begin_text", "checkpoint_end_text"] { let k = int(l, xst, x, f); if k != 0xFFFF && k as usize >= text_len(m) { c[0] += 1 } }
            }
            "globals" => {
                let n = |f: &str| items(l, st, v, f).len();
                if self.w.kind == 1 {
                    if n("multiplayer_information") == 0 { c[0] += 1 }
                    if n("weapon_list") < 16 { c[0] += 1 }
                    let mst = l.st("GlobalsMultiplayerInformation");
                    for x in items(l, st, v, "multiplayer_information") { if items(l, mst, x, "sounds").len() < 43 { c[1] += 1 } }
                    let gst = l.st("GlobalsGrenade");
                    for x in items(l, st, v, "grenades") { for f in ["maximum_count", "mp_spawn_default"] { if int(l, gst, x, f) > 7 { c[0] += 1 } } }
                    if n("grenades") > 2 { c[0] += 1 }
                }
                if self.w.kind != 2 { if n("falling_damage") == 0 { c[0] += 1 } if n("materials") < 32 { c[0] += 1 } }
            }
            "effect" => {
                let (est, pst, qst) = (l.st("EffectEvent"), l.st("EffectPart"), l.st("EffectParticle"));
                for e in items(l, st, v, "events") {
                    for p in items(l, est, e, "parts") { if let V::Ref(f, path) = sub(l, pst, p, "type") { if path.is_empty() { if l.group_of_fourcc(*f) == Some("damage_effect") { c[0] += 1 } else { c[2] += 1 } } } }
                    for p in items(l, est, e, "particles") { if null(sub(l, qst, p, "particle_type")) { c[2] += 1 } }
                }
            }
            "particle" => { let (a, b) = (fl(int(l, st, v, "fade_start_size")), fl(int(l, st, v, "fade_end_size"))); if ((a == 0.0) ^ (b == 0.0)) && a != 5.0 && b != 4.0 { c[1] += 1 } }
            "particle_system" => {
                let (tst, pst) = (l.st("ParticleSystemType"), l.st("ParticleSystemTypeParticleState"));
                for x in items(l, st, v, "particle_types") {
                    let k = 1 + int(l, tst, x, "complex_sprite_render_modes");
                    for p in items(l, tst, x, "particle_states") {
                        let i = int(l, pst, p, "sequence_index");
                        if i == 0xFFFF { continue }
                        let Some(b) = self.open(sub(l, pst, p, "bitmaps"), &["bitmap"], &mut c) else { continue };
                        let is3 = int(l, l.groups[b.g].st, &b.v, "type") == 3;
                        for r in 0..k { let ok = is3 && { let qst = l.st("BitmapGroupSequence"); items(l, l.groups[b.g].st, &b.v, "bitmap_group_sequence").get((i + r) as usize).is_some_and(|x| !items(l, qst, x, "sprites").is_empty()) }; if !ok { c[0] += 1 + r as u64 } }
                    }
                }
            }
            "scenario" => if items(l, st, v, "source_files").is_empty() && !(items(l, st, v, "scripts").is_empty() && items(l, st, v, "globals").is_empty()) { c[0] += 1 },
            "scenario_structure_bsp" => self.level(t, &mut c),
            n @ ("model" | "gbxmodel") => model_faults(n == "gbxmodel", v, &mut c),
            "unicode_string_list" => { let sst = l.st("UnicodeStringListString"); c[0] += items(l, st, v, "strings").iter().filter(|x| !good_string(data(sub(l, sst, x, "string")))).count() as u64 }
            "bitmap" => pixels(v, &mut c),
            "sound" => return [c[0], c[1] + sound_warnings(t), c[2]],
            _ => ()
        }
        c
    }
    fn level(&self, t: &Tag, c: &mut Count) {
        let l = layout();
        let st = l.groups[t.g].st;
        let (lst, mst) = (l.st("ScenarioStructureBSPLightmap"), l.st("ScenarioStructureBSPMaterial"));
        let (mut sized, mut unit) = (true, true);
        for lm in items(l, st, &t.v, "lightmaps") { for m in items(l, lst, lm, "materials") {
            let (n, k) = (num(q(l, mst, m, "rendered_vertices.vertex_count").0) as usize, num(q(l, mst, m, "lightmap_vertices.vertex_count").0) as usize);
            let (f, p) = (data(sub(l, mst, m, "uncompressed_vertices")), data(sub(l, mst, m, "compressed_vertices")));
            sized &= (k == 0 || k == n) && (f.is_empty() || f.len() == n * 56 + k * 20) && (p.is_empty() || p.len() == n * 32 + k * 8);
            if sized { unit &= f.chunks(56).take(n).filter(|x| x.len() == 56).all(|x| { let w: Vec<u32> = (0..3).map(|i| u32::from_le_bytes(x[12 + i * 4..16 + i * 4].try_into().unwrap())).collect(); unit_len(&w) }) }
        } }
        if !sized { c[0] += 1; return }
        let (ost, cst, kst) = (l.st("ScenarioStructureBSPDetailObjectData"), l.st("ScenarioStructureBSPGlobalDetailObjectCell"), l.st("ScenarioStructureBSPGlobalDetailObjectCount"));
        let s = &self.w.tags[&self.w.scenario];
        let sst = l.groups[s.g].st;
        let palette = items(l, sst, &s.v, "detail_object_collection_palette");
        let Ty::Refl(pst) = l.structs[sst].fields[pos(l, sst, "detail_object_collection_palette")].ty else { panic!() };
        let mut lacking = 0u32;
        for o in items(l, st, &t.v, "detail_objects") { for x in items(l, ost, o, "cells") {
            let layers = int(l, cst, x, "valid_layers_flags");
            let (a, n) = (int(l, cst, x, "count_index") as usize, layers.count_ones() as usize);
            let (counts, z, inst) = (items(l, ost, o, "counts"), items(l, ost, o, "z_reference_vectors").len(), items(l, ost, o, "instances").len());
            // every count has its instances, one after the other
            let ok = a + n <= counts.len() && a + n <= z && { let mut at = int(l, cst, x, "start_index") as usize; counts[a..a + n].iter().all(|k| { at += int(l, kst, k, "count") as usize; at <= inst }) };
            if !ok { c[0] += 1; continue }
            for b in 0..32 { if layers >> b & 1 == 1 {
                let there = palette.get(b).is_some_and(|e| { let V::Ref(f, p) = sub(l, pst, e, "reference") else { panic!() }; !p.is_empty() && self.w.tags[&format!("{p}.{}", l.group_of_fourcc(*f).unwrap())].state == State::Fine });
                if !there { lacking |= 1 << b }
            } }
        } }
        c[0] += lacking.count_ones() as u64;
        if !unit { c[0] += 1 }
    }
}
pub fn numbers(l: &Layout, st: usize, v: &V, c: &mut Count) {
    let V::St(vs) = v else { return };
    for (f, x) in l.structs[st].fields.iter().zip(vs) {
        if f.exclude { continue }
        let mut go = |x: &V| match (&f.ty, x) {
            (Ty::Prim { name, unit: Scalar::F32, .. }, V::W(w)) => {
                c[0] += w.iter().filter(|x| fl(**x).is_nan()).count() as u64;
                if name.starts_with("Color") && w.iter().any(|x| !(fl(*x) >= 0.0 && fl(*x) <= 1.0)) { c[0] += 1 }
            }
            (Ty::Struct(i), x) => numbers(l, *i, x, c),
            (Ty::Refl(i), V::Refl(a)) => for x in a { numbers(l, *i, x, c) },
            _ => ()
        };
        match x { V::Arr(a) => for x in a { go(x) }, x => go(x) }
    }
}
/// indices, runtime markers and rotations of a model
pub fn model_faults(gbx: bool, v: &V, c: &mut Count) {
    let l = layout();
    let st = l.groups[gid(if gbx { "gbxmodel" } else { "model" })].st;
    let (nst, rst, pst, mst) = (l.st("ModelNode"), l.st("ModelRegion"), l.st("ModelRegionPermutation"), l.st("ModelRegionPermutationMarker"));
    if !indices(gbx, v) { c[0] += 1 }
    if !items(l, st, v, "runtime_markers").is_empty() { c[0] += 1 }
    let mut unit = items(l, st, v, "nodes").iter().all(|n| unit_len(bits(sub(l, nst, n, "default_rotation"))));
    for r in items(l, st, v, "regions") { for p in items(l, rst, r, "permutations") { for m in items(l, pst, p, "markers") { unit &= unit_len(bits(sub(l, mst, m, "rotation"))) } } }
    if !unit { c[0] += 1 }
}
/// every index of a model refers to something
pub fn indices(gbx: bool, v: &V) -> bool {
    let l = layout();
    let st = l.groups[gid(if gbx { "gbxmodel" } else { "model" })].st;
    let (nst, rst, pst, mst) = (l.st("ModelNode"), l.st("ModelRegion"), l.st("ModelRegionPermutation"), l.st("ModelRegionPermutationMarker"));
    let (gst, gpst, bst) = (l.st(if gbx { "GBXModelGeometry" } else { "ModelGeometry" }), l.st("GBXModelGeometryPart"), l.st("ModelGeometryPart"));
    let (nodes, shaders, geos) = (items(l, st, v, "nodes").len() as u32, items(l, st, v, "shaders").len() as u32, items(l, st, v, "geometries").len() as u32);
    let below = |i: u32, n: u32| i == 0xFFFF || i < n;
    let mut ok = true;
    for n in items(l, st, v, "nodes") { for f in ["next_sibling_node_index", "first_child_node_index", "parent_node_index"] { ok &= below(int(l, nst, n, f), nodes) } }
    for r in items(l, st, v, "regions") { for p in items(l, rst, r, "permutations") {
        for f in ["super_low", "low", "medium", "high", "super_high"] { ok &= below(int(l, pst, p, f), geos) }
        for m in items(l, pst, p, "markers") { ok &= below(int(l, mst, m, "node_index"), nodes) }
    } }
    let local = gbx && int(l, st, v, "flags") & 2 != 0;
    for g in items(l, st, v, "geometries") { for p in items(l, gst, g, "parts") {
        let b = if gbx { sub(l, gpst, p, "model_geometry_part") } else { p };
        ok &= below(int(l, bst, b, "shader_index"), shaders);
        for f in ["centroid_primary_node", "centroid_secondary_node"] { ok &= below(int(l, bst, b, f), nodes) }
        // the model and all its parts agree on whether vertices use the part's own list of nodes
        if (int(l, bst, b, "flags") & 2 != 0) != local { ok = false; continue }
        let table: Option<Vec<u32>> = if local {
            let n = int(l, gpst, p, "local_node_count");
            if n > 22 { ok = false; continue }
            Some(items(l, gpst, p, "local_node_indices")[..n as usize].iter().map(num).collect())
        } else { None };
        let there = |i: u32| i == 0xFFFF || match &table { Some(t) => t.get(i as usize).is_some_and(|k| *k < nodes), None => i < nodes };
        for x in items(l, bst, b, "uncompressed_vertices") { let V::St(f) = x else { panic!() }; ok &= there(num(&f[5])) && there(num(&f[6])) }
        // packed vertices always use the nodes of the model
        for x in items(l, bst, b, "compressed_vertices") { let V::St(f) = x else { panic!() }; for k in [6, 7] { let i = num(&f[k]); if i < 253 { ok &= i / 3 < nodes } } }
    } }
    ok
}
fn pixels(v: &V, c: &mut Count) {
    let l = layout();
    let (st, dst) = (l.groups[gid("bitmap")].st, l.st("BitmapData"));
    let (enc, usage, plain) = (int(l, st, v, "encoding_format"), int(l, st, v, "usage"), int(l, st, v, "flags") & 2 != 0);
    let allowed: &[u32] = match enc { 0 => &[14], 1 => &[14, 15], 2 => &[14, 16], 3 => &[6, 8, 9], 4 => &[10, 11], 5 => &[0, 1, 2, 3], _ => &[18] };
    let mut wrong = 0;
    let all = data(sub(l, st, v, "processed_pixel_data")).len();
    for d in items(l, st, v, "bitmap_data") {
        let f = int(l, dst, d, "format");
        wrong += match (f == 17, plain) { (true, true) => 1, (true, false) => 0, (false, false) if usage == 2 || usage == 5 => 1, _ => !allowed.contains(&f) as u64 };
        let (w, h, z) = (int(l, dst, d, "width") as usize, int(l, dst, d, "height") as usize, int(l, dst, d, "depth") as usize);
        let kind = match int(l, dst, d, "type") { 0 => Kind::Flat, 1 => Kind::Solid(z), _ => Kind::Cube };
        if w == 0 || h == 0 || kind == Kind::Solid(0) { c[0] += 1; continue }
        let (_, block, size) = FORMATS.iter().find(|x| x.0 as u32 == f).unwrap();
        let need = walk(w, h, kind, *block, Some(int(l, dst, d, "mipmap_count") as usize), false).iter().map(|m| m[8]).sum::<usize>() * size;
        if int(l, dst, d, "pixel_data_offset") as usize + need > all { c[0] += 1 }
    }
    if wrong > 0 { c[0] += wrong + 1 }
}
fn sound_warnings(t: &Tag) -> u64 {
    let l = layout();
    let (rst, pst) = (l.st("SoundPitchRange"), l.st("SoundPermutation"));
    let st = l.groups[t.g].st;
    let link = |p: &V| { let n = int(l, pst, p, "next_permutation_index"); if n == 0 || n == 0xFFFF { None } else { Some(n as usize) } };
    let split = int(l, st, &t.v, "flags") & split_flag() != 0 || items(l, st, &t.v, "pitch_ranges").iter().any(|r| items(l, rst, r, "permutations").iter().any(|p| link(p).is_some()));
    let mut n = 0;
    for r in items(l, st, &t.v, "pitch_ranges") {
        let natural = fl(int(l, rst, r, "natural_pitch"));
        let natural = if natural <= 0.0 { 1.0 } else { natural };
        let V::Arr(b) = sub(l, rst, r, "bend_bounds") else { panic!() };
        let (lo, hi) = (fl(num(&b[0])), fl(num(&b[1])));
        if (lo != 0.0 && lo > natural) || (hi != 0.0 && hi < natural) { n += 1 }
        if split {
            let p = items(l, rst, r, "permutations");
            let first = p.iter().filter_map(link).fold(p.len(), usize::min);
            let mut used = vec![false; p.len()];
            for k in 0..first { let mut at = k; while at < p.len() && !used[at] { used[at] = true; match link(&p[at]) { Some(n) => at = n, None => break } } }
            if used.contains(&false) { n += 1 }
        }
    }
    n
}
fn split_flag() -> u32 { let l = layout(); l.bits.iter().find(|b| b.name == "SoundFlags").unwrap().options.iter().find(|o| o.matcher == "split_long_sound_into_permutations").unwrap().value }

// ------------------------------------------------------------------ running it
type Shared = Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>;
/// tags in memory, opened after seeded delays
pub struct MemTree { tags: HashMap<TagPath, (Option<Shared>, State)>, seed: u64, n: AtomicU64, fresh: bool }
impl MemTree {
    pub fn new(w: &World, seed: u64, fresh: bool) -> Result<Self, Fail> {
        let mut tags = HashMap::new();
        for t in w.tags.values() { tags.insert(tp(&t.path, t.g), (if t.state == State::Fine { Some(Arc::new(Mutex::new(tag_of(t.g, &t.v)?))) } else { None }, t.state)); }
        Ok(MemTree { tags, seed, n: AtomicU64::new(0), fresh })
    }
    fn wait(&self) {
        if self.seed == 0 { return }
        let x = mix(self.seed ^ mix(self.n.fetch_add(1, Ordering::Relaxed)));
        match x % 16 { 0..=3 => std::thread::yield_now(), 4..=6 => std::thread::sleep(std::time::Duration::from_micros(x >> 8 & 127)), _ => () }
    }
    fn find(&self, p: &TagPath) -> RinghopperResult<Shared> {
        self.wait();
        match self.tags.get(p) { None => Err(Error::TagNotFound(p.clone())), Some((Some(t), _)) => Ok(t.clone()), Some(_) => Err(Error::Other("damaged tag".into())) }
    }
}
impl TagTree for MemTree {
    fn open_tag_copy(&self, p: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { let t = self.find(p)?; let t = t.lock().unwrap().clone_inner(); self.wait(); Ok(t) }
    fn open_tag_shared(&self, p: &TagPath) -> RinghopperResult<Shared> { if self.fresh { self.open_tag_copy(p).map(|b| Arc::new(Mutex::new(b))) } else { self.find(p) } }
    fn files_in_path(&self, _: &str) -> Option<Vec<TagTreeItem>> { None }
    fn write_tag(&mut self, _: &TagPath, _: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> { panic!("the verifier wrote a tag") }
    fn is_read_only(&self) -> bool { true }
    fn contains(&self, p: &TagPath) -> bool { self.tags.contains_key(p) }
    fn root(&self) -> TagTreeItem { panic!("the verifier listed all tags") }
    fn tree_type(&self) -> TreeType { TreeType::LooseTags }
    fn get_all_tags_with_filter(&self, _: Option<&TagFilter>) -> Vec<TagPath> { self.tags.keys().cloned().collect() }
}
pub struct Report { pub of: BTreeMap<String, (Count, Vec<String>)> }
pub fn run_verifier(w: &World, threads: usize, seed: u64, mode: u64) -> Result<Result<Report, String>, Fail> {
    let tree = MemTree::new(w, seed, mode == 1)?;
    let (p, g) = w.scenario.rsplit_once('.').unwrap();
    let path = tp(p, gid(g));
    let en = engine(&w.engine);
    let (tx, rx) = mpsc::channel();
    std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let n = NonZeroUsize::new(threads).unwrap();
        let r = no_panic(|| if mode == 2 { verify(&path, CachingTagTree::new(tree, CachingTagTreeWriteStrategy::Manual), en, n) } else { verify(&path, tree, en, n) });
        let _ = tx.send(r.map(|r| r.map(|r| Report { of: r.into_iter().map(|(p, r)| (p.to_internal_path(), ([r.errors.len() as u64, r.warnings.len() as u64, r.pedantic_warnings.len() as u64], r.errors.into_iter().chain(r.warnings).chain(r.pedantic_warnings).collect()))).collect() }).map_err(|e| e.to_string())));
    }).expect("thread");
    match rx.recv_timeout(std::time::Duration::from_secs(20)) { Ok(r) => r, Err(_) => Err(Fail::new("verifier does not end", format!("{threads} threads, mode {mode}"))) }
}
/// tags the verifier must look at, or why it must refuse
pub fn reachable(w: &World) -> Result<BTreeSet<String>, &'static str> {
    let fine = |n: &str| w.tags.get(n).is_some_and(|t| t.state == State::Fine);
    if !fine(&w.scenario) { return Err("no scenario") }
    if !fine("globals\\globals.globals") { return Err("no globals") }
    match &w.hudg { Some(h) if fine(h) => (), _ => return Err("no HUD globals") }
    let mut out = BTreeSet::new();
    let mut todo: Vec<String> = w.required.iter().cloned().chain([w.scenario.clone()]).collect();
    while let Some(n) = todo.pop() {
        if !out.insert(n.clone()) { continue }
        let Some(t) = w.tags.get(&n) else { return Err("missing tag") };
        if referenceable()[t.g].is_empty() { continue }
        if t.state != State::Fine { return Err("unreadable tag") }
        todo.extend(direct(t.g, &t.v));
    }
    Ok(out)
}
/// the report is the expected one
pub fn agree(w: &World, want: &BTreeMap<String, Count>, got: &Report, threads: usize) -> R {
    let d = |n: &str| format!("{n} on {} ({}), {threads} threads", w.engine, ["singleplayer", "multiplayer", "user interface"][w.kind]);
    for n in want.keys() { ensure!(got.of.contains_key(n), "tag not verified", "{}", d(n)) }
    for n in got.of.keys() { ensure!(want.contains_key(n), "tag verified that is not used", "{}", d(n)) }
    for (n, c) in want {
        let g = &got.of[n];
        let gr = n.rsplit_once('.').unwrap().1;
        let sound = gr == "sound" && w.tags[n].state == State::Fine;
        if sound {
            // errors of the sound itself are only told apart from none
            let t = tag_of(w.tags[n].g, &w.tags[n].v)?;
            let own = !judge(t.as_any().downcast_ref().unwrap()).playable;
            ensure_eq!(g.0[0] > 0, own || c[0] > 0, format!("errors of {gr} tags"), "{}: {:?}", d(n), g.1);
            ensure!(g.0[0] >= c[0], format!("errors of {gr} tags"), "{}: {:?}", d(n), g.1);
        } else { ensure_eq!(g.0[0], c[0], format!("errors of {gr} tags"), "{}: {:?}", d(n), g.1) }
        ensure_eq!((g.0[1], g.0[2]), (c[1], c[2]), format!("warnings of {gr} tags"), "{}: {:?}", d(n), g.1);
    }
    Ok(())
}
fn c33(s: &mut Src, ctx: &mut Ctx) -> R {
    let l = layout();
    let w = gen_world(s);
    let reach = reachable(&w);
    let j = Judge::new(&w, reach.as_ref().unwrap_or(&BTreeSet::new()));
    let want: Option<BTreeMap<String, Count>> = reach.as_ref().ok().map(|r| r.iter().map(|n| (n.clone(), j.of(&w.tags[n]))).collect());
    let runs: Vec<(usize, u64, u64)> = (0..2).map(|i| (if i == 0 { 1 } else { *s.pick(&[2usize, 3, 8]) }, if i == 0 { 0 } else { 1 + s.below(1 << 40) }, s.below(3))).collect();
    for (threads, seed, mode) in runs {
        let d = |n: &str| format!("{n} on {} ({}), {threads} threads", w.engine, ["singleplayer", "multiplayer", "user interface"][w.kind]);
        let got = run_verifier(&w, threads, seed, mode)?;
        match (&want, got) {
            (None, Err(_)) => ctx.label("refused"),
            (None, Ok(_)) => fail!("verified although tags are missing", "{}: {:?}", d(&w.scenario), reach),
            (Some(_), Err(e)) => fail!("verifier refuses", "{}: {e}", d(&w.scenario)),
            (Some(want), Ok(got)) => {
                agree(&w, want, &got, threads)?;
            }
        }
    }
    if let Some(want) = &want {
        let bad = want.values().filter(|c| c[0] > 0).count();
        if bad == 0 { ctx.label("clean") } else { ctx.label("with faults") }
        for (n, c) in want { let t = &w.tags[n]; if richness(l, l.groups[t.g].st, &t.v) > 0 { ctx.label(&format!("{} {}", l.groups[t.g].name, if c[0] > 0 { "with errors" } else { "clean" })) } }
        ctx.sample(|| format!("{} kind {}: {} tags, faults {:?}", w.engine, w.kind, want.len(), want.iter().filter(|x| *x.1 != [0; 3]).collect::<Vec<_>>()));
        ctx.nontrivial_s(&format!("{:?}", w.tags.values().map(|t| &t.v).collect::<Vec<_>>()));
    }
    Ok(())
}

pub static C33: Check = Check {
    id: "C33", terminates: true,
    subs: &[Sub { name: "worlds", quick: 12_000, thorough: 300_000, run: c33 }],
    rule: "A case is one generated scenario with the tags its engine needs and up to sixteen others referring to each other, mostly valid and with faults seeded at one of four rates, verified with one thread and again with two, three or eight under seeded delays. Non-trivial: a tree that can be verified; distinct by all values.",
    assumptions: &["schedules are varied by seeded delays when tags are opened; interleavings are not enumerated", "errors of a sound are told apart from none, not counted (C36 decides what a playable sound is)"],
};

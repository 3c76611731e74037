//! Builds cache files out of tag values: what the harness believes a map compiler writes, with the
//! value each tag must have after it has been extracted again.
use crate::checks::bitmaps::{morton, walk, Kind};
use crate::checks::fields::*;
use crate::checks::geom::*;
use crate::checks::maphead::{meant, put16, put32, Head};
use crate::engine::*;
use crate::layout::*;
use crate::value::*;
use serde_json::Value;
use std::collections::HashMap;

// ------------------------------------------------------------------ engines
#[derive(Debug)]
pub struct Eng {
    pub name: String, pub base: u32, pub xbox: bool, pub ext_models: bool, pub ext_bsps: bool, pub packed: bool, pub inferred: bool,
    pub align: usize, pub cubesep: bool, pub modulo: bool, pub swizzled: bool, pub indexed: bool, pub loc: bool, pub version: u32, pub demo_header: bool,
    /// build strings by which this engine, or one that stores maps in exactly the same way, is recognised
    pub builds: Vec<String>
}
pub fn engs() -> &'static Vec<Eng> {
    static E: std::sync::OnceLock<Vec<Eng>> = std::sync::OnceLock::new();
    E.get_or_init(|| {
        let all = layout().json["engines"].as_object().unwrap();
        let props = |e: &Value| ["base", "inferred", "external_models", "external_bsps", "compressed_models", "bitmap", "resource_maps", "xbox"].iter().map(|k| e[k].to_string()).collect::<Vec<_>>();
        all.values().filter_map(|e| {
            let b = |k: &str| e[k] == true;
            let version = e["cache_file_version"].as_u64().unwrap() as u32;
            let mut own: Vec<String> = e["build"]["fallback"].as_array().into_iter().flatten().map(|x| x.as_str().unwrap().into()).collect();
            own.extend(e["build"]["string"].as_str().map(|x| x.to_string()));
            if b("cache_default") { own.push("00.00.00.0001".into()) }
            own.retain(|x| meant(version, x).is_some_and(|n| props(&all[n]) == props(e)));
            if own.is_empty() { return None }
            Some(Eng { name: e["name"].as_str().unwrap().into(), base: e["base"].as_u64().unwrap() as u32, xbox: b("xbox"), ext_models: b("external_models"), ext_bsps: b("external_bsps"), packed: b("compressed_models"), inferred: b("inferred"),
                align: e["bitmap"]["alignment"].as_u64().unwrap() as usize, cubesep: e["bitmap"]["cubemap_sep"] == true, modulo: e["bitmap"]["modulo"] == true, swizzled: e["bitmap"]["swizzled"] == true,
                indexed: e["resource_maps"]["ext"] == true, loc: e["resource_maps"]["loc"] == true, version, demo_header: version == 6, builds: own })
        }).collect()
    })
}
pub fn eng(name: &str) -> &'static Eng { engs().iter().find(|e| e.name == name).unwrap() }

// ------------------------------------------------------------------ resource maps
#[derive(Default, Clone)]
pub struct ResMap { pub bytes: Vec<u8>, pub entries: Vec<(String, usize, usize)>, pub used: bool }
impl ResMap {
    pub fn blob(&mut self, n: &mut Noise, b: &[u8]) -> usize {
        if self.bytes.is_empty() { self.bytes = vec![0; 16] }
        self.used = true;
        let k = n.below(9); n.fill(&mut self.bytes, k);
        let at = self.bytes.len(); self.bytes.extend_from_slice(b); at
    }
    pub fn entry(&mut self, n: &mut Noise, path: &str, b: &[u8]) -> usize { let at = self.blob(n, b); self.entries.push((path.into(), at, b.len())); self.entries.len() - 1 }
    pub fn finish(&self, n: &mut Noise, kind: u16) -> Vec<u8> {
        if !self.used { return vec![] }
        let mut b = self.bytes.clone();
        let paths_at = b.len();
        let mut off = vec![];
        for (p, ..) in &self.entries { off.push(b.len() - paths_at); b.extend(p.bytes()); b.push(0) }
        let k = n.below(5); n.fill(&mut b, k);
        let at = b.len();
        b.resize(at + 12 * self.entries.len(), 0);
        for (i, (_, o, l)) in self.entries.iter().enumerate() { put32(&mut b, at + 12 * i, off[i] as u32); put32(&mut b, at + 12 * i + 4, *l as u32); put32(&mut b, at + 12 * i + 8, *o as u32) }
        put16(&mut b, 0, kind); put32(&mut b, 4, paths_at as u32); put32(&mut b, 8, at as u32); put32(&mut b, 12, self.entries.len() as u32);
        b
    }
}
/// filler, from one drawn number
pub struct Noise(u64);
impl Noise {
    pub fn new(s: &mut Src) -> Self { Noise(s.u32() as u64) }
    fn next(&mut self) -> u64 { self.0 = mix(self.0); self.0 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn fill(&mut self, b: &mut Vec<u8>, n: usize) { for _ in 0..n { let x = self.next() as u8; b.push(x) } }
    pub fn u32(&mut self) -> u32 { self.next() as u32 }
}

// ------------------------------------------------------------------ what a map is built from
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Home { Tags, /// a level: index of its section
    Level(usize), /// stored whole in a resource map; entry index
    Indexed(u16, usize), /// pitch ranges in sounds.map
    Split }
pub struct Item { pub g: usize, pub path: String, pub map: V, pub want: V, pub near: Vec<Near>, pub home: Home, pub address: u32, /// which resource maps it needs
    pub uses: [bool; 3], /// extraction must be refused
    pub refuse: Option<&'static str> }
/// a number that cannot be recovered to the last bit: field path and allowed difference (relative to its size, or absolute)
#[derive(Clone)]
pub struct Near { pub at: Vec<usize>, pub abs: f64, pub rel: f64 }
impl Item { pub fn full(&self) -> String { format!("{}.{}", self.path, layout().groups[self.g].name) } pub fn group(&self) -> &'static str { &layout().groups[self.g].name } }

struct Dom { base: u32, buf: Vec<u8> }
pub struct World {
    pub eng: &'static Eng, pub items: Vec<Item>, doms: Vec<Dom>, pub file: Vec<u8>, pub bitmaps: ResMap, pub sounds: ResMap, pub loc: ResMap,
    vertices: Vec<u8>, triangles: Vec<u8>, level_vertices: Vec<Vec<u8>>, ids: HashMap<(u32, String), u32>, paths: HashMap<String, u32>, pub noise: Noise,
    /// parts of models: (item, part) -> where their vertices and indices are
    links: HashMap<usize, Vec<(u32, u32)>>, pub scenario: usize, pub salt: u32, pub spoil: bool
}

fn flip16(b: &mut [u8]) { for c in b.chunks_exact_mut(2) { c.swap(0, 1) } }
fn flip32(b: &mut [u8]) { for c in b.chunks_exact_mut(4) { c.reverse() } }
fn fbits(x: f64) -> V { V::W(vec![(x as f32).to_bits()]) }
fn fval(v: &V) -> f64 { f32::from_bits(bits(v)[0]) as f64 }
/// a number with at most five decimal digits, so that it survives rounding to six
fn nice(s: &mut Src) -> f64 { let k = match s.below(4) { 0 => s.below(10), 1 => s.below(1000), _ => s.below(100000) } as f64; let d = *s.pick(&[1.0, 10.0, 100.0, 1000.0, 10000.0]); let x = k / d; if s.chance(1, 4) { -x } else { x } }

impl World {
    pub fn new(s: &mut Src, eng: &'static Eng) -> World {
        let mut file = vec![0; 0x800];
        let mut noise = Noise::new(s);
        let k = noise.below(40); noise.fill(&mut file, k);
        // the tag data header and the array come first; the engine's base address is where tag data is loaded
        World { eng, items: vec![], doms: vec![Dom { base: eng.base, buf: vec![] }], file, bitmaps: Default::default(), sounds: Default::default(), loc: Default::default(), vertices: vec![], triangles: vec![], level_vertices: vec![], ids: HashMap::new(), paths: HashMap::new(), noise, links: HashMap::new(), scenario: 0, salt: 0, spoil: false }
    }
    // -------------------------------------------------------------- writing memory
    fn alloc(&mut self, d: usize, n: usize) -> u32 {
        // blocks of a level may also be placed in the shared tag data
        let d = if d > 0 && self.doms[d].base != 0 && self.noise.below(7) == 0 { 0 } else { d };
        let gap = if self.noise.below(4) == 0 { self.noise.below(12) } else { 0 };
        let pad = { let l = self.doms[d].buf.len() + gap; gap + (4 - l % 4) % 4 };
        self.noise.fill(&mut self.doms[d].buf, pad);
        let at = self.doms[d].buf.len();
        self.doms[d].buf.resize(at + n, 0);
        self.doms[d].base + at as u32
    }
    fn poke(&mut self, d: usize, at: u32, b: &[u8]) {
        let inside = |d: &Dom| at >= d.base && (at - d.base) as usize + b.len() <= d.buf.len();
        let d = if inside(&self.doms[d]) { d } else { assert!(inside(&self.doms[0]), "address {at:x}"); 0 };
        let o = (at - self.doms[d].base) as usize;
        self.doms[d].buf[o..o + b.len()].copy_from_slice(b);
    }
    fn word(&mut self, d: usize, at: u32, n: usize, v: u32) { self.poke(d, at, &v.to_le_bytes()[..n]) }
    fn junk(&mut self, d: usize, at: u32, n: usize) { let mut b = vec![]; self.noise.fill(&mut b, n); self.poke(d, at, &b) }
    fn text(&mut self, p: &str) -> u32 {
        if let Some(a) = self.paths.get(p) { return *a }
        let a = self.alloc(0, p.len() + 1);
        self.poke(0, a, p.as_bytes());
        self.paths.insert(p.into(), a);
        a
    }
    fn one(&mut self, d: usize, at: u32, f: &Field, v: &V) {
        let l = layout();
        match (&f.ty, v) {
            (Ty::Prim { unit, .. }, V::W(w)) => for (k, x) in w.iter().enumerate() { self.word(d, at + (k * unit.width()) as u32, unit.width(), *x) },
            (Ty::Str32, V::S32(b)) => { self.poke(d, at, b); let n = b.iter().position(|c| *c == 0).unwrap_or(31); if self.noise.below(4) == 0 && n < 31 { self.junk(d, at + n as u32 + 1, 31 - n) } }
            (Ty::Enum(_), V::N(n)) => self.word(d, at, 2, if f.shift { n.wrapping_sub(1) } else { *n }),
            (Ty::Bits(b), V::N(n)) => {
                let def = &l.bits[*b];
                let known = def.options.iter().filter(|o| !o.exclude && !o.non_cached).map(|o| o.value).fold(0, |a, b| a | b);
                let junk = if self.noise.below(3) == 0 { self.noise.u32() & !known } else { 0 };
                self.word(d, at, def.width / 8, n & known | junk)
            }
            (Ty::Struct(i), _) => self.structure(d, at, *i, v),
            (Ty::Refl(i), V::Refl(a)) => {
                let size = l.structs[*i].size;
                let addr = if a.is_empty() { *[0, self.noise.u32()].iter().nth(self.noise.below(2)).unwrap() } else { self.alloc(d, size * a.len()) };
                self.word(d, at, 4, a.len() as u32); self.word(d, at + 4, 4, addr); self.junk(d, at + 8, 4);
                for (k, x) in a.iter().enumerate() { self.structure(d, addr + (k * size) as u32, *i, x) }
            }
            (Ty::Ref(_), V::Ref(g, p)) => {
                self.word(d, at, 4, *g);
                if p.is_empty() { self.junk(d, at + 4, 8); self.word(d, at + 12, 4, u32::MAX); return }
                let id = self.ids[&(*g, p.clone())];
                let t = self.text(p);
                self.word(d, at + 4, 4, t); self.junk(d, at + 8, 4); self.word(d, at + 12, 4, id);
            }
            (Ty::Data(k), V::Data(b)) => {
                self.junk(d, at, 20);
                self.word(d, at, 4, b.len() as u32);
                match *k {
                    "FileData" => {
                        let out = !self.eng.xbox && self.noise.below(3) == 0;
                        let junk = self.noise.u32() & !1 | out as u32;
                        self.word(d, at + 4, 4, junk);
                        let off = if b.is_empty() { 0 } else if out { let mut n = Noise(self.noise.next()); self.sounds.blob(&mut n, b) } else { self.blob(b) };
                        self.word(d, at + 8, 4, off as u32);
                    }
                    "BSPVertexData" => {
                        if (f.matcher.starts_with("compressed")) != self.eng.packed { return }
                        let a = if b.is_empty() && self.eng.ext_bsps { 0 } else { self.alloc(d, b.len().max(4)) };
                        self.poke_if(d, a, b); self.word(d, at + 12, 4, a);
                    }
                    _ => { let a = if b.is_empty() { self.noise.u32() } else { self.alloc(d, b.len()) }; self.poke_if(d, a, b); self.word(d, at + 12, 4, a) }
                }
            }
            (t, v) => panic!("value {v:?} does not fit {t:?}")
        }
    }
    fn poke_if(&mut self, d: usize, at: u32, b: &[u8]) { if !b.is_empty() { self.poke(d, at, b) } }
    fn structure(&mut self, d: usize, at: u32, st: usize, v: &V) {
        let l = layout();
        let V::St(vs) = v else { panic!("not a struct {v:?}") };
        for (f, v) in l.structs[st].fields.iter().zip(vs) {
            let at = at + f.off as u32;
            if matches!(f.ty, Ty::Pad(_)) || !f.in_map() { self.junk(d, at, f.size); continue }
            match (f.count, v) { (Count::One, _) => self.one(d, at, f, v), (_, V::Arr(a)) => { let n = f.size / a.len(); for (k, x) in a.iter().enumerate() { self.one(d, at + (k * n) as u32, f, x) } } _ => panic!() }
        }
    }
    fn blob(&mut self, b: &[u8]) -> usize { let k = self.noise.below(17); self.noise.fill(&mut self.file, k); let at = self.file.len(); self.file.extend_from_slice(b); at }

    // -------------------------------------------------------------- from tags to maps
    /// What extraction gives, field for field, when nothing special happens to the group.
    fn plain(l: &Layout, st: usize, v: &V) -> V {
        fn one(l: &Layout, ty: &Ty, v: &V) -> V {
            match (ty, v) {
                (Ty::Struct(i), _) => World::plain(l, *i, v),
                (Ty::Refl(i), V::Refl(a)) => V::Refl(a.iter().map(|x| World::plain(l, *i, x)).collect()),
                (Ty::Bits(b), V::N(n)) => V::N(n & !l.bits[*b].options.iter().filter(|o| o.non_cached).map(|o| o.value).fold(0, |a, b| a | b)),
                _ => v.clone()
            }
        }
        let V::St(vs) = v else { panic!() };
        V::St(l.structs[st].fields.iter().zip(vs).map(|(f, v)| {
            if f.exclude || matches!(f.ty, Ty::Pad(_)) { return V::None }
            if f.non_cached { return default_field(l, f) }
            match (f.count, v) { (Count::One, _) => one(l, &f.ty, v), (_, V::Arr(a)) => V::Arr(a.iter().map(|x| one(l, &f.ty, x)).collect()), _ => panic!() }
        }).collect())
    }
    /// Tag `k` with the value `v`: decide what the map holds and what must come back.
    pub fn lower(&mut self, s: &mut Src, k: usize, v: V, patches: bool) {
        let l = layout();
        let st = l.groups[self.items[k].g].st;
        let (mut map, mut want) = (v.clone(), World::plain(l, st, &v));
        let mut near = vec![];
        let mut refuse = None;
        let group = self.items[k].group();
        let path = self.items[k].path.clone();
        match group {
            "actor_variant" => scaled(s, l, st, &mut map, &mut want, "grenades.grenade_velocity", 1.0 / 30.0),
            "damage_effect" => {
                scaled(s, l, st, &mut map, &mut want, "camera_shaking.wobble_period", 30.0);
                if patches && path == "weapons\\pistol\\bullet" { *at(l, st, &mut want, "damage.modifiers.elite_energy_shield") = fbits(1.0) }
            }
            "continuous_damage_effect" => scaled(s, l, st, &mut map, &mut want, "camera_shaking.wobble_period", 30.0),
            "light" => scaled(s, l, st, &mut map, &mut want, "effect_parameters.duration", 30.0),
            "point_physics" => for f in ["air_friction", "water_friction"] { scaled(s, l, st, &mut map, &mut want, f, 10000.0) },
            "sound" => {
                let x = nice(s).abs();
                *at(l, st, &mut want, "maximum_bend_rate") = fbits(x);
                *at(l, st, &mut map, "maximum_bend_rate") = fbits(x.powf(1.0 / 30.0));
                near.push(Near { at: vec![pos(l, st, "maximum_bend_rate")], abs: 0.0, rel: 1e-5 });
                let (rst, pst) = (l.st("SoundPitchRange"), l.st("SoundPermutation"));
                for (a, b) in items_mut(l, st, &mut map, "pitch_ranges").iter_mut().zip(items_mut(l, st, &mut want, "pitch_ranges")) { for (a, b) in items_mut(l, rst, a, "permutations").iter_mut().zip(items_mut(l, rst, b, "permutations")) {
                    if int(l, pst, b, "format") != 0 { continue }
                    let V::Data(d) = sub_mut(l, pst, b, "samples") else { panic!() };
                    if d.len() % 2 == 1 { if s.chance(1, 20) { refuse = Some("odd PCM data") } else { d.pop(); } }
                    let mut e = d.clone(); flip16(&mut e);
                    *sub_mut(l, pst, a, "samples") = V::Data(e);
                } }
            }
            "bitmap" => { self.bitmap(s, st, &mut map, &mut want); if self.spoil { refuse = spoil_bitmap(s, l, st, &mut map, self.eng) } }
            "model" | "gbxmodel" => refuse = self.model(s, k, group == "gbxmodel", &mut map, &mut want),
            "model_animations" => { animations(s, l, st, &mut map, &mut want); if self.spoil { refuse = spoil_animations(s, l, st, &mut map, &mut want) } }
            "scenario_structure_bsp" => self.level(s, k, st, &mut map, &mut want),
            _ => ()
        }
        if family(l, group, "projectile") {
            for f in ["minimum_velocity", "initial_velocity", "final_velocity"] { scaled(s, l, st, &mut map, &mut want, f, 1.0 / 30.0) }
            let mst = l.st("ProjectileMaterialResponse");
            let n = items(l, st, &map, "material_response").len();
            for i in 0..n { let pair: Vec<f64> = vec![nice(s), nice(s)];
                *sub_mut(l, mst, &mut items_mut(l, st, &mut want, "material_response")[i], "potential_and") = V::Arr(pair.iter().map(|x| fbits(*x)).collect());
                *sub_mut(l, mst, &mut items_mut(l, st, &mut map, "material_response")[i], "potential_and") = V::Arr(pair.iter().map(|x| fbits(x / 30.0)).collect()) }
        }
        if group == "weapon" && patches {
            let tst = l.st("WeaponTrigger");
            let deg = |a: f64, b: f64| V::Arr(vec![V::W(vec![((a as f32).to_radians()).to_bits()]), V::W(vec![((b as f32).to_radians()).to_bits()])]);
            if let Some(t) = items_mut(l, st, &mut want, "triggers").first_mut() {
                if path == "weapons\\pistol\\pistol" { *sub_mut(l, tst, t, "minimum_error") = V::W(vec![0]); *sub_mut(l, tst, t, "error_angle") = deg(0.2, 2.0) }
                if path == "weapons\\plasma rifle\\plasma rifle" { *sub_mut(l, tst, t, "error_angle") = deg(0.5, 5.0) }
            }
        }
        if let Some(p) = object_path(l, st) {
            let cst = l.st("ObjectChangeColors");
            let prefix = p.0;
            let where_ = if prefix.is_empty() { "change_colors".to_string() } else { format!("{prefix}.change_colors") };
            let mut route = vec![];
            { let mut st = st; for n in where_.split('.') { let i = pos(l, st, n); route.push(i); if let Ty::Struct(x) = l.structs[st].fields[i].ty { st = x } } }
            let n = match at(l, st, &mut map, &where_) { V::Refl(a) => a.len(), _ => panic!() };
            for i in 0..n {
                let count = { let V::Refl(a) = at(l, st, &mut map, &where_) else { panic!() }; items(l, cst, &a[i], "permutations").len() };
                if count == 0 { continue }
                let (mut cum, mut w): (Vec<f32>, Vec<f64>) = (vec![], vec![]);
                let share = |i: usize| if i + 1 == count { 1f32 } else { ((i + 1) as f64 / count as f64) as f32 };
                if count == 1 { cum.push(s.f32()); w.push(1.0) }
                else if s.chance(1, 25) {
                    // weights no compiler writes
                    cum = match s.below(if count > 2 { 5 } else { 3 }) { 3 | 4 => (0..count).map(|i| if i + 1 == count { 1.0 } else { 0.9 - 0.8 * i as f32 / count as f32 }).collect(), 0 => (0..count).map(|i| if i + 1 == count { 0.5 } else { 0.75 }).collect(), 1 => (0..count).map(|i| (i + 1) as f32 / (count as f32 + 1.0)).collect(), _ => (0..count).map(|i| if i == 0 { 1.5 } else { 1.0 }).collect() };
                    w = vec![0.0; count];
                    refuse = Some("weights that do not add up");
                }
                else if s.chance(1, 3) { for i in 0..count { cum.push(share(i)); w.push(1.0) } }
                else {
                    let mut cuts: Vec<u64> = (0..count - 1).map(|_| s.below(1001)).collect();
                    cuts.push(1000); cuts.sort();
                    let mut last = 0;
                    for c in &cuts { cum.push((*c as f64 / 1000.0) as f32); w.push((c - last) as f64 / 1000.0); last = *c }
                    if w.iter().all(|x| (x * count as f64 - 1.0).abs() < 0.003) { for (i, x) in w.iter_mut().enumerate() { *x = 1.0; cum[i] = share(i) } }
                    else { for j in 0..count { let mut a = route.clone(); a.extend([i, pos(l, cst, "permutations"), j, pos(l, l.st("ObjectChangeColorsPermutation"), "weight")]); near.push(Near { at: a, abs: 3e-7, rel: 0.0 }) } }
                }
                let cum: Vec<u32> = cum.iter().map(|x| x.to_bits()).collect();
                self.put_weights(l, st, &where_, i, &mut map, &mut want, &cum, &w);
            }
        }
        let it = &mut self.items[k];
        it.map = map; it.want = want; it.near = near; it.refuse = refuse;
    }
    fn put_weights(&self, l: &Layout, st: usize, where_: &str, i: usize, map: &mut V, want: &mut V, cum: &[u32], w: &[f64]) {
        let (cst, pst) = (l.st("ObjectChangeColors"), l.st("ObjectChangeColorsPermutation"));
        for (v, f) in [(map, 0), (want, 1)] {
            let V::Refl(a) = at(l, st, v, where_) else { panic!() };
            for (j, p) in items_mut(l, cst, &mut a[i], "permutations").iter_mut().enumerate() { *sub_mut(l, pst, p, "weight") = if f == 0 { V::W(vec![cum[j]]) } else { fbits(w[j]) } }
        }
    }
    fn bitmap(&mut self, s: &mut Src, st: usize, map: &mut V, want: &mut V) {
        let l = layout();
        let e = self.eng;
        if int(l, st, want, "type") == 3 {
            let (qst, spst) = (l.st("BitmapGroupSequence"), l.st("BitmapGroupSprite"));
            for q in items_mut(l, st, want, "bitmap_group_sequence") {
                let sp = items(l, qst, q, "sprites");
                let n = sp.len();
                let low = sp.iter().map(|x| int(l, spst, x, "bitmap_index")).filter(|x| *x != 0xFFFF).min();
                set_int(l, qst, q, "bitmap_count", (n == 1) as u32);
                set_int(l, qst, q, "first_bitmap_index", low.unwrap_or(0xFFFF));
            }
        }
        let dst = l.st("BitmapData");
        let mut all = vec![];
        let n = items(l, st, map, "bitmap_data").len();
        for i in 0..n {
            let fv = *s.pick(&[0u32, 1, 2, 3, 6, 8, 9, 10, 11, 14, 15, 16, 17, 18]);
            let (block, bytes) = match fv { 0 | 1 | 2 | 17 => (1, 1), 3 | 6 | 8 | 9 => (1, 2), 10 | 11 => (1, 4), 14 => (4, 8), _ => (4, 16) };
            let swizzled = e.swizzled && block == 1 && s.chance(2, 3);
            let kind = match s.below(5) { 0 => Kind::Cube, 1 => Kind::Solid(1 << s.below(4)), _ => Kind::Flat };
            let dim = |s: &mut Src| -> usize { let x: usize = if swizzled || s.bool() { 1 << s.below(6) } else { s.usize(1, 24) }; if e.modulo { x.div_ceil(block) * block } else { x } };
            let (w, mut h) = (dim(s), dim(s));
            let kind = match kind { Kind::Solid(_) if swizzled => Kind::Solid(w), k => k };
            if kind != Kind::Flat && (swizzled || kind == Kind::Cube) { h = w }
            let mips = match s.below(3) { 0 => 0, 1 => s.usize(0, 2), _ => s.usize(0, 9) };
            // what is stored: on consoles, only levels made of whole blocks
            let levels = walk(w, h, kind, block, Some(mips), false);
            let stored = if e.modulo { levels.iter().take_while(|f| f[2] % block == 0 && f[3] % block == 0).count() - 1 } else { mips };
            let faces = walk(w, h, kind, block, Some(stored), true);
            let total: usize = faces.iter().map(|f| f[8]).sum::<usize>() * bytes;
            let mut pixels = vec![]; { let mut n = Noise::new(s); n.fill(&mut pixels, total) }
            // the order of pixels as the map has it
            let mut stored_pixels = pixels.clone();
            if swizzled {
                let per = walk(w, h, kind, block, Some(stored), kind == Kind::Cube);
                for f in per {
                    let (fw, fh, fd, off) = (f[2], f[3], if kind == Kind::Cube { 1 } else { f[4] }, f[5] * bytes);
                    for z in 0..fd { for y in 0..fh { for x in 0..fw {
                        let (from, to) = (off + ((z * fh + y) * fw + x) * bytes, off + morton(x, y, z, fw, fh, fd) * bytes);
                        stored_pixels[to..to + bytes].copy_from_slice(&pixels[from..from + bytes]);
                    } } }
                }
            }
            let mut data;
            if e.cubesep && kind == Kind::Cube {
                let one: usize = faces.iter().filter(|f| f[1] == 0).map(|f| f[8] * bytes).sum();
                let padded = one.div_ceil(e.align) * e.align;
                data = vec![]; { let n = &mut self.noise; n.fill(&mut data, padded * 6) }
                // face regions hold faces +x -x +y -y .. in the order 0 2 1 3 4 5
                for f in &faces {
                    let slot = [0, 2, 1, 3, 4, 5][f[1]];
                    let before: usize = faces.iter().filter(|g| g[1] == 0 && g[0] < f[0]).map(|g| g[8] * bytes).sum();
                    let at = slot * padded + before;
                    data[at..at + f[8] * bytes].copy_from_slice(&stored_pixels[f[5] * bytes..(f[5] + f[8]) * bytes]);
                }
            }
            else {
                data = stored_pixels;
                let pad = (e.align - data.len() % e.align) % e.align;
                self.noise.fill(&mut data, pad);
                if e.modulo && s.bool() { let k = s.usize(0, 2) * e.align; self.noise.fill(&mut data, k) }
            }
            let out = !e.xbox && s.chance(1, 3);
            let off = if out { let mut n = Noise(self.noise.next()); self.bitmaps.blob(&mut n, &data) } else { self.blob(&data) };
            let flags = s.u16() as u32 & !(2 | 8 | 256) | if block == 4 { 2 } else { 0 } | if swizzled { 8 } else { 0 } | if out { 256 } else { 0 };
            let ty = match kind { Kind::Cube => 2, Kind::Solid(_) => 1, _ => if s.chance(1, 6) { 3 } else { 0 } };
            for (v, tag) in [(&mut *map, false), (&mut *want, true)] {
                let b = &mut items_mut(l, st, v, "bitmap_data")[i];
                for (f, x) in [("width", w as u32), ("height", h as u32), ("depth", if let Kind::Solid(d) = kind { d as u32 } else { 1 }), ("type", ty), ("format", fv), ("flags", flags & l.bits.iter().find(|b| b.name == "BitmapDataFlags").unwrap().options.iter().map(|o| o.value).fold(0, |a, b| a | b)),
                    ("mipmap_count", if tag { stored } else { mips } as u32), ("pixel_data_offset", if tag { all.len() } else { off } as u32), ("pixel_data_size", data.len() as u32)] { set_int(l, dst, b, f, x) }
            }
            all.extend(pixels);
        }
        *at(l, st, want, "processed_pixel_data") = V::Data(all);
    }
    fn model(&mut self, s: &mut Src, k: usize, gbx: bool, map: &mut V, want: &mut V) -> Option<&'static str> {
        let l = layout();
        let st = l.group(if gbx { "gbxmodel" } else { "model" }).st;
        let mut refuse = None;
        // the caller gives a model in tag form; keep its geometry
        let shape = Shape { compressed: self.eng.packed, uncompressed: !self.eng.packed, ..gen_shape(s, gbx) };
        let gen = gen_model(s, gbx, &shape);
        *map = gen.clone(); *want = World::plain(l, st, &gen);
        // references point into the map only
        let paths = self.all_paths();
        let sst = l.st("ModelShaderReference");
        for i in 0..items(l, st, map, "shaders").len() { let mut g = Gen { paths: paths.clone(), ..Default::default() }; let f = &l.structs[sst].fields[pos(l, sst, "shader")]; let r = g.field(s, l, f); for v in [&mut *map, &mut *want] { *sub_mut(l, sst, &mut items_mut(l, st, v, "shaders")[i], "shader") = r.clone() } }
        let fl = int(l, st, map, "flags"); set_int(l, st, map, "flags", fl & !1 | s.bool() as u32); set_int(l, st, want, "flags", fl & !1);
        for (a, b) in [("super_high", "super_low"), ("high", "low")] { let cst = l.st("ModelDetailCutoff"); let c = sub_mut(l, st, map, "detail_cutoff"); let (x, y) = (sub(l, cst, c, a).clone(), sub(l, cst, c, b).clone()); *sub_mut(l, cst, c, a) = y; *sub_mut(l, cst, c, b) = x }
        // markers are stored together
        let (rst, pst, mst, ist, pmst) = (l.st("ModelRegion"), l.st("ModelRegionPermutation"), l.st("ModelMarker"), l.st("ModelMarkerInstance"), l.st("ModelRegionPermutationMarker"));
        let spots: Vec<(usize, usize)> = items(l, st, map, "regions").iter().enumerate().flat_map(|(i, r)| (0..items(l, rst, r, "permutations").len()).map(move |j| (i, j))).collect();
        let mut runtime = vec![];
        if !spots.is_empty() && shape.nodes > 0 { for _ in 0..s.below(4) {
            let mut g = Gen { budget: 200, ..Default::default() };
            let mut m = g.structure(s, l, mst);
            let mut inst = vec![];
            for _ in 0..s.below(4) {
                let mut x = Gen { budget: 100, ..Default::default() }.structure(s, l, ist);
                let (r, p) = *s.pick(&spots);
                let n = s.below(shape.nodes as u64) as u32;
                set_int(l, ist, &mut x, "region_index", r as u32); set_int(l, ist, &mut x, "permutation_index", p as u32); set_int(l, ist, &mut x, "node_index", n);
                let mut pm = default_struct(l, pmst);
                *sub_mut(l, pmst, &mut pm, "name") = sub(l, mst, &m, "name").clone();
                set_int(l, pmst, &mut pm, "node_index", n);
                for f in ["rotation", "translation"] { *sub_mut(l, pmst, &mut pm, f) = sub(l, ist, &x, f).clone() }
                if s.chance(1, 60) { let f = *s.pick(&["region_index", "permutation_index", "node_index"]); set_int(l, ist, &mut x, f, 255); refuse = Some("marker out of bounds") }
                items_mut(l, pst, &mut items_mut(l, rst, &mut items_mut(l, st, want, "regions")[r], "permutations")[p], "markers").push(pm);
                inst.push(x);
            }
            *items_mut(l, mst, &mut m, "instances") = inst;
            runtime.push(m);
        } }
        *items_mut(l, st, map, "runtime_markers") = runtime;
        items_mut(l, st, want, "runtime_markers").clear();
        let (bst, vst) = (l.st("ModelGeometryPart"), l.st("ModelVertexReference"));
        let mut links = vec![];
        let verts = if self.eng.packed { "compressed_vertices" } else { "uncompressed_vertices" };
        let mut wanted = parts_mut(want, gbx);
        for (i, p) in parts_mut(map, gbx).into_iter().enumerate() {
            let list = items(l, bst, p, verts).to_vec();
            let vs = l.st(if self.eng.packed { "ModelVertexCompressed" } else { "ModelVertexUncompressed" });
            let t = match s.below(5) { 0 => 0, _ => s.usize(1, 12) };
            let idx: Vec<u32> = (0..if t == 0 { 0 } else { t + 2 }).map(|_| if s.chance(1, 6) { 0xFFFF } else { s.u16() as u32 }).collect();
            // where they go
            let (va, ta);
            let size = l.structs[vs].size;
            let enc = |w: &mut World, vs: usize, list: &[V]| -> Vec<u8> { w.doms.push(Dom { base: 0, buf: vec![0; size * list.len()] }); let d = w.doms.len() - 1; for (i, x) in list.iter().enumerate() { w.structure(d, (i * size) as u32, vs, x) } w.doms.pop().unwrap().buf };
            let vb = enc(self, vs, &list);
            let tb: Vec<u8> = idx.iter().flat_map(|x| (*x as u16).to_le_bytes()).collect();
            if self.eng.ext_models {
                let j = self.noise.below(9); let n = &mut self.noise; n.fill(&mut self.vertices, j); va = self.vertices.len() as u32; self.vertices.extend(&vb);
                let j = n.below(9); n.fill(&mut self.triangles, j); ta = self.triangles.len() as u32; self.triangles.extend(&tb);
            } else {
                let a = self.alloc(0, vb.len().max(4)); self.poke_if(0, a, &vb);
                ta = self.alloc(0, tb.len().max(4)); self.poke_if(0, ta, &tb);
                va = if self.eng.packed { let q = self.alloc(0, 12); self.junk(0, q, 12); self.word(0, q + 4, 4, a); q } else { a };
            }
            let r = sub_mut(l, bst, p, "vertices");
            set_int(l, vst, r, "vertex_count", list.len() as u32);
            set_int(l, vst, r, "vertex_pointer", va);
            set_int(l, bst, p, "triangle_count", t as u32);
            set_int(l, bst, p, "triangle_pointer", ta);
            links.push((va, ta));
            let q = &mut wanted[i];
            *items_mut(l, bst, q, verts) = list;
            let tri = |a: &[u32]| V::St(vec![V::Arr((0..3).map(|i| V::W(vec![a.get(i).copied().unwrap_or(0xFFFF)])).collect())]);
            *items_mut(l, bst, q, "triangle_data") = idx.chunks(3).map(tri).collect();
        }
        self.links.insert(k, links);
        refuse
    }
    pub fn all_paths(&self) -> Vec<(u32, String)> { self.items.iter().map(|i| (layout().groups[i.g].fourcc, i.path.clone())).collect() }
    fn level(&mut self, s: &mut Src, k: usize, st: usize, map: &mut V, want: &mut V) {
        let l = layout();
        let Home::Level(section) = self.items[k].home else { panic!() };
        let (lst, mst, rst) = (l.st("ScenarioStructureBSPLightmap"), l.st("ScenarioStructureBSPMaterial"), l.st("ModelVertexReference"));
        let mut ext = vec![];
        let mut gen = Gen { budget: 400, max_items: 2, fill_unstored: true, paths: self.all_paths(), ..Default::default() };
        let (mut ml, mut wl) = (vec![], vec![]);
        for _ in 0..s.usize(0, 2) {
            let mut lm = gen.structure(s, l, lst);
            let mut wm = World::plain(l, lst, &lm);
            let n = s.usize(0, 3);
            let (mut mm, mut mw) = (vec![], vec![]);
            for _ in 0..n {
                gen.budget = 150;
                let mut m = gen.structure(s, l, mst);
                let r = match s.below(6) { 0 => 0, 1 => s.usize(10, 30), _ => s.usize(1, 5) };
                let c = if s.chance(1, 3) { 0 } else { r };
                let data = if self.eng.packed { packed_vertices(s, r, c) } else { full_vertices(s, r, c, &mut |s| [s.irange(-1000, 1000) as f32 / 1000.0, 0.25, -0.5]) };
                for (f, n) in [("rendered_vertices", r), ("lightmap_vertices", c)] { set_int(l, rst, sub_mut(l, mst, &mut m, f), "vertex_count", n as u32) }
                let mine = if self.eng.packed { "compressed_vertices" } else { "uncompressed_vertices" };
                for f in ["compressed_vertices", "uncompressed_vertices"] { *sub_mut(l, mst, &mut m, f) = V::Data(vec![]) }
                let mut w = World::plain(l, mst, &m);
                *sub_mut(l, mst, &mut w, mine) = V::Data(data.clone());
                if self.eng.ext_bsps && (data.is_empty() || s.bool()) {
                    let cut = if self.eng.packed { r * 32 } else { r * 56 };
                    for (f, part) in [("rendered_vertices", &data[..cut]), ("lightmap_vertices", &data[cut..])] { let j = self.noise.below(9); self.noise.fill(&mut ext, j); set_int(l, rst, sub_mut(l, mst, &mut m, f), "offset", ext.len() as u32); ext.extend_from_slice(part) }
                }
                else { *sub_mut(l, mst, &mut m, mine) = V::Data(data) }
                mm.push(m); mw.push(w);
            }
            *items_mut(l, lst, &mut lm, "materials") = mm; *items_mut(l, lst, &mut wm, "materials") = mw;
            ml.push(lm); wl.push(wm);
        }
        *items_mut(l, st, map, "lightmaps") = ml; *items_mut(l, st, want, "lightmaps") = wl;
        self.level_vertices[section] = ext;
    }
    /// heights of detail objects, once the scenario's palette is known (32 offsets)
    fn heights(&mut self, s: &mut Src, k: usize, z: &[f64; 32]) {
        let l = layout();
        let st = l.groups[self.items[k].g].st;
        let (dst, cst, vst) = (l.st("ScenarioStructureBSPDetailObjectData"), l.st("ScenarioStructureBSPGlobalDetailObjectCell"), l.st("ScenarioStructureBSPGlobalZReferenceVector"));
        let n = items(l, st, &self.items[k].map, "detail_objects").len();
        for i in 0..n {
            let (mut cells, mut vectors) = (vec![], vec![]);
            let mut heights: Vec<f64> = vec![];
            for _ in 0..s.usize(0, 3) {
                let mut c = Gen { budget: 100, ..Default::default() }.structure(s, l, cst);
                let layers = match s.below(4) { 0 => 0, 1 => 1 << s.below(32), 2 => s.u32() & s.u32() & s.u32(), _ => s.u32() & 0xF };
                set_int(l, cst, &mut c, "valid_layers_flags", layers);
                let gap = s.usize(0, 2);
                let start = vectors.len() + gap;
                set_int(l, cst, &mut c, "count_index", start as u32);
                let last = start + layers.count_ones() as usize;
                while vectors.len() < last { let v = Gen { budget: 100, ..Default::default() }.structure(s, l, vst); heights.push(fval(sub(l, vst, &v, "z_reference_l"))); vectors.push(v) }
                let mut at = start;
                for b in 0..32 { if layers >> b & 1 == 1 { heights[at] -= z[b]; at += 1 } }
                cells.push(c);
            }
            let it = &mut self.items[k];
            for (v, tag) in [(&mut it.map, false), (&mut it.want, true)] {
                let d = &mut items_mut(l, st, v, "detail_objects")[i];
                *items_mut(l, dst, d, "cells") = cells.clone();
                let mut x = vectors.clone();
                if tag { for (x, h) in x.iter_mut().zip(&heights) { *sub_mut(l, vst, x, "z_reference_l") = fbits(*h) } }
                *items_mut(l, dst, d, "z_reference_vectors") = x;
            }
        }
    }
}
fn scaled(s: &mut Src, l: &Layout, st: usize, map: &mut V, want: &mut V, f: &str, factor: f64) {
    let x = nice(s);
    *at(l, st, want, f) = fbits(x);
    *at(l, st, map, f) = fbits(x * factor);
}
pub fn frame_layout(l: &Layout, a: &V, invert: bool) -> Vec<usize> {
    let st = l.st("ModelAnimationsAnimation");
    let flags = |n: &str| { let w: Vec<u32> = items(l, st, a, n).iter().map(|x| bits(x)[0]).collect(); let f = (w[1] as u64) << 32 | w[0] as u64; if invert { !f } else { f } };
    let (r, t, c) = (flags("node_rotation_flag_data"), flags("node_transform_flag_data"), flags("node_scale_flag_data"));
    let n = int(l, st, a, "node_count").min(64);
    let mut out = vec![];
    for i in 0..n { if r >> i & 1 == 1 { out.push(0) } if t >> i & 1 == 1 { out.push(1) } if c >> i & 1 == 1 { out.push(2) } }
    out
}
pub const FRAME_SIZES: [usize; 3] = [8, 12, 4];
/// swap the bytes of each number of frames laid out as given
pub fn flip_frames(b: &mut [u8], parts: &[usize]) {
    let mut o = 0;
    if parts.is_empty() { return }
    while o < b.len() { for p in parts { let n = FRAME_SIZES[*p]; if o + n > b.len() { return } if *p == 0 { flip16(&mut b[o..o + n]) } else { flip32(&mut b[o..o + n]) } o += n } }
}
pub fn calm_frames(b: &mut [u8], parts: &[usize]) {
    let mut o = 0;
    if parts.is_empty() { return }
    while o < b.len() { for p in parts { let n = FRAME_SIZES[*p]; if o + n > b.len() { return } if *p != 0 { for c in b[o..o + n].chunks_exact_mut(4) { if c[0] & 0x7F == 0x7F { c[0] &= 0xBF } } } o += n } }
}
pub fn info_size(kind: u32) -> usize { match kind { 1 => 8, 2 => 12, 3 => 16, _ => 0 } }
fn animations(s: &mut Src, l: &Layout, st: usize, map: &mut V, want: &mut V) {
    let ast = l.st("ModelAnimationsAnimation");
    for i in 0..items(l, st, map, "animations").len() {
        let a = &mut items_mut(l, st, map, "animations")[i];
        let w = &mut items_mut(l, st, want, "animations")[i];
        let nodes = *s.pick(&[0u32, 1, 2, 5, 31, 32, 33, 63, 64]);
        let frames = match s.below(4) { 0 => 0, 1 => 1, _ => s.below(6) as u32 };
        let kind = s.below(4) as u32;
        let density = *s.pick(&[0u64, 3, 50, 97, 100]);
        let mask = |s: &mut Src| -> Vec<V> { (0..2).map(|_| V::W(vec![(0..32).fold(0, |m, b| m | ((s.below(100) < density) as u32) << b)])).collect() };
        for f in ["node_rotation_flag_data", "node_transform_flag_data", "node_scale_flag_data"] { let m = mask(s); *items_mut(l, ast, a, f) = m.clone(); *items_mut(l, ast, w, f) = m }
        let packed = s.chance(1, 4);
        let bit = l.bits.iter().find(|b| b.name == "ModelAnimationsAnimationFlags").unwrap().options.iter().find(|o| o.matcher == "compressed_data").unwrap().value;
        let fl = int(l, ast, a, "flags") & !bit | if packed { bit } else { 0 };
        for v in [&mut *a, &mut *w] { set_int(l, ast, v, "node_count", nodes); set_int(l, ast, v, "frame_count", frames); set_int(l, ast, v, "frame_info_type", kind); set_int(l, ast, v, "flags", fl) }
        let mut noise = Noise::new(s);
        let mut data = |n: usize| { let mut b = vec![]; noise.fill(&mut b, n); b };
        // numbers, not bit patterns that change when they are loaded and stored
        let mut info = data(info_size(kind) * frames as usize);
        for c in info.chunks_exact_mut(4) { if c[0] & 0x7F == 0x7F { c[0] &= 0xBF } }
        let (parts, rest) = (frame_layout(l, a, false), frame_layout(l, a, true));
        let size = |p: &[usize]| p.iter().map(|p| FRAME_SIZES[*p]).sum::<usize>();
        let mut i2 = info.clone(); flip32(&mut i2);
        *sub_mut(l, ast, w, "frame_info") = V::Data(info); *sub_mut(l, ast, a, "frame_info") = V::Data(i2);
        let total = size(&parts) * frames as usize;
        if packed {
            let n = (total + size(&rest)) % 37;
            let extra = data(n);
            let mut all = vec![0; total]; all.extend(&extra);
            *sub_mut(l, ast, w, "frame_data") = V::Data(all); *sub_mut(l, ast, a, "frame_data") = V::Data(extra);
            *sub_mut(l, ast, w, "default_data") = V::Data(vec![0; size(&rest)]);
            let any = data(n % 5); *sub_mut(l, ast, a, "default_data") = V::Data(any);
            set_int(l, ast, w, "offset_to_compressed_data", total as u32);
        } else {
            let (mut f, mut d) = (data(total), data(size(&rest)));
            calm_frames(&mut f, &parts); calm_frames(&mut d, &rest);
            let (mut f2, mut d2) = (f.clone(), d.clone());
            flip_frames(&mut f2, &parts); flip_frames(&mut d2, &rest);
            *sub_mut(l, ast, w, "frame_data") = V::Data(f); *sub_mut(l, ast, a, "frame_data") = V::Data(f2);
            *sub_mut(l, ast, w, "default_data") = V::Data(d); *sub_mut(l, ast, a, "default_data") = V::Data(d2);
        }
    }
}

/// Change the sizes or the layout of one animation; what no longer fits must be refused.
/// changes one thing about one image so that the tag cannot be extracted
fn spoil_bitmap(s: &mut Src, l: &Layout, st: usize, map: &mut V, e: &Eng) -> Option<&'static str> {
    let dst = l.st("BitmapData");
    let n = items(l, st, map, "bitmap_data").len();
    if n == 0 { return None }
    let k = s.below(n as u64) as usize;
    let b = &mut items_mut(l, st, map, "bitmap_data")[k];
    let get = |b: &V, f: &str| int(l, dst, b, f);
    let (flags, ty, fv) = (get(b, "flags"), get(b, "type"), get(b, "format"));
    let block = if fv >= 14 && fv != 17 { 4u32 } else { 1 };
    let (f, x, why) = match s.below(8) {
        0 => ("flags", flags ^ 2, "compressed flag that does not fit the format"),
        1 if !e.swizzled || block == 4 => ("flags", flags | 8, "swizzled flag where nothing is swizzled"),
        2 if ty != 1 => ("depth", *s.pick(&[2u32, 4, 65535]), "flat image with depth"),
        3 if ty == 1 => ("depth", *s.pick(&[3u32, 6, 65535]), "depth that is no power of two"),
        4 => (*s.pick(&["width", "height", "depth"]), 0, "image without size"),
        5 if e.modulo && block == 4 => { let f = *s.pick(&["width", "height"]); (f, get(b, f) - s.range(1, 3) as u32, "image that is not made of blocks") }
        6 => ("pixel_data_size", get(b, "pixel_data_size").checked_sub(1)?, "pixels cut short"),
        7 => ("pixel_data_offset", *s.pick(&[0xFFFF_FFF0u32, 0x7FFF_FFFF, 0xFFFF_FFFF]), "pixels outside of the map"),
        _ => return None
    };
    set_int(l, dst, b, f, x);
    Some(why)
}
fn spoil_animations(s: &mut Src, l: &Layout, st: usize, map: &mut V, want: &mut V) -> Option<&'static str> {
    let ast = l.st("ModelAnimationsAnimation");
    let n = items(l, st, map, "animations").len();
    if n == 0 { return None }
    let i = s.below(n as u64) as usize;
    let a = &mut items_mut(l, st, map, "animations")[i];
    let w = &mut items_mut(l, st, want, "animations")[i];
    let bit = l.bits.iter().find(|b| b.name == "ModelAnimationsAnimationFlags").unwrap().options.iter().find(|o| o.matcher == "compressed_data").unwrap().value;
    let packed = int(l, ast, a, "flags") & bit != 0;
    match s.below(7) {
        0..=2 => {
            let f = *s.pick(&["frame_data", "default_data", "frame_info"]);
            let V::Data(d) = sub_mut(l, ast, a, f) else { panic!() };
            let k = *s.pick(&[1usize, 2, 4, 8, 12, 24, 1000]);
            if s.bool() { let n = d.len().saturating_sub(k); d.truncate(n) } else { d.resize(d.len() + k, 1) }
        }
        3 => { let f = *s.pick(&["node_rotation_flag_data", "node_transform_flag_data", "node_scale_flag_data"]); let (x, y) = (s.below(2) as usize, s.below(32)); for v in [&mut *a, &mut *w] { let V::W(b) = &mut items_mut(l, ast, v, f)[x] else { panic!() }; b[0] ^= 1 << y } }
        4 => { let c = int(l, ast, a, "node_count"); let x = match s.below(5) { 0 => c + 1, 1 => c.saturating_sub(1), 2 => 65 + s.below(100) as u32, 3 => 0xFFFF, _ => s.below(65) as u32 }; for v in [&mut *a, &mut *w] { set_int(l, ast, v, "node_count", x) } }
        5 => { let c = int(l, ast, a, "frame_count"); let x = match s.below(4) { 0 => c + 1, 1 => c.saturating_sub(1), 2 => 0, _ => s.below(200) as u32 }; for v in [&mut *a, &mut *w] { set_int(l, ast, v, "frame_count", x) } }
        _ => { let x = s.below(4) as u32; for v in [&mut *a, &mut *w] { set_int(l, ast, v, "frame_info_type", x) } }
    }
    let len = |v: &V, f: &str| match sub(l, ast, v, f) { V::Data(d) => d.len(), _ => panic!() };
    let size = |p: &[usize]| p.iter().map(|p| FRAME_SIZES[*p]).sum::<usize>();
    let (nodes, frames) = (int(l, ast, a, "node_count"), int(l, ast, a, "frame_count") as usize);
    let (parts, rest) = (size(&frame_layout(l, a, false)) * frames, size(&frame_layout(l, a, true)));
    if nodes > 64 { return Some("more than 64 nodes") }
    if info_size(int(l, ast, a, "frame_info_type")) * frames != len(a, "frame_info") { return Some("wrong frame info") }
    if packed {
        let V::Data(d) = sub(l, ast, a, "frame_data").clone() else { panic!() };
        let mut all = vec![0; parts]; all.extend(d);
        *sub_mut(l, ast, w, "frame_data") = V::Data(all);
        *sub_mut(l, ast, w, "default_data") = V::Data(vec![0; rest]);
        set_int(l, ast, w, "offset_to_compressed_data", parts as u32);
    } else {
        if parts != len(a, "frame_data") { return Some("wrong frame data") }
        if rest != len(a, "default_data") { return Some("wrong default data") }
    }
    None
}

// ------------------------------------------------------------------ whole maps
#[derive(Default, Clone)]
pub struct Options { /// groups that must be in the map
    pub groups: Vec<usize>, pub extra: usize, /// leave out resource maps
    pub lose: bool, /// make some animations inconsistent
    pub spoil: bool, pub budget: i64, /// long lists and large data
    pub large: bool }
pub struct Built {
    pub map: Vec<u8>, pub res: [Vec<u8>; 3], pub items: Vec<Item>, pub head: Head, pub crc: u32, pub base: u32, pub tag_len: usize, pub tags_at: usize, /// where levels are loaded, and how long they are
    pub levels: Vec<(u32, usize)>, pub kind: u32, pub eng: &'static Eng, pub scenario: usize, /// lost resource maps: bitmaps, sounds, loc
    pub lost: [bool; 3],
    /// places in the file worth damaging
    pub spots: Vec<usize>,
    /// where the tag array is in the file, and the entries of the items in it
    pub array: usize, pub place: Vec<usize>, pub count: usize, /// where the scenario is in the file
    pub scenario_at: usize,
    /// parts of the file that the checksum covers
    pub summed: Vec<(usize, usize)>,
}
impl Built {
    /// place in the file of an address in the tag data
    pub fn at(&self, address: u32) -> usize { (address - self.base) as usize + self.tags_at }
    pub fn entry(&self, k: usize) -> usize { self.array + 32 * self.place[k] }
    pub fn get32(&self, at: usize) -> u32 { u32::from_le_bytes(self.map[at..at + 4].try_into().unwrap()) }
    /// where the entries for levels in the scenario are
    pub fn sections_at(&self) -> usize { let l = layout(); let st = l.group("scenario").st; let f = &l.structs[st].fields[pos(l, st, "structure_bsps")]; self.at(self.get32(self.scenario_at + f.off + 4)) }
}
fn group_index(n: &str) -> usize { layout().group_by_name[n] }
const FIXED: &[&str] = &["scenario", "scenario_structure_bsp", "model", "gbxmodel", "sound"];

pub fn build_map(s: &mut Src, eng: &'static Eng, opt: &Options) -> Built {
    let l = layout();
    let mut w = World::new(s, eng);
    w.spoil = opt.spoil;
    // ---- which tags
    let levels = s.usize(0, 2);
    let mut groups: Vec<usize> = opt.groups.iter().copied().filter(|g| !["scenario", "scenario_structure_bsp"].contains(&l.groups[*g].name.as_str())).collect();
    const LIKED: &[&str] = &["model", "gbxmodel", "bitmap", "sound", "model_animations", "weapon", "biped", "projectile", "scenery", "damage_effect", "light", "detail_object_collection", "detail_object_collection", "unicode_string_list", "font", "glow", "point_physics", "actor_variant", "continuous_damage_effect"];
    for _ in 0..opt.extra { groups.push(if s.chance(2, 3) { group_index(*s.pick(LIKED)) } else { s.below(l.groups.len() as u64) as usize }) }
    groups.retain(|g| l.groups[*g].name != "scenario" && l.groups[*g].name != "scenario_structure_bsp");
    groups.extend((0..levels).map(|_| group_index("scenario_structure_bsp")));
    groups.push(group_index("scenario"));
    let order = s.permutation(groups.len());
    let mut taken = std::collections::HashSet::new();
    for i in order {
        let g = groups[i];
        let path = loop {
            let p = match (l.groups[g].name.as_str(), s.below(4)) {
                ("weapon", 0) => "weapons\\pistol\\pistol".to_string(), ("weapon", 1) => "weapons\\plasma rifle\\plasma rifle".to_string(), ("damage_effect", 0 | 1) => "weapons\\pistol\\bullet".to_string(),
                _ => gen_path(s)
            };
            if taken.insert((g, p.clone())) { break p }
            if taken.insert((g, format!("{p}{}", taken.len()))) { break format!("{p}{}", taken.len() - 1) }
        };
        w.items.push(Item { g, path, map: V::None, want: V::None, near: vec![], home: Home::Tags, address: 0, uses: [false; 3], refuse: None });
    }
    w.scenario = w.items.iter().position(|i| i.group() == "scenario").unwrap();
    // ---- sections of the scenario: levels, and entries without a level
    let mut sections: Vec<Option<usize>> = w.items.iter().enumerate().filter(|(_, i)| i.group() == "scenario_structure_bsp").map(|(k, _)| Some(k)).collect();
    if s.chance(1, 6) { sections.push(None) }
    let sections: Vec<Option<usize>> = s.permutation(sections.len()).into_iter().map(|i| sections[i]).collect();
    // ---- addresses
    let base = if eng.inferred && s.chance(1, 2) { 0x4000_0000 + (s.below(0x2000_0000) as u32 & !3) } else { eng.base };
    w.doms[0].base = base;
    let shared = s.bool();
    let far = if s.bool() { base + 0x0100_0000 } else { base - 0x0100_0000 };
    for (i, x) in sections.iter().enumerate() {
        let b = if shared { far } else { far + 0x40_0000 * i as u32 };
        w.doms.push(Dom { base: b, buf: vec![0; 24] });
        w.level_vertices.push(vec![]);
        if let Some(k) = x { w.items[*k].home = Home::Level(i) }
    }
    // ---- ids
    let n = w.items.len();
    let gaps = if s.chance(1, 3) { s.usize(1, 4) } else { 0 };
    let place = s.permutation(n + gaps)[..n].to_vec();
    // Every ID in the game has its top bit set; 0 is read as no tag, and 0xFFFFFFFF is null.
    let salt = s.u16() as u32;
    for (i, p) in w.items.iter().zip(&place) { w.ids.insert((l.groups[i.g].fourcc, i.path.clone()), ((salt + *p as u32) & 0x7FFF | 0x8000) << 16 | *p as u32); }
    let header = if eng.ext_models { 40 } else { 36 };
    w.doms[0].buf.resize(header, 0);
    let gap = if eng.inferred { 0 } else { s.usize(0, 3) * 4 };
    { let d = &mut w.doms[0].buf; w.noise.fill(d, gap) }
    let array_now = eng.inferred || s.bool();
    let mut array = if array_now { let b = w.doms[0].buf.len(); w.doms[0].buf.resize(b + 32 * (n + gaps), 0); base + b as u32 } else { 0 };
    // ---- contents
    let paths = w.all_paths();
    let gen = |s: &mut Src, k: usize, w: &World| { let mut g = Gen { budget: opt.budget, max_items: 3, fill_unstored: true, paths: paths.clone(), ..Default::default() }; let mut v = g.structure(s, l, l.groups[w.items[k].g].st);
        if opt.large && !["scenario", "scenario_structure_bsp", "model", "gbxmodel", "model_animations", "bitmap"].contains(&w.items[k].group()) { let mut x = v.clone(); if !enlarge(s, l, l.groups[w.items[k].g].st, &mut x, 1 << 18, &paths).contains("change_colors") { v = x } }
        v };
    let sst = l.group("scenario").st;
    let sk = w.scenario;
    let mut sv = gen(s, sk, &w);
    let patches = w.scenario_value(s, sk, &mut sv, &sections);
    let kind = int(l, sst, &sv, "type");
    for k in 0..n { if k != sk {
        if eng.indexed { w.items[k].home = match (w.items[k].group(), s.below(3)) { ("sound", 0) => Home::Split, ("bitmap", 0) => Home::Indexed(0, 0), (g, 0) if !FIXED.contains(&g) => Home::Indexed(2, 0), _ => w.items[k].home } }
        let mut v = gen(s, k, &w);
        let st = l.groups[w.items[k].g].st;
        if w.items[k].group() == "detail_object_collection" { let z = match s.below(4) { 0 => 0.0, 1 => 1.0, _ => nice(s) }; *at(l, st, &mut v, "global_z_offset") = fbits(z) }
        let before = [w.bitmaps.bytes.len(), w.sounds.bytes.len()];
        w.lower(s, k, v, patches);
        w.items[k].uses[0] |= w.bitmaps.bytes.len() != before[0]; w.items[k].uses[1] |= w.sounds.bytes.len() != before[1];
    } }
    // heights of detail objects need the palette
    let mut z = [0.0; 32];
    let palette: Vec<V> = items(l, sst, &sv, "detail_object_collection_palette").to_vec();
    let mut needed = vec![];
    for (i, p) in palette.iter().take(32).enumerate() {
        let V::Ref(g, path) = sub(l, l.st("ScenarioDetailObjectCollectionPalette"), p, "reference") else { panic!() };
        if let Some(it) = w.items.iter().position(|x| l.groups[x.g].fourcc == *g && x.path == *path) { if w.items[it].group() == "detail_object_collection" { z[i] = fval(at(l, l.groups[w.items[it].g].st, &mut w.items[it].map.clone(), "global_z_offset")) * 0.125; needed.push(it) } }
    }
    for k in 0..n { if matches!(w.items[k].home, Home::Level(_)) { w.heights(s, k, &z) } }
    // fonts of this kind spoil texts
    let fst = l.group("font").st;
    let fonts: Vec<usize> = (0..n).filter(|k| w.items[*k].group() == "font").collect();
    let extended = l.enums.iter().find(|e| e.name == "FontEncodingType").unwrap().options.iter().find(|o| o.matcher == "extended").unwrap().value;
    for f in &fonts { let e = if s.chance(1, 3) { extended } else { 0 }; for v in { let i = &mut w.items[*f]; [&mut i.map, &mut i.want] } { set_int(l, fst, v, "encoding_type", e) } }
    // ---- writing
    for k in s.permutation(n) {
        if k == sk { continue }
        w.noise = Noise::new(s);
        let before = [w.bitmaps.bytes.len(), w.sounds.bytes.len(), w.loc.bytes.len()];
        w.write_item(k);
        let after = [w.bitmaps.bytes.len(), w.sounds.bytes.len(), w.loc.bytes.len()];
        for r in 0..3 { w.items[k].uses[r] |= before[r] != after[r] }
    }
    // ---- the levels' places in the file; these are the last things the scenario needs
    let mut levels_out = vec![];
    let mut summed = vec![];
    let mut crc_parts: Vec<Vec<u8>> = vec![];
    for (i, x) in sections.iter().enumerate() {
        let mut tail = vec![]; { let k = w.noise.below(20); w.noise.fill(&mut tail, k) }
        w.doms[1 + i].buf.extend(tail);
        let b = w.doms[1 + i].base;
        if let Some(k) = x { let p = w.items[*k].address; w.word(1 + i, b, 4, p) } else { let j = w.noise.u32(); w.word(1 + i, b, 4, j) }
        w.junk(1 + i, b + 4, 16);
        w.poke(1 + i, b + 20, b"psbs");
        if eng.ext_bsps {
            let v = std::mem::take(&mut w.level_vertices[i]);
            let o = w.blob(&v);
            summed.push((o, v.len()));
            w.word(1 + i, b + 4, 4, v.len() as u32); w.word(1 + i, b + 8, 4, o as u32);
            crc_parts.push(v);
        }
        let d = w.doms[1 + i].buf.clone();
        let o = w.blob(&d);
        levels_out.push((b, d.len()));
        summed.push((o, d.len()));
        let (est, e) = (l.st("ScenarioBSP"), &mut items_mut(l, sst, &mut sv, "structure_bsps")[i]);
        for (f, x) in [("bsp_start", o as u32), ("bsp_size", d.len() as u32), ("bsp_address", b)] { set_int(l, est, e, f, x) }
        crc_parts.push(d);
    }
    w.items[sk].map = sv;
    w.write_item(sk);
    // ---- the tag array and the header of the tag data
    if !array_now { array = w.alloc(0, 32 * (n + gaps)) }
    for i in 0..n + gaps {
        let a = array + 32 * i as u32;
        w.junk(0, a, 32);
        for g in 0..3 { w.word(0, a + 4 * g, 4, u32::MAX) }
        let Some(k) = place.iter().position(|p| *p == i) else { continue };
        let (g, path) = (w.items[k].g, w.items[k].path.clone());
        w.word(0, a, 4, l.groups[g].fourcc);
        let mut up = l.groups[g].sup.clone();
        for j in 1..3 { if let Some(x) = &up { let f = l.fourcc_of[x]; w.word(0, a + 4 * j, 4, f); up = l.group(x).sup.clone() } }
        let id = w.ids[&(l.groups[g].fourcc, path.clone())];
        w.word(0, a + 12, 4, id);
        let t = w.text(&path); w.word(0, a + 16, 4, t);
        let address = match w.items[k].home { Home::Level(_) => w.noise.u32(), _ => w.items[k].address };
        w.word(0, a + 20, 4, address);
        w.word(0, a + 24, 4, matches!(w.items[k].home, Home::Indexed(..) | Home::Split) as u32);
    }
    w.junk(0, base, header);
    let sid = w.ids[&(l.fourcc_of["scenario"], w.items[sk].path.clone())];
    w.word(0, base, 4, array); w.word(0, base + 4, 4, sid); w.word(0, base + 12, 4, (n + gaps) as u32);
    if eng.ext_models {
        let (v, t) = (std::mem::take(&mut w.vertices), std::mem::take(&mut w.triangles));
        let o = w.blob(&[&v[..], &t[..]].concat());
        w.word(0, base + 20, 4, o as u32); w.word(0, base + 28, 4, v.len() as u32); w.word(0, base + 32, 4, (v.len() + t.len()) as u32);
        summed.push((o, v.len() + t.len()));
        crc_parts.push(v); crc_parts.push(t);
    }
    let tags = std::mem::take(&mut w.doms[0].buf);
    crc_parts.push(tags.clone());
    let tags_at = w.blob(&tags);
    { let k = w.noise.below(30); w.noise.fill(&mut w.file, k) }
    let crc = crc32(&crc_parts.concat()) ^ 0;
    // ---- the header of the map
    let build = s.pick(&eng.builds).clone();
    let head = Head { demo: eng.demo_header && s.chance(3, 4), version: eng.version, build, name: s.ascii_ident(0, 31), kind: s.below(3) as u16, crc, size: w.file.len() as u32, padding: 0, tags_at: tags_at as u32, tags_len: tags.len() as u32, cea: 0 };
    let mut map = std::mem::take(&mut w.file);
    { let mut n = Noise::new(s); let mut j = vec![]; n.fill(&mut j, 0x800); map[..0x800].copy_from_slice(&j) }
    put32(&mut map, 0, 0x1234_5678); put32(&mut map, 704, 0x1234_5678); put16(&mut map, 104, 0);
    head.put(&mut map[..0x800]);
    // ---- resource maps
    let mut res = [vec![], vec![], vec![]];
    let mut lost = [false; 3];
    let mut noise = Noise::new(s);
    for (i, (r, k)) in [(&w.bitmaps, 1), (&w.sounds, 2), (&w.loc, 3)].into_iter().enumerate() { res[i] = r.finish(&mut noise, k); if opt.lose && r.used && s.chance(1, 3) { res[i].clear(); lost[i] = true } }
    // ---- what cannot be extracted
    for i in &mut w.items { for r in 0..3 { if lost[r] && i.uses[r] { i.refuse = Some(if r == 1 && i.home == Home::Split { "no sounds" } else { "resource map missing" }) } } }
    let bad_font = fonts.iter().any(|f| w.items[*f].refuse.is_some() || int(l, fst, &w.items[*f].map, "encoding_type") == extended);
    let bad_palette = needed.iter().any(|k| w.items[*k].refuse.is_some());
    for i in &mut w.items { match i.group() { "unicode_string_list" if bad_font => i.refuse = i.refuse.or(Some("extended font")), "scenario_structure_bsp" if bad_palette => i.refuse = i.refuse.or(Some("resource map missing")), _ => () } }
    summed.push((tags_at, tags.len()));
    let scenario_at = (w.items[sk].address - base) as usize + tags_at;
    let spots = (0..tags.len()).step_by(4).map(|x| x + tags_at).collect();
    Built { map, res, items: std::mem::take(&mut w.items), head, crc, base, tag_len: tags.len(), tags_at, levels: levels_out, kind, eng, scenario: sk, lost, spots, array: (array - base) as usize + tags_at, place, count: n + gaps, scenario_at, summed }
}
impl World {
    fn write_item(&mut self, k: usize) {
        let l = layout();
        let st = l.groups[self.items[k].g].st;
        let size = l.structs[st].size;
        let v = self.items[k].map.clone();
        let path = self.items[k].path.clone();
        match self.items[k].home {
            Home::Tags => { let a = self.alloc(0, size); self.items[k].address = a; self.structure(0, a, st, &v) }
            Home::Level(i) => { let own = self.doms[1 + i].base; let a = loop { let a = self.alloc(1 + i, size); if a >= own && ((a - own) as usize) < self.doms[1 + i].buf.len() { break a } }; self.items[k].address = a; self.structure(1 + i, a, st, &v) }
            Home::Indexed(r, _) => {
                let mut noise = Noise(self.noise.next());
                self.doms.push(Dom { base: 0, buf: vec![0; size] });
                let d = self.doms.len() - 1;
                self.structure(d, 0, st, &v);
                let b = self.doms.pop().unwrap().buf;
                let e = if r == 0 { &mut self.bitmaps } else { &mut self.loc };
                // other entries before it
                for j in 0..noise.below(3) { e.entry(&mut noise, &format!("other {k} {j}"), &[1, 2, 3]); }
                self.items[k].address = e.entry(&mut noise, &path, &b) as u32;
            }
            Home::Split => {
                let pst = l.st("SoundPitchRange");
                let psize = l.structs[pst].size;
                let list = items(l, st, &v, "pitch_ranges").to_vec();
                self.doms.push(Dom { base: 0, buf: vec![0; psize * list.len()] });
                let d = self.doms.len() - 1;
                for (i, x) in list.iter().enumerate() { self.structure(d, (i * psize) as u32, pst, x) }
                let ranges = self.doms.pop().unwrap().buf;
                let mut bare = v.clone();
                items_mut(l, st, &mut bare, "pitch_ranges").clear();
                let a = self.alloc(0, size);
                self.items[k].address = a;
                self.structure(0, a, st, &bare);
                let o = (a - self.doms[0].base) as usize;
                let real = self.doms[0].buf[o..o + size].to_vec();
                let mut noise = Noise(self.noise.next());
                let mut entry = vec![];
                noise.fill(&mut entry, size);
                entry[6..8].copy_from_slice(&real[6..8]); entry[108..112].copy_from_slice(&real[108..112]);
                put32(&mut entry, 152, list.len() as u32);
                for (at, n) in [(6, 2), (108, 4), (152, 12)] { self.junk(0, a + at, n) }
                entry.extend(ranges);
                self.sounds.entry(&mut noise, &path, &entry);
            }
        }
    }
    /// The scenario: its scripts, titles and levels. Returns whether the campaign's tags are to be changed back.
    fn scenario_value(&mut self, s: &mut Src, k: usize, v: &mut V, sections: &[Option<usize>]) -> bool {
        let l = layout();
        let st = l.group("scenario").st;
        let fourcc = l.fourcc_of["scenario_structure_bsp"];
        let est = l.st("ScenarioBSP");
        *items_mut(l, st, v, "structure_bsps") = sections.iter().map(|x| { let mut e = default_struct(l, est); *sub_mut(l, est, &mut e, "structure_bsp") = match x { Some(k) => V::Ref(fourcc, self.items[*k].path.clone()), None => V::Ref(fourcc, String::new()) }; e }).collect();
        if s.bool() { set_int(l, st, v, "type", 0) }
        let flags = int(l, st, v, "flags") & !8 | if s.chance(1, 3) { 8 } else { 0 };
        set_int(l, st, v, "flags", flags);
        // scripts
        let none = s.chance(1, 4);
        let p = crate::checks::scripts::program(s, 20);
        let name = &l.group("scenario").name;
        let pv = get_struct(l, st, &p.scenario, name).expect("scenario");
        for f in ["script_syntax_data", "script_string_data", "globals", "scripts"] { *sub_mut(l, st, v, f) = sub(l, st, &pv, f).clone() }
        if none { for f in ["globals", "scripts"] { items_mut(l, st, v, f).clear() } }
        // palette with collections of this map
        let dst = l.st("ScenarioDetailObjectCollectionPalette");
        let docs: Vec<String> = self.items.iter().filter(|i| i.group() == "detail_object_collection").map(|i| i.path.clone()).collect();
        let doc = l.fourcc_of["detail_object_collection"];
        let n = match s.below(4) { 0 => 0, 1 => s.usize(30, 34), _ => s.usize(1, 6) };
        *items_mut(l, st, v, "detail_object_collection_palette") = (0..n).map(|_| { let mut e = default_struct(l, dst); *sub_mut(l, dst, &mut e, "reference") = if docs.is_empty() || s.chance(1, 5) { V::Ref(doc, String::new()) } else { V::Ref(doc, s.pick(&docs).clone()) }; e }).collect();
        let mut want = World::plain(l, st, v);
        // numbers of titles
        let tst = l.st("ScenarioCutsceneTitle");
        let mut near = vec![];
        for i in 0..items(l, st, v, "cutscene_titles").len() {
            let (fi, up, fo) = (nice(s).abs(), nice(s).abs(), nice(s).abs());
            let w = &mut items_mut(l, st, &mut want, "cutscene_titles")[i];
            for (f, x) in [("fade_in_time", fi), ("up_time", up), ("fade_out_time", fo)] { *sub_mut(l, tst, w, f) = fbits(x) }
            let m = &mut items_mut(l, st, v, "cutscene_titles")[i];
            let fade = (fi * 30.0) as f32;
            for (f, x) in [("fade_in_time", fade as f64), ("up_time", up * 30.0 + fade as f64), ("fade_out_time", fo * 30.0)] { *sub_mut(l, tst, m, f) = fbits(x) }
            near.push(Near { at: vec![pos(l, st, "cutscene_titles"), i, pos(l, tst, "up_time")], abs: 1e-6 * (fi + up) + 1e-6, rel: 1e-5 });
        }
        // source text: what decompiling the same scenario gives
        let mut t = ringhopper_structs::Scenario::default();
        set_struct(l, st, v, &mut t, name).expect("scenario");
        t.source_files.items.clear();
        let path = self.items[k].path.clone();
        let base = path.rsplit('\\').next().unwrap();
        let fine = ringhopper::tag::scenario::decompile_scripts(&mut t, base).is_ok();
        if fine { let tv = get_struct(l, st, &t, name).unwrap(); *sub_mut(l, st, &mut want, "source_files") = sub(l, st, &tv, "source_files").clone(); }
        else { self.items[k].refuse = Some("scripts") }
        // the map's node table has the other byte order, and anything in nodes not in use
        let V::Data(d) = sub_mut(l, st, v, "script_syntax_data") else { panic!() };
        let V::Data(t) = sub_mut(l, st, &mut want, "script_syntax_data") else { panic!() };
        let count = u16::from_be_bytes([d[46], d[47]]) as usize;
        for b in &mut t[56 + 20 * count..] { *b = 0 }
        for (o, n) in [(32, 2), (34, 2), (40, 4), (46, 2), (48, 2), (50, 2), (52, 4)] { d[o..o + n].reverse() }
        for i in 0..count { let o = 56 + 20 * i; for (a, n) in [(0, 2), (2, 2), (4, 2), (6, 2), (8, 4), (12, 4), (16, 4)] { d[o + a..o + a + n].reverse() } }
        for b in &mut d[56 + 20 * count..] { *b = s.u8() }
        let patches = int(l, st, &want, "type") == 0 && int(l, st, &want, "flags") & 8 == 0;
        self.items[k].want = want; self.items[k].near = near;
        patches
    }
}

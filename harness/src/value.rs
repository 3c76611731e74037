//! Layout-driven tag values: generation, binary encoding, and access through the dynamic API.

use crate::engine::Src;
use crate::layout::*;
use ringhopper_primitives::dynamic::{DynamicTagData, DynamicTagDataType};
use ringhopper_primitives::primitive::*;

#[derive(Clone, PartialEq, Debug)]
pub enum V {
    /// scalars as raw bits (for 8/16-bit ones, the low bits)
    W(Vec<u32>),
    S32([u8; 32]),
    /// enum: the option value; bitfield: the bits
    N(u32),
    St(Vec<V>),
    Arr(Vec<V>),
    Refl(Vec<V>),
    Data(Vec<u8>),
    /// fourcc, path (without extension); empty = null
    Ref(u32, String),
    /// padding, or a field that does not exist in memory
    None,
}

// ------------------------------------------------------------------ defaults
pub fn default_one(l: &Layout, ty: &Ty) -> V {
    match ty {
        Ty::Pad(_) => V::None,
        Ty::Prim { unit, n, .. } => V::W(vec![match unit { Scalar::Index => 0xFFFF, Scalar::Id => u32::MAX, _ => 0 }; *n]),
        Ty::Str32 => V::S32([0; 32]),
        Ty::Enum(e) => V::N(l.enums[*e].options.iter().find(|o| !o.exclude).map(|o| o.value).unwrap_or(0)),
        Ty::Bits(_) => V::N(0),
        Ty::Struct(s) => default_struct(l, *s),
        Ty::Refl(_) => V::Refl(vec![]),
        Ty::Ref(g) => V::Ref(l.fourcc_of[&g[0]], String::new()),
        Ty::Data("UTF16String") => V::Data(vec![0, 0]),
        Ty::Data(_) => V::Data(vec![]),
    }
}
pub fn default_field(l: &Layout, f: &Field) -> V {
    match f.count { Count::One => default_one(l, &f.ty), Count::Bounds => V::Arr(vec![default_one(l, &f.ty); 2]), Count::Array(n) => V::Arr(vec![default_one(l, &f.ty); n]) }
}
pub fn default_struct(l: &Layout, s: usize) -> V {
    V::St(l.structs[s].fields.iter().map(|f| if f.exclude { V::None } else { default_field(l, f) }).collect())
}

// ------------------------------------------------------------------ generation
pub struct Gen {
    /// remaining bytes that may still be generated
    pub budget: i64,
    /// allow bytes which the reader has to normalise (junk after strings, undefined bits, bad enum values)
    pub raw: bool,
    pub nan: bool,
    /// fill fields that are not stored in tag files too
    pub fill_unstored: bool,
    /// candidate paths for references (else random)
    pub paths: Vec<(u32, String)>,
    pub max_items: u64,
    pub depth: u32,
}
impl Default for Gen { fn default() -> Self { Gen { budget: 6000, raw: false, nan: false, fill_unstored: false, paths: vec![], max_items: 3, depth: 0 } } }

pub fn gen_path(s: &mut Src) -> String {
    let n = s.usize(1, 4);
    let mut out = String::new();
    for i in 0..n {
        if i > 0 { out.push('\\') }
        let len = s.usize(1, 8);
        for _ in 0..len {
            let c = match s.below(12) { 0 => *s.pick(&[' ', '-', '_', '.', '(', ')', '\'', '[', ']', '&', '!', '~']), 1 => (b'0' + s.below(10) as u8) as char, 2 => *s.pick(&['é', 'ß', '語', '猫', 'Ж', '\u{80}', '€']), _ => (b'a' + s.below(26) as u8) as char };
            out.push(c);
        }
        if out.ends_with('.') { out.push('x') }
        // avoid reserved device names
        let last = out.rsplit('\\').next().unwrap();
        if RESERVED.contains(&last) { out.push('q') }
    }
    out
}
pub const RESERVED: &[&str] = &["aux", "con", "nul", "prn", "com0", "com1", "com2", "com3", "com4", "com5", "com6", "com7", "com8", "com9", "lpt0", "lpt1", "lpt2", "lpt3", "lpt4", "lpt5", "lpt6", "lpt7", "lpt8", "lpt9"];

pub fn gen_str32(s: &mut Src, raw: bool) -> [u8; 32] {
    let mut b = [0u8; 32];
    let mode = if raw { s.below(8) } else { s.below(3) };
    match mode {
        0 | 1 | 2 => {
            let max = if mode == 2 { 31 } else { 12 };
            let n = s.usize(0, max);
            let mut t = String::new();
            while t.len() < n { let c = match s.below(20) { 0 => *s.pick(&['é', '語', '€', '\u{10348}', '\u{FFFD}', '\u{7f}']), 1 => ' ', 2 => *s.pick(&['_', '-', '.', '"', '\\']), _ => (b'a' + s.below(26) as u8) as char }; if t.len() + c.len_utf8() > n { break } t.push(c) }
            b[..t.len()].copy_from_slice(t.as_bytes());
        }
        3 => { let x = s.bytes(32); b.copy_from_slice(&x); for c in b.iter_mut() { *c = *c % 95 + 32 } }
        4 => { let n = s.usize(0, 31); let x = s.bytes(32); b.copy_from_slice(&x); for c in b.iter_mut() { *c = *c % 95 + 32 } b[n] = 0; }
        5 => { let x = s.bytes(32); b.copy_from_slice(&x); }
        6 => { let x = s.bytes(32); b.copy_from_slice(&x); let n = s.usize(0, 31); b[n] = 0; }
        _ => { let t = "é".repeat(16); b.copy_from_slice(t.as_bytes()); let n = s.usize(0, 31); b[n] = s.u8(); }
    }
    b
}

impl Gen {
    pub fn scalar(&mut self, s: &mut Src, u: Scalar) -> u32 {
        match u {
            Scalar::F32 => s.f32_bits(self.nan),
            Scalar::I8 | Scalar::U8 => s.below(256) as u32,
            Scalar::I16 | Scalar::U16 => match s.below(4) { 0 => *s.pick(&[0u32, 1, 0xFFFF, 0x8000, 0x7FFF, 0x100, 0xFF]), _ => s.below(65536) as u32 },
            Scalar::Index => match s.below(4) { 0 => 0xFFFF, 1 => s.below(16) as u32, _ => s.below(65536) as u32 },
            Scalar::Id => match s.below(4) { 0 => u32::MAX, _ => s.u32_edge() },
            Scalar::Group => { let l = layout(); match s.below(8) { 0 => 0, 1 if self.raw => u32::MAX, _ => l.groups[s.below(l.groups.len() as u64) as usize].fourcc } }
            _ => s.u32_edge()
        }
    }
    pub fn one(&mut self, s: &mut Src, l: &Layout, ty: &Ty) -> V {
        match ty {
            Ty::Pad(_) => V::None,
            Ty::Prim { unit, n, .. } => V::W((0..*n).map(|_| self.scalar(s, *unit)).collect()),
            Ty::Str32 => V::S32(gen_str32(s, self.raw)),
            Ty::Enum(e) => if self.raw && s.chance(1, 6) { V::N(s.u16() as u32) } else { let o: Vec<u32> = l.enums[*e].options.iter().filter(|o| !o.exclude).map(|o| o.value).collect(); V::N(*s.pick(&o)) },
            Ty::Bits(b) => {
                let d = &l.bits[*b];
                let w = if d.width == 32 { u32::MAX } else { (1u32 << d.width) - 1 };
                let m = s.u32_edge() & w;
                let known: u32 = d.options.iter().filter(|o| !o.exclude && (self.fill_unstored || !o.cache_only)).map(|o| o.value).fold(0, |a, b| a | b);
                V::N(if self.raw { m } else { m & known })
            }
            Ty::Struct(i) => self.structure(s, l, *i),
            Ty::Refl(i) => {
                let sz = l.structs[*i].size as i64;
                if self.budget < sz || self.depth > 6 { return V::Refl(vec![]) }
                let max = self.max_items.min((self.budget / sz.max(1)) as u64);
                let n = match s.below(6) { 0 | 1 => 0, 2 | 3 => 1, 4 => 2, _ => s.below(max + 1) }.min(max);
                self.budget -= sz * n as i64;
                self.depth += 1;
                let v = (0..n).map(|_| self.structure(s, l, *i)).collect();
                self.depth -= 1;
                V::Refl(v)
            }
            Ty::Ref(g) => self.reference(s, l, g),
            Ty::Data(k) => {
                if self.budget < 64 { return default_one(l, ty) }
                if *k == "UTF16String" && !self.raw {
                    let t = gen_text(s, 12);
                    let mut b: Vec<u8> = t.encode_utf16().flat_map(|u| u.to_le_bytes()).collect(); b.extend([0, 0]);
                    return V::Data(b)
                }
                let n = match s.below(5) { 0 => 0, 1 => s.usize(1, 4), 2 | 3 => s.usize(0, 40), _ => s.usize(0, 300.min(self.budget as usize)) };
                self.budget -= n as i64;
                V::Data(s.bytes(n))
            }
        }
    }
    pub fn reference(&mut self, s: &mut Src, l: &Layout, allowed: &[String]) -> V {
        let g = match s.below(8) { 7 => l.groups[s.below(l.groups.len() as u64) as usize].fourcc, 6 if self.raw => s.u32_edge(), 5 if self.raw => u32::MAX, _ => l.fourcc_of[s.pick(allowed)] };
        match s.below(3) {
            0 => V::Ref(g, String::new()),
            _ if !self.paths.is_empty() => { let p = s.pick(&self.paths).clone(); V::Ref(p.0, p.1) }
            _ => V::Ref(g, gen_path(s))
        }
    }
    pub fn field(&mut self, s: &mut Src, l: &Layout, f: &Field) -> V {
        match f.count { Count::One => self.one(s, l, &f.ty), Count::Bounds => V::Arr((0..2).map(|_| self.one(s, l, &f.ty)).collect()), Count::Array(n) => V::Arr((0..n).map(|_| self.one(s, l, &f.ty)).collect()) }
    }
    pub fn structure(&mut self, s: &mut Src, l: &Layout, i: usize) -> V {
        // density of non-default fields, so that both sparse and full structures occur
        let density = *s.pick(&[0u64, 3, 6, 10]);
        let fields = &l.structs[i].fields;
        V::St(fields.iter().map(|f| {
            if matches!(f.ty, Ty::Pad(_)) { return V::None }
            if f.exclude && !self.raw { return V::None }
            if f.cache_only && !self.fill_unstored && !self.raw { return default_field(l, f) }
            if !matches!(f.ty, Ty::Struct(_)) && s.below(10) >= density { return default_field(l, f) }
            self.field(s, l, f)
        }).collect())
    }
}
/// text without control characters other than tab and CRLF
pub fn gen_text(s: &mut Src, max: usize) -> String {
    let n = s.usize(0, max);
    let mut t = String::new();
    for _ in 0..n { match s.below(16) { 0 => t.push_str("\r\n"), 1 => t.push('\t'), 2 => t.push(*s.pick(&['é', '語', '€', '\u{10348}', '\u{FFFD}', '\u{FEFF}', '"', '\\', '%', '\u{7fe}'])), 3 => t.push(' '), _ => t.push((b'a' + s.below(26) as u8) as char) } }
    t
}

// ------------------------------------------------------------------ canonical form
pub fn canon_str32(b: &[u8; 32]) -> [u8; 32] {
    let n = b.iter().position(|c| *c == 0).unwrap_or(31).min(31);
    let text = match std::str::from_utf8(&b[..n]) { Ok(t) => t.to_string(), Err(_) => String::from_utf8_lossy(&b[..n]).replace('\u{FFFD}', "_") };
    let mut o = [0u8; 32];
    o[..text.len()].copy_from_slice(text.as_bytes());
    o
}
fn canon_one(l: &Layout, ty: &Ty, v: &V) -> V {
    match (ty, v) {
        (Ty::Str32, V::S32(b)) => V::S32(canon_str32(b)),
        (Ty::Prim { unit: Scalar::Group, .. }, V::W(w)) => V::W(w.iter().map(|g| if *g == u32::MAX { 0 } else { *g }).collect()),
        (Ty::Enum(e), V::N(n)) => if l.enums[*e].options.iter().any(|o| !o.exclude && o.value == *n) { v.clone() } else { default_one(l, ty) },
        (Ty::Bits(b), V::N(n)) => V::N(n & l.bits[*b].options.iter().filter(|o| !o.exclude && !o.cache_only).map(|o| o.value).fold(0, |a, b| a | b)),
        (Ty::Struct(i), _) => canon_struct(l, *i, v),
        (Ty::Refl(i), V::Refl(a)) => V::Refl(a.iter().map(|x| canon_struct(l, *i, x)).collect()),
        (Ty::Ref(_), V::Ref(g, p)) => V::Ref(match l.group_of_fourcc(*g) { Some("<unset>") | None => 0, _ => *g }, p.clone()),
        _ => v.clone()
    }
}
/// What a tag-file reader must hold in memory after reading `v`.
pub fn canon_struct(l: &Layout, i: usize, v: &V) -> V {
    let V::St(vs) = v else { panic!("not a struct: {v:?}") };
    V::St(l.structs[i].fields.iter().zip(vs).map(|(f, v)| {
        if matches!(f.ty, Ty::Pad(_)) || f.exclude { return V::None }
        if f.cache_only { return default_field(l, f) }
        match (f.count, v) { (Count::One, _) => canon_one(l, &f.ty, v), (_, V::Arr(a)) => V::Arr(a.iter().map(|x| canon_one(l, &f.ty, x)).collect()), _ => panic!() }
    }).collect())
}

// ------------------------------------------------------------------ tag file encoding
pub struct Enc { pub buf: Vec<u8>, noise: Option<u64> }
impl Enc {
    fn junk(&mut self, at: usize, n: usize) {
        if let Some(s) = &mut self.noise { for i in 0..n { *s = crate::engine::mix(*s); self.buf[at + i] = *s as u8; } }
    }
    fn put(&mut self, at: usize, n: usize, v: u32, le: bool) {
        let b = v.to_be_bytes();
        for i in 0..n { self.buf[at + i] = if le { b[3 - i] } else { b[4 - n + i] } }
    }
    fn one(&mut self, l: &Layout, ty: &Ty, v: &V, at: usize, le: bool) {
        match (ty, v) {
            (Ty::Prim { unit, .. }, V::W(w)) => for (k, x) in w.iter().enumerate() { self.put(at + k * unit.width(), unit.width(), *x, le) },
            (Ty::Str32, V::S32(b)) => self.buf[at..at + 32].copy_from_slice(b),
            (Ty::Enum(_), V::N(n)) => self.put(at, 2, *n, le),
            (Ty::Bits(b), V::N(n)) => self.put(at, l.bits[*b].width / 8, *n, le),
            (Ty::Struct(i), _) => self.structure(l, *i, v, at),
            (Ty::Refl(i), V::Refl(a)) => {
                self.put(at, 4, a.len() as u32, false);
                self.junk(at + 4, 8);
                let sz = l.structs[*i].size;
                let start = self.buf.len();
                self.buf.resize(start + sz * a.len(), 0);
                for (k, x) in a.iter().enumerate() { self.structure(l, *i, x, start + k * sz) }
            }
            (Ty::Ref(_), V::Ref(g, p)) => {
                self.put(at, 4, *g, false);
                self.junk(at + 4, 4);
                self.put(at + 8, 4, p.len() as u32, false);
                self.put(at + 12, 4, u32::MAX, false);
                self.junk(at + 12, 4);
                if !p.is_empty() { self.buf.extend_from_slice(p.as_bytes()); self.buf.push(0); }
            }
            (Ty::Data(_), V::Data(d)) => { self.put(at, 4, d.len() as u32, false); self.junk(at + 4, 16); self.buf.extend_from_slice(d); }
            (t, v) => panic!("value {v:?} does not fit type {t:?}")
        }
    }
    fn structure(&mut self, l: &Layout, i: usize, v: &V, at: usize) {
        let V::St(vs) = v else { panic!("not a struct {v:?}") };
        for (f, v) in l.structs[i].fields.iter().zip(vs) {
            let at = at + f.off;
            if matches!(f.ty, Ty::Pad(_)) { self.junk(at, f.size); continue }
            let n = match f.count { Count::One => 1, Count::Bounds => 2, Count::Array(n) => n };
            let es = f.size / n;
            let val;
            let v = if f.in_tag() { v } else {
                // fields a tag file does not carry: containers keep their (empty) shape, the rest is blank
                let shaped = matches!(f.ty, Ty::Struct(_) | Ty::Refl(_) | Ty::Ref(_) | Ty::Data("Data"));
                if !shaped { self.junk(at, f.size); continue }
                if self.noise.is_some() && *v != V::None { v } else { val = default_field(l, f); &val }
            };
            match v { V::Arr(a) => for (k, x) in a.iter().enumerate() { self.one(l, &f.ty, x, at + k * es, f.le) }, _ => self.one(l, &f.ty, v, at, f.le) }
        }
    }
}
/// The body of a tag file (everything after the header). With `noise`, bytes without meaning are random.
pub fn encode_body(l: &Layout, st: usize, v: &V, noise: Option<u64>) -> Vec<u8> {
    let mut e = Enc { buf: vec![0; l.structs[st].size], noise };
    e.structure(l, st, v, 0);
    e.buf
}
pub fn crc32(data: &[u8]) -> u32 {
    // bitwise, reflected 0xEDB88320, initial value all ones, no final inversion
    let mut c = u32::MAX;
    for b in data { c ^= *b as u32; for _ in 0..8 { c = if c & 1 != 0 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 } } }
    c
}
pub fn with_header(fourcc: u32, version: u16, body: &[u8]) -> Vec<u8> {
    let mut f = vec![0u8; 0x40];
    f[0x24..0x28].copy_from_slice(&fourcc.to_be_bytes());
    f[0x28..0x2C].copy_from_slice(&crc32(body).to_be_bytes());
    f[0x2C..0x30].copy_from_slice(&0x40u32.to_be_bytes());
    f[0x38..0x3A].copy_from_slice(&version.to_be_bytes());
    f[0x3A..0x3C].copy_from_slice(&255u16.to_be_bytes());
    f[0x3C..0x40].copy_from_slice(b"blam");
    f.extend_from_slice(body);
    f
}
pub fn encode_tag(l: &Layout, g: &GroupDef, v: &V) -> Vec<u8> { with_header(g.fourcc, g.version, &encode_body(l, g.st, v, None)) }

// ------------------------------------------------------------------ dynamic access
fn f(v: f64) -> u32 { (v as f32).to_bits() }
pub fn group_name(g: TagGroup) -> &'static str { g.as_str() }

pub fn get_prim(name: &str, d: &dyn DynamicTagData) -> Option<Vec<u32>> {
    let a = d.as_any();
    macro_rules! get { ($t:ty, |$v:ident| $e:expr) => { { let $v = a.downcast_ref::<$t>()?; $e } } }
    Some(match name {
        "Float" => get!(f64, |v| vec![f(*v)]),
        "I8" => get!(i8, |v| vec![*v as u8 as u32]), "U8" => get!(u8, |v| vec![*v as u32]),
        "I16" => get!(i16, |v| vec![*v as u16 as u32]), "U16" => get!(u16, |v| vec![*v as u32]),
        "I32" => get!(i32, |v| vec![*v as u32]), "U32" => get!(u32, |v| vec![*v]),
        "Index" => get!(Option<u16>, |v| vec![v.map(|x| x as u32).unwrap_or(0xFFFF)]),
        "ID" => get!(ID, |v| vec![v.as_u32()]),
        "TagGroup" => get!(TagGroup, |v| vec![layout().fourcc_of[v.as_str()]]),
        "Address" => get!(Address, |v| vec![v.address]),
        "ScenarioScriptNodeValue" => get!(ScenarioScriptNodeValue, |v| vec![v.data]),
        "ColorARGBInt" => get!(ColorARGBInt, |v| vec![v.color]),
        "CompressedVector3D" => get!(CompressedVector3D, |v| vec![v.data]),
        "CompressedVector2D" => get!(CompressedVector2D, |v| vec![v.data]),
        "CompressedFloat" => get!(CompressedFloat, |v| vec![v.data as u32]),
        "Angle" => get!(Angle, |v| vec![v.angle.to_bits()]),
        "Vector2D" => get!(Vector2D, |v| vec![f(v.x), f(v.y)]),
        "Vector3D" => get!(Vector3D, |v| vec![f(v.x), f(v.y), f(v.z)]),
        "Plane2D" => get!(Plane2D, |v| vec![f(v.vector.x), f(v.vector.y), f(v.d)]),
        "Plane3D" => get!(Plane3D, |v| vec![f(v.vector.x), f(v.vector.y), f(v.vector.z), f(v.d)]),
        "Euler2D" => get!(Euler2D, |v| vec![v.yaw.angle.to_bits(), v.pitch.angle.to_bits()]),
        "Euler3D" => get!(Euler3D, |v| vec![v.yaw.angle.to_bits(), v.pitch.angle.to_bits(), v.roll.angle.to_bits()]),
        "Quaternion" => get!(Quaternion, |v| vec![f(v.x), f(v.y), f(v.z), f(v.w)]),
        "Matrix3x3" => get!(Matrix3x3, |v| v.vectors.iter().flat_map(|v| [f(v.x), f(v.y), f(v.z)]).collect()),
        "ColorRGBFloat" => get!(ColorRGBFloat, |v| vec![f(v.red), f(v.green), f(v.blue)]),
        "ColorARGBFloat" => get!(ColorARGBFloat, |v| vec![f(v.alpha), f(v.red), f(v.green), f(v.blue)]),
        "Vector2DInt" => get!(Vector2DInt, |v| vec![v.x as u16 as u32, v.y as u16 as u32]),
        "Rectangle" => get!(Rectangle, |v| [v.top, v.left, v.bottom, v.right].iter().map(|x| *x as u16 as u32).collect()),
        _ => return None
    })
}
pub fn set_prim(name: &str, w: &[u32], d: &mut dyn DynamicTagData) -> Option<()> {
    let a = d.as_any_mut();
    let g = |i: usize| f32::from_bits(w[i]) as f64;
    let ang = |i: usize| Angle { angle: f32::from_bits(w[i]) };
    macro_rules! set { ($t:ty, $e:expr) => { { *a.downcast_mut::<$t>()? = $e; } } }
    match name {
        "Float" => set!(f64, g(0)),
        "I8" => set!(i8, w[0] as u8 as i8), "U8" => set!(u8, w[0] as u8), "I16" => set!(i16, w[0] as u16 as i16), "U16" => set!(u16, w[0] as u16),
        "I32" => set!(i32, w[0] as i32), "U32" => set!(u32, w[0]),
        "Index" => set!(Option<u16>, if w[0] == 0xFFFF { None } else { Some(w[0] as u16) }),
        "ID" => set!(ID, ID::from_u32(w[0])),
        "TagGroup" => set!(TagGroup, tag_group(layout().group_of_fourcc(w[0]).unwrap())),
        "Address" => set!(Address, Address { address: w[0] }),
        "ScenarioScriptNodeValue" => set!(ScenarioScriptNodeValue, ScenarioScriptNodeValue { data: w[0] }),
        "ColorARGBInt" => set!(ColorARGBInt, ColorARGBInt { color: w[0] }),
        "CompressedVector3D" => set!(CompressedVector3D, CompressedVector3D { data: w[0] }),
        "CompressedVector2D" => set!(CompressedVector2D, CompressedVector2D { data: w[0] }),
        "CompressedFloat" => set!(CompressedFloat, CompressedFloat { data: w[0] as u16 }),
        "Angle" => set!(Angle, ang(0)),
        "Vector2D" => set!(Vector2D, Vector2D { x: g(0), y: g(1) }),
        "Vector3D" => set!(Vector3D, Vector3D { x: g(0), y: g(1), z: g(2) }),
        "Plane2D" => set!(Plane2D, Plane2D { vector: Vector2D { x: g(0), y: g(1) }, d: g(2) }),
        "Plane3D" => set!(Plane3D, Plane3D { vector: Vector3D { x: g(0), y: g(1), z: g(2) }, d: g(3) }),
        "Euler2D" => set!(Euler2D, Euler2D { yaw: ang(0), pitch: ang(1) }),
        "Euler3D" => set!(Euler3D, Euler3D { yaw: ang(0), pitch: ang(1), roll: ang(2) }),
        "Quaternion" => set!(Quaternion, Quaternion { x: g(0), y: g(1), z: g(2), w: g(3) }),
        "Matrix3x3" => set!(Matrix3x3, Matrix3x3 { vectors: [Vector3D { x: g(0), y: g(1), z: g(2) }, Vector3D { x: g(3), y: g(4), z: g(5) }, Vector3D { x: g(6), y: g(7), z: g(8) }] }),
        "ColorRGBFloat" => set!(ColorRGBFloat, ColorRGBFloat { red: g(0), green: g(1), blue: g(2) }),
        "ColorARGBFloat" => set!(ColorARGBFloat, ColorARGBFloat { alpha: g(0), red: g(1), green: g(2), blue: g(3) }),
        "Vector2DInt" => set!(Vector2DInt, Vector2DInt { x: w[0] as i16, y: w[1] as i16 }),
        "Rectangle" => set!(Rectangle, Rectangle { top: w[0] as i16, left: w[1] as i16, bottom: w[2] as i16, right: w[3] as i16 }),
        _ => return None
    }
    Some(())
}
pub fn tag_group(name: &str) -> TagGroup {
    // not TagGroup::from_str: that is under test
    static M: std::sync::OnceLock<std::collections::HashMap<&'static str, TagGroup>> = std::sync::OnceLock::new();
    *M.get_or_init(|| crate::gen_table::GROUPS.iter().map(|(n, g)| (*n, *g)).collect()).get(name).unwrap_or_else(|| panic!("group {name}"))
}
pub fn make_ref(fourcc: u32, p: &str) -> TagReference {
    let g = tag_group(layout().group_of_fourcc(fourcc).unwrap_or("<unset>"));
    if p.is_empty() { TagReference::Null(g) } else { TagReference::Set(TagPath::new(p, g).expect("generated path must be valid")) }
}

pub fn get_one(l: &Layout, ty: &Ty, d: &dyn DynamicTagData, at: &str) -> Result<V, String> {
    let bad = || format!("{at}: unexpected type {:?}", d.data_type());
    Ok(match ty {
        Ty::Pad(_) => V::None,
        Ty::Prim { name, .. } => V::W(get_prim(name, d).ok_or_else(bad)?),
        Ty::Str32 => { let s = d.as_any().downcast_ref::<String32>().ok_or_else(bad)?; let t = s.as_str().as_bytes(); let mut b = [0u8; 32]; if t.len() > 31 { return Err(format!("{at}: string of {} bytes", t.len())) } b[..t.len()].copy_from_slice(t); V::S32(b) }
        Ty::Enum(e) => { let n = d.as_enum().ok_or_else(bad)?.get_enum_string_value(); V::N(l.enums[*e].options.iter().find(|o| !o.exclude && o.matcher == n).ok_or_else(|| format!("{at}: unknown enum value {n}"))?.value) }
        Ty::Bits(b) => {
            let mut v = 0;
            for o in l.bits[*b].options.iter().filter(|o| !o.exclude) { if *d.get_field(&o.matcher).ok_or_else(|| format!("{at}: no flag {}", o.matcher))?.as_any().downcast_ref::<bool>().ok_or_else(bad)? { v |= o.value } }
            V::N(v)
        }
        Ty::Struct(i) => get_struct(l, *i, d, at)?,
        Ty::Refl(i) => { if d.data_type() != DynamicTagDataType::Reflexive { return Err(bad()) } let a = d.as_array().ok_or_else(bad)?; V::Refl((0..a.len()).map(|k| get_struct(l, *i, a.get_at_index(k).ok_or("no item")?, &format!("{at}[{k}]"))).collect::<Result<_, String>>()?) }
        Ty::Ref(_) => match d.as_any().downcast_ref::<TagReference>().ok_or_else(bad)? { TagReference::Null(g) => V::Ref(l.fourcc_of[group_name(*g)], String::new()), TagReference::Set(p) => V::Ref(l.fourcc_of[group_name(p.group())], p.path().to_string()) },
        Ty::Data("Data") => V::Data(d.as_any().downcast_ref::<Data>().ok_or_else(bad)?.bytes.clone()),
        Ty::Data("FileData") => V::Data(d.as_any().downcast_ref::<FileData>().ok_or_else(bad)?.bytes.clone()),
        Ty::Data("BSPVertexData") => V::Data(d.as_any().downcast_ref::<BSPVertexData>().ok_or_else(bad)?.bytes.clone()),
        Ty::Data(_) => V::Data(d.as_any().downcast_ref::<UTF16String>().ok_or_else(bad)?.get_utf16_bytes().to_vec()),
    })
}
pub fn get_struct(l: &Layout, i: usize, d: &dyn DynamicTagData, at: &str) -> Result<V, String> {
    let mut out = vec![];
    for fd in &l.structs[i].fields {
        if fd.exclude || matches!(fd.ty, Ty::Pad(_)) { out.push(V::None); continue }
        let at = format!("{at}.{}", fd.matcher);
        let fv = d.get_field(&fd.matcher).ok_or_else(|| format!("{at}: no such field"))?;
        out.push(match fd.count {
            Count::One => get_one(l, &fd.ty, fv, &at)?,
            Count::Bounds => V::Arr(vec![get_one(l, &fd.ty, fv.get_field("lower").ok_or("no lower")?, &at)?, get_one(l, &fd.ty, fv.get_field("upper").ok_or("no upper")?, &at)?]),
            Count::Array(n) => { let a = fv.as_array().ok_or_else(|| format!("{at}: not an array"))?; if a.len() != n { return Err(format!("{at}: array of {}", a.len())) } V::Arr((0..n).map(|k| get_one(l, &fd.ty, a.get_at_index(k).ok_or("no item")?, &at)).collect::<Result<_, String>>()?) }
        });
    }
    Ok(V::St(out))
}
pub fn set_one(l: &Layout, ty: &Ty, v: &V, d: &mut dyn DynamicTagData, at: &str) -> Result<(), String> {
    let bad = format!("{at}: unexpected type {:?}", d.data_type());
    match (ty, v) {
        (Ty::Prim { name, .. }, V::W(w)) => set_prim(name, w, d).ok_or(bad)?,
        (Ty::Str32, V::S32(b)) => { let n = b.iter().position(|c| *c == 0).unwrap_or(31); let t = std::str::from_utf8(&b[..n]).map_err(|e| e.to_string())?; *d.as_any_mut().downcast_mut::<String32>().ok_or(bad)? = String32::from_str(t).map_err(|e| format!("{at}: {e:?}"))? }
        (Ty::Enum(e), V::N(n)) => { let name = &l.enums[*e].options.iter().find(|o| !o.exclude && o.value == *n).unwrap().matcher; d.as_enum_mut().ok_or(bad)?.set_enum_string_value(name).map_err(|e| format!("{at}: {e:?}"))? }
        (Ty::Bits(b), V::N(n)) => for o in l.bits[*b].options.iter().filter(|o| !o.exclude) { *d.get_field_mut(&o.matcher).ok_or_else(|| format!("{at}: no flag {}", o.matcher))?.as_any_mut().downcast_mut::<bool>().ok_or_else(|| bad.clone())? = n & o.value != 0 },
        (Ty::Struct(i), _) => set_struct(l, *i, v, d, at)?,
        (Ty::Refl(i), V::Refl(a)) => {
            {
                let r = d.as_reflexive_mut().ok_or_else(|| format!("{at}: as_reflexive_mut() returned None for a reflexive"))?;
                for k in 0..a.len() { r.insert_default(k) }
            }
            let arr = d.as_array_mut().ok_or(bad)?;
            for (k, x) in a.iter().enumerate() { set_struct(l, *i, x, arr.get_at_index_mut(k).ok_or("no item")?, &format!("{at}[{k}]"))? }
        }
        (Ty::Ref(_), V::Ref(g, p)) => *d.as_any_mut().downcast_mut::<TagReference>().ok_or(bad)? = make_ref(*g, p),
        (Ty::Data("Data"), V::Data(b)) => d.as_any_mut().downcast_mut::<Data>().ok_or(bad)?.bytes = b.clone(),
        (Ty::Data("FileData"), V::Data(b)) => d.as_any_mut().downcast_mut::<FileData>().ok_or(bad)?.bytes = b.clone(),
        (Ty::Data("BSPVertexData"), V::Data(b)) => d.as_any_mut().downcast_mut::<BSPVertexData>().ok_or(bad)?.bytes = b.clone(),
        (Ty::Data(_), V::Data(b)) => *d.as_any_mut().downcast_mut::<UTF16String>().ok_or(bad)? = utf16(b),
        _ => return Err(format!("{at}: value {v:?} does not fit"))
    }
    Ok(())
}
/// text with exactly these bytes; the only way to have invalid text is to read it from a tag
fn utf16(b: &[u8]) -> UTF16String {
    use ringhopper_primitives::parse::TagData;
    let mut f = (b.len() as u32).to_be_bytes().to_vec();
    f.resize(0x14, 0);
    f.extend(b);
    UTF16String::read_from_tag_file(&f, 0, 0x14, &mut 0x14).expect("text")
}
/// Set every field of a freshly default-constructed block.
pub fn set_struct(l: &Layout, i: usize, v: &V, d: &mut dyn DynamicTagData, at: &str) -> Result<(), String> {
    let V::St(vs) = v else { return Err(format!("{at}: not a struct value")) };
    for (fd, v) in l.structs[i].fields.iter().zip(vs) {
        if *v == V::None { continue }
        let at = format!("{at}.{}", fd.matcher);
        let fv = d.get_field_mut(&fd.matcher).ok_or_else(|| format!("{at}: no such field"))?;
        match (fd.count, v) {
            (Count::One, _) => set_one(l, &fd.ty, v, fv, &at)?,
            (Count::Bounds, V::Arr(a)) => { set_one(l, &fd.ty, &a[0], fv.get_field_mut("lower").ok_or("no lower")?, &at)?; set_one(l, &fd.ty, &a[1], fv.get_field_mut("upper").ok_or("no upper")?, &at)? }
            (Count::Array(_), V::Arr(a)) => { let arr = fv.as_array_mut().ok_or_else(|| format!("{at}: not an array"))?; for (k, x) in a.iter().enumerate() { set_one(l, &fd.ty, x, arr.get_at_index_mut(k).ok_or("no item")?, &at)? } }
            _ => return Err(format!("{at}: shape"))
        }
    }
    Ok(())
}
/// First difference between two values of a struct, as text.
pub fn first_diff(l: &Layout, i: usize, a: &V, b: &V, at: &str) -> Option<String> {
    let (V::St(x), V::St(y)) = (a, b) else { return Some(at.into()) };
    for ((fd, p), q) in l.structs[i].fields.iter().zip(x).zip(y) {
        if p == q { continue }
        let at = format!("{at}.{}", fd.matcher);
        return match (&fd.ty, p, q) {
            (Ty::Struct(i), V::St(_), V::St(_)) => first_diff(l, *i, p, q, &at),
            (Ty::Refl(i), V::Refl(m), V::Refl(n)) if m.len() == n.len() => m.iter().zip(n).enumerate().filter(|(_, (m, n))| m != n).next().and_then(|(k, (m, n))| first_diff(l, *i, m, n, &format!("{at}[{k}]"))),
            _ => { let show = |v: &V| { let s = format!("{v:x?}"); s.chars().take(200).collect::<String>() }; Some(format!("{at}: {} vs {}", show(p), show(q))) }
        }
    }
    None
}
/// Number of fields that differ from their default (a size measure for evidence).
pub fn richness(l: &Layout, i: usize, v: &V) -> usize {
    let V::St(x) = v else { return 0 };
    l.structs[i].fields.iter().zip(x).map(|(fd, p)| match (&fd.ty, p) {
        (_, V::None) => 0,
        (Ty::Struct(i), V::St(_)) => richness(l, *i, p),
        (Ty::Refl(i), V::Refl(m)) => m.len() + m.iter().map(|m| richness(l, *i, m)).sum::<usize>(),
        _ => (*p != default_field(l, fd)) as usize
    }).sum()
}

/// Make one list or one piece of data as large as `pick` counts, around where counters overflow; what was made large.
pub fn enlarge(s: &mut Src, l: &Layout, st: usize, v: &mut V, bytes: usize, paths: &[(u32, String)]) -> String {
    // where lists and data are
    fn go(l: &Layout, st: usize, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>, depth: usize) {
        if depth > 4 { return }
        for (i, f) in l.structs[st].fields.iter().enumerate() {
            if f.exclude || matches!(f.ty, Ty::Pad(_)) || !matches!(f.count, Count::One) { continue }
            path.push(i);
            if matches!(f.ty, Ty::Refl(_) | Ty::Data(_)) { out.push(path.clone()) }
            if let Ty::Struct(x) | Ty::Refl(x) = f.ty { go(l, x, path, out, depth + 1) }
            path.pop();
        }
    }
    let mut all = vec![];
    go(l, st, &mut vec![], &mut all, 0);
    if all.is_empty() { return "nothing".into() }
    let path = s.pick(&all).clone();
    let mut at = st;
    let mut x = v;
    let mut name = String::new();
    for (k, i) in path.iter().enumerate() {
        let f = &l.structs[at].fields[*i];
        name = format!("{name}.{}", f.matcher);
        let V::St(vs) = x else { unreachable!() };
        x = &mut vs[*i];
        if k + 1 == path.len() {
            let bound = |unit: usize| bytes / unit.max(1);
            match (&f.ty, &mut *x) {
                (Ty::Refl(k), V::Refl(items)) => {
                    let mut gen = Gen { budget: 300, max_items: 1, paths: paths.to_vec(), ..Default::default() };
                    while items.len() < 4 { gen.budget = 300; items.push(gen.structure(s, l, *k)) }
                    let last = { gen.budget = 300; gen.structure(s, l, *k) };
                    let base = items.clone();
                    let size = base.iter().map(|x| get_size(l, *k, x)).max().unwrap();
                    let most = bound(size).min(1_000_000 / l.structs[*k].fields.len().max(1));
                    let fits: Vec<usize> = [100usize, 255, 256, 257, 300, 1000, 1024, 4095, 32767, 32768, 65535, 65536, 65537, 80_000].into_iter().filter(|n| *n <= most).collect();
                    let n = if fits.is_empty() { most.max(1) } else { *s.pick(&fits) };
                    *items = (0..n.saturating_sub(1)).map(|i| base[i % base.len()].clone()).collect();
                    items.push(last);
                    return format!("{name}: {n} items")
                }
                (Ty::Data(k), V::Data(d)) => {
                    let fits: Vec<usize> = [255usize, 256, 257, 4096, 32768, 65534, 65535, 65536, 65537, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1].into_iter().filter(|n| *n <= bytes).collect();
                    let n = *s.pick(&fits);
                    if *k == "UTF16String" { *d = (0..n / 2).flat_map(|i| [b'a' + (i % 23) as u8, 0]).chain([0, 0]).collect(); }
                    else { let mut r = s.u64() | 1; *d = Vec::with_capacity(n); while d.len() < n { r ^= r << 13; r ^= r >> 7; r ^= r << 17; let m = (n - d.len()).min(8); d.extend_from_slice(&r.to_le_bytes()[..m]) } }
                    return format!("{name}: {n} bytes")
                }
                _ => unreachable!()
            }
        }
        match &f.ty {
            Ty::Struct(k) => at = *k,
            Ty::Refl(k) => { let V::Refl(items) = x else { unreachable!() }; if items.is_empty() { items.push(default_struct(l, *k)) } let last = items.len() - 1; x = &mut items[last]; at = *k }
            _ => unreachable!()
        }
    }
    unreachable!()
}
/// Change something in (or next to) the largest list or data there is.
pub fn touch(s: &mut Src, l: &Layout, st: usize, v: &mut V, gen: &mut Gen) {
    fn largest(v: &V) -> usize { match v { V::St(a) | V::Arr(a) => a.iter().map(largest).max().unwrap_or(0), V::Refl(a) => a.len().max(a.iter().map(largest).max().unwrap_or(0)), V::Data(d) => d.len(), _ => 0 } }
    let V::St(vs) = v else { return };
    let Some(i) = (0..vs.len()).max_by_key(|i| largest(&vs[*i])) else { return };
    match (&l.structs[st].fields[i].ty, &mut vs[i]) {
        (Ty::Struct(k), x) => touch(s, l, *k, x, gen),
        (Ty::Refl(k), V::Refl(a)) => {
            if let Some(j) = (0..a.len()).find(|j| largest(&a[*j]) > a.len()) { return touch(s, l, *k, &mut a[j], gen) }
            if a.is_empty() { return }
            let n = a.len();
            let j = match s.below(5) { 0 => 0, 1 => n - 1, 2 => 255.min(n - 1), 3 => 256.min(n - 1), _ => s.usize(0, n - 1) };
            gen.budget = 200;
            match s.below(6) { 0 => { a.remove(j); } 1 => { let x = a[j].clone(); a.insert(j, x) } 2 => { a.pop(); } _ => a[j] = gen.structure(s, l, *k) }
        }
        (Ty::Data(k), V::Data(d)) if *k != "UTF16String" && !d.is_empty() => { let n = d.len(); let j = match s.below(4) { 0 => 0, 1 => n - 1, _ => s.usize(0, n - 1) }; match s.below(4) { 0 => { d.pop(); } 1 => d.push(0), _ => d[j] ^= 1 << s.below(8) } }
        _ => ()
    }
}
/// how large `enlarge` made it
pub fn size_class(what: &str) -> &'static str {
    let n: usize = what.rsplit(": ").next().and_then(|x| x.split(' ').next()).and_then(|x| x.parse().ok()).unwrap_or(0);
    match n { 0..=255 => "up to 255", 256..=65535 => "up to 65535", _ => "65536 and more" }
}
/// bytes a value takes in a file, about
fn get_size(l: &Layout, st: usize, v: &V) -> usize {
    let V::St(vs) = v else { return 0 };
    l.structs[st].size + l.structs[st].fields.iter().zip(vs).map(|(f, v)| match (&f.ty, v) { (Ty::Refl(k), V::Refl(a)) => a.iter().map(|x| get_size(l, *k, x)).sum(), (Ty::Struct(k), V::St(_)) => get_size(l, *k, v) - l.structs[*k].size, (_, V::Data(d)) => d.len(), (_, V::Ref(_, p)) => p.len() + 1, _ => 0 }).sum::<usize>()
}

// ------------------------------------------------------------------ places in tags
/// A field of a group: indices of the fields leading to it (through blocks and lists).
pub struct Site { pub group: usize, pub path: Vec<usize> }
/// All fields of all groups satisfying `want`, lists and blocks entered.
pub fn sites(l: &Layout, want: fn(&Field) -> bool) -> Vec<Site> {
    fn go(l: &Layout, g: usize, st: usize, path: &mut Vec<usize>, want: fn(&Field) -> bool, out: &mut Vec<Site>, depth: usize) {
        if depth > 8 { return }
        for (i, f) in l.structs[st].fields.iter().enumerate() {
            if f.exclude || matches!(f.ty, Ty::Pad(_)) { continue }
            path.push(i);
            if want(f) { out.push(Site { group: g, path: path.clone() }) }
            if let Ty::Struct(x) | Ty::Refl(x) = f.ty { go(l, g, x, path, want, out, depth + 1) }
            path.pop();
        }
    }
    let mut out = vec![];
    for (g, d) in l.groups.iter().enumerate() { go(l, g, d.st, &mut vec![], want, &mut out, 0) }
    out
}
impl Site {
    pub fn field(&self) -> &'static Field {
        let l = layout();
        let mut st = l.groups[self.group].st;
        for (k, i) in self.path.iter().enumerate() { let f = &l.structs[st].fields[*i]; if k + 1 == self.path.len() { return f } if let Ty::Struct(x) | Ty::Refl(x) = f.ty { st = x } }
        unreachable!()
    }
    pub fn name(&self) -> String {
        let l = layout();
        let mut st = l.groups[self.group].st; let mut n = l.groups[self.group].name.clone();
        for i in &self.path { let f = &l.structs[st].fields[*i]; n += "."; n += &f.matcher; if let Ty::Struct(x) = f.ty { st = x } if let Ty::Refl(x) = f.ty { st = x; n += "[0]"; } }
        n
    }
    pub fn in_tag(&self) -> bool {
        let l = layout();
        let mut st = l.groups[self.group].st;
        for i in &self.path { let f = &l.structs[st].fields[*i]; if !f.in_tag() { return false } if let Ty::Struct(x) | Ty::Refl(x) = f.ty { st = x } }
        true
    }
    /// Enter the lists on the way (adding a first item where there is none) and return the field.
    pub fn reach<'a>(&self, d: &'a mut dyn DynamicTagData) -> Result<&'a mut dyn DynamicTagData, String> {
        let l = layout();
        let mut st = l.groups[self.group].st;
        let mut cur = d;
        for (k, i) in self.path.iter().enumerate() {
            let f = &l.structs[st].fields[*i];
            cur = cur.get_field_mut(&f.matcher).ok_or_else(|| format!("{}: no field {}", self.name(), f.matcher))?;
            if k + 1 == self.path.len() { return Ok(cur) }
            match f.ty {
                Ty::Struct(x) => { st = x; if !matches!(f.count, Count::One) { cur = cur.as_array_mut().ok_or("no array")?.get_at_index_mut(0).ok_or("no item")?; } }
                Ty::Refl(x) => {
                    st = x;
                    if cur.as_array().ok_or("no list")?.len() == 0 { cur.as_reflexive_mut().ok_or("no list")?.insert_default(0) }
                    cur = cur.as_array_mut().unwrap().get_at_index_mut(0).ok_or("no item")?;
                }
                _ => ()
            }
        }
        Ok(cur)
    }
    /// The value of this field in a value tree (first items of lists).
    pub fn value<'a>(&self, v: &'a V) -> Option<&'a V> {
        let mut cur = v;
        for (k, i) in self.path.iter().enumerate() {
            let V::St(f) = cur else { return None };
            cur = &f[*i];
            if k + 1 < self.path.len() { match cur { V::Refl(a) | V::Arr(a) => cur = a.first()?, _ => () } }
        }
        Some(cur)
    }
}

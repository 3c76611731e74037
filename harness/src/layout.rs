//! The tag layout this harness expects: a snapshot (data/layout.json) taken once from the
//! definitions and kept in /verif, so that it does not follow changes made in the repository.

use std::collections::HashMap;
use std::sync::OnceLock;
use serde_json::Value;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Scalar { F32, I8, U8, I16, U16, I32, U32, Index, Id, Group }
#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Pad(usize),
    Prim { name: &'static str, unit: Scalar, n: usize },
    Str32,
    Enum(usize),
    Bits(usize),
    Struct(usize),
    Refl(usize),
    Ref(Vec<String>),
    Data(&'static str),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Count { One, Bounds, Array(usize) }
#[derive(Clone, Debug)]
pub struct Field {
    pub name: String, pub matcher: String, pub ty: Ty, pub count: Count, pub off: usize, pub size: usize,
    pub exclude: bool, pub cache_only: bool, pub non_cached: bool, pub le: bool, pub shift: bool, pub ro: bool, pub non_null: bool,
    pub def: Option<Vec<f64>>, pub min: Option<f64>, pub max: Option<f64>,
}
impl Field { pub fn in_tag(&self) -> bool { !self.exclude && !self.cache_only } pub fn in_map(&self) -> bool { !self.exclude && !self.non_cached } }
#[derive(Clone, Debug)]
pub struct StructDef { pub name: String, pub size: usize, pub fields: Vec<Field>, pub ro: bool }
#[derive(Clone, Debug)]
pub struct OptDef { pub name: String, pub matcher: String, pub value: u32, pub exclude: bool, pub cache_only: bool, pub non_cached: bool }
#[derive(Clone, Debug)]
pub struct EnumDef { pub name: String, pub options: Vec<OptDef> }
#[derive(Clone, Debug)]
pub struct BitsDef { pub name: String, pub width: usize, pub options: Vec<OptDef> }
#[derive(Clone, Debug)]
pub struct GroupDef { pub name: String, pub st: usize, pub sup: Option<String>, pub version: u16, pub fourcc: u32, pub engines: Option<Vec<String>> }
pub struct Layout {
    pub structs: Vec<StructDef>, pub enums: Vec<EnumDef>, pub bits: Vec<BitsDef>, pub groups: Vec<GroupDef>,
    pub struct_by_name: HashMap<String, usize>, pub group_by_name: HashMap<String, usize>, pub json: Value,
    pub fourcc_of: HashMap<String, u32>,
}

pub fn safe(s: &str) -> String {
    s.chars().map(|c| if c == '-' || c == ' ' { '_' } else { c }).filter(|c| !"'\"()".contains(*c)).collect::<String>().to_ascii_lowercase()
}

fn prim(t: &str) -> Option<Ty> {
    use Scalar::*;
    Some(match t {
        "Float" => Ty::Prim { name: "Float", unit: F32, n: 1 },
        "I8" => Ty::Prim { name: "I8", unit: I8, n: 1 },
        "U8" => Ty::Prim { name: "U8", unit: U8, n: 1 },
        "I16" => Ty::Prim { name: "I16", unit: I16, n: 1 },
        "U16" => Ty::Prim { name: "U16", unit: U16, n: 1 },
        "I32" => Ty::Prim { name: "I32", unit: I32, n: 1 },
        "U32" => Ty::Prim { name: "U32", unit: U32, n: 1 },
        "Index" => Ty::Prim { name: "Index", unit: Index, n: 1 },
        "ID" => Ty::Prim { name: "ID", unit: Id, n: 1 },
        "TagGroup" => Ty::Prim { name: "TagGroup", unit: Group, n: 1 },
        "Address" => Ty::Prim { name: "Address", unit: U32, n: 1 },
        "ScenarioScriptNodeValue" => Ty::Prim { name: "ScenarioScriptNodeValue", unit: U32, n: 1 },
        "ColorARGBInt" => Ty::Prim { name: "ColorARGBInt", unit: U32, n: 1 },
        "CompressedVector3D" => Ty::Prim { name: "CompressedVector3D", unit: U32, n: 1 },
        "CompressedVector2D" => Ty::Prim { name: "CompressedVector2D", unit: U32, n: 1 },
        "CompressedFloat" => Ty::Prim { name: "CompressedFloat", unit: U16, n: 1 },
        "Angle" => Ty::Prim { name: "Angle", unit: F32, n: 1 },
        "Vector2D" => Ty::Prim { name: "Vector2D", unit: F32, n: 2 },
        "Vector3D" => Ty::Prim { name: "Vector3D", unit: F32, n: 3 },
        "Plane2D" => Ty::Prim { name: "Plane2D", unit: F32, n: 3 },
        "Plane3D" => Ty::Prim { name: "Plane3D", unit: F32, n: 4 },
        "Euler2D" => Ty::Prim { name: "Euler2D", unit: F32, n: 2 },
        "Euler3D" => Ty::Prim { name: "Euler3D", unit: F32, n: 3 },
        "Quaternion" => Ty::Prim { name: "Quaternion", unit: F32, n: 4 },
        "Matrix3x3" => Ty::Prim { name: "Matrix3x3", unit: F32, n: 9 },
        "ColorRGBFloat" => Ty::Prim { name: "ColorRGBFloat", unit: F32, n: 3 },
        "ColorARGBFloat" => Ty::Prim { name: "ColorARGBFloat", unit: F32, n: 4 },
        "Vector2DInt" => Ty::Prim { name: "Vector2DInt", unit: I16, n: 2 },
        "Rectangle" => Ty::Prim { name: "Rectangle", unit: I16, n: 4 },
        "String32" => Ty::Str32,
        "Data" => Ty::Data("Data"), "FileData" => Ty::Data("FileData"), "BSPVertexData" => Ty::Data("BSPVertexData"), "UTF16String" => Ty::Data("UTF16String"),
        _ => return None
    })
}
impl Scalar { pub fn width(self) -> usize { match self { Scalar::I8 | Scalar::U8 => 1, Scalar::I16 | Scalar::U16 | Scalar::Index => 2, _ => 4 } } }
impl Ty {
    pub fn size(&self, l: &Layout) -> usize {
        match self {
            Ty::Pad(n) => *n, Ty::Prim { unit, n, .. } => unit.width() * n, Ty::Str32 => 32, Ty::Enum(_) => 2, Ty::Bits(b) => l.bits[*b].width / 8,
            Ty::Struct(s) => l.structs[*s].size, Ty::Refl(_) => 12, Ty::Ref(_) => 16, Ty::Data(_) => 20
        }
    }
}

pub fn layout() -> &'static Layout {
    static L: OnceLock<Layout> = OnceLock::new();
    L.get_or_init(load)
}
fn num(v: &Value) -> Option<f64> { v.as_f64() }

fn load() -> Layout {
    let json: Value = serde_json::from_str(include_str!("../data/layout.json")).unwrap();
    let objs = json["objects"].as_object().unwrap();
    let (mut structs, mut enums, mut bits) = (vec![], vec![], vec![]);
    let mut by: HashMap<String, (char, usize)> = HashMap::new();
    let opts = |o: &Value| o["options"].as_array().unwrap().iter().map(|x| OptDef {
        name: x["n"].as_str().unwrap().into(), matcher: safe(x["n"].as_str().unwrap()), value: x["v"].as_u64().unwrap() as u32,
        exclude: x["fl"]["exclude"] == true, cache_only: x["fl"]["cache_only"] == true, non_cached: x["fl"]["non_cached"] == true }).collect::<Vec<_>>();
    for (n, o) in objs {
        match o["k"].as_str().unwrap() {
            "enum" => { by.insert(n.clone(), ('e', enums.len())); enums.push(EnumDef { name: n.clone(), options: opts(o) }); }
            "bits" => { by.insert(n.clone(), ('b', bits.len())); bits.push(BitsDef { name: n.clone(), width: o["width"].as_u64().unwrap() as usize, options: opts(o) }); }
            _ => { by.insert(n.clone(), ('s', structs.len())); structs.push(StructDef { name: n.clone(), size: o["size"].as_u64().unwrap() as usize, fields: vec![], ro: o["flags"]["ro"] == true }); }
        }
    }
    for (n, o) in objs {
        if o["k"] != "struct" { continue }
        let mut fields = vec![];
        for f in o["fields"].as_array().unwrap() {
            let t = f["t"].as_str().unwrap();
            if t == "EditorSection" { continue }
            let named = |v: &Value| by[v.as_str().unwrap()];
            let ty = match t {
                "Padding" => Ty::Pad(f["a"].as_u64().unwrap() as usize),
                "Named" => match named(&f["a"]) { ('e', i) => Ty::Enum(i), ('b', i) => Ty::Bits(i), (_, i) => Ty::Struct(i) },
                "Reflexive" => Ty::Refl(named(&f["a"]).1),
                "TagReference" => Ty::Ref(f["a"].as_array().unwrap().iter().map(|g| g.as_str().unwrap().to_string()).collect()),
                t => prim(t).unwrap_or_else(|| panic!("type {t}"))
            };
            let fl = &f["fl"];
            let b = |k: &str| fl[k] == true;
            let count = match &f["c"] { Value::String(_) => Count::Bounds, Value::Array(a) => Count::Array(a[1].as_u64().unwrap() as usize), _ => Count::One };
            fields.push(Field { name: f["n"].as_str().unwrap().into(), matcher: safe(f["n"].as_str().unwrap()), ty, count, off: f["off"].as_u64().unwrap() as usize, size: f["sz"].as_u64().unwrap() as usize,
                exclude: b("exclude"), cache_only: b("cache_only"), non_cached: b("non_cached"), le: b("le"), shift: b("shift"), ro: b("ro"), non_null: b("non_null"),
                def: f["def"].as_array().map(|a| a.iter().filter_map(num).collect()), min: num(&f["min"]), max: num(&f["max"]) });
        }
        structs[by[n].1].fields = fields;
    }
    let mut fourcc_of: HashMap<String, u32> = json["fourcc"].as_object().unwrap().iter().map(|(n, v)| (n.clone(), v.as_u64().unwrap() as u32)).collect();
    fourcc_of.insert("<unset>".into(), 0);
    fourcc_of.insert("wind".into(), 0x77696E64);
    fourcc_of.insert("spheroid".into(), 0x626F6F6D);
    let mut groups = vec![];
    let mut group_by_name = HashMap::new();
    for (n, g) in json["groups"].as_object().unwrap() {
        group_by_name.insert(n.clone(), groups.len());
        groups.push(GroupDef { name: n.clone(), st: by[g["struct"].as_str().unwrap()].1, sup: g["super"].as_str().map(|s| s.into()), version: g["version"].as_u64().unwrap() as u16,
            fourcc: fourcc_of[n], engines: g["engines"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()) });
    }
    let struct_by_name = structs.iter().enumerate().map(|(i, s): (usize, &StructDef)| (s.name.clone(), i)).collect();
    let l = Layout { structs, enums, bits, groups, struct_by_name, group_by_name, json, fourcc_of };
    for s in &l.structs { let mut o = 0; for f in &s.fields { assert_eq!(o, f.off, "{} {}", s.name, f.name); let n = match f.count { Count::One => 1, Count::Bounds => 2, Count::Array(n) => n }; assert_eq!(f.ty.size(&l) * n, f.size, "{} {}", s.name, f.name); o += f.size; } assert_eq!(o, s.size, "{}", s.name); }
    l
}
impl Layout {
    pub fn st(&self, name: &str) -> usize { self.struct_by_name[name] }
    pub fn group(&self, name: &str) -> &GroupDef { &self.groups[self.group_by_name[name]] }
    /// fourcc -> group name (the unset group for 0 and FFFFFFFF), None if unknown
    pub fn group_of_fourcc(&self, f: u32) -> Option<&str> {
        if f == u32::MAX { return Some("<unset>") }
        self.fourcc_of.iter().find(|x| *x.1 == f).map(|x| x.0.as_str())
    }
}

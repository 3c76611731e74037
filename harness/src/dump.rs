use ringhopper_definitions::*;
use serde_json::{json, Value, Map};
fn flags(f: &Flags) -> Value {
    let mut m = Map::new();
    let mut p = |n: &str, v: bool| if v { m.insert(n.into(), json!(true)); };
    p("cache_only", f.cache_only); p("non_cached", f.non_cached); p("exclude", f.exclude);
    p("le", f.little_endian_in_tags); p("shift", f.shifted_by_one); p("ro", f.uneditable_in_editor); p("hidden", f.hidden_in_editor);p("non_null", f.non_null);
    if let Some(e) = &f.supported_engines.supported_engines { m.insert("engines".into(), json!(e)); }
    Value::Object(m)
}
fn sv(s: &StaticValue) -> Value { match s { StaticValue::F32(f)=>json!(*f as f64), StaticValue::Uint(u)=>json!(u), StaticValue::Int(i)=>json!(i), StaticValue::String(s)=>json!(s) } }
pub fn dump() {
    let d = load_all_definitions();
    let mut objs = std::collections::BTreeMap::new();
    for (n,o) in &d.objects {
        let v = match o {
            NamedObject::Struct(s) => json!({"k":"struct","size":s.size,"flags":flags(&s.flags),"fields": s.fields.iter().map(|f| {
                let (t,arg): (String,Value) = match &f.field_type {
                    StructFieldType::Padding(n)=>("Padding".into(), json!(n)),
                    StructFieldType::EditorSection(_)=>("EditorSection".into(), json!(null)),
                    StructFieldType::Object(o)=> match o {
                        ObjectType::NamedObject(n)=>("Named".into(),json!(n)),
                        ObjectType::Reflexive(n)=>("Reflexive".into(),json!(n)),
                        ObjectType::TagReference(r)=>("TagReference".into(),json!(r.allowed_groups)),
                        o => { let nm = match o { ObjectType::TagGroup=>"TagGroup",ObjectType::Data=>"Data",ObjectType::FileData=>"FileData",ObjectType::BSPVertexData=>"BSPVertexData",ObjectType::Float=>"Float",ObjectType::U8=>"U8",ObjectType::U16=>"U16",ObjectType::U32=>"U32",ObjectType::I8=>"I8",ObjectType::I16=>"I16",ObjectType::I32=>"I32",ObjectType::TagID=>"ID",ObjectType::ID=>"ID",ObjectType::Index=>"Index",ObjectType::Angle=>"Angle",ObjectType::Address=>"Address",ObjectType::Vector2D=>"Vector2D",ObjectType::Vector3D=>"Vector3D",ObjectType::CompressedVector2D=>"CompressedVector2D",ObjectType::CompressedVector3D=>"CompressedVector3D",ObjectType::CompressedFloat=>"CompressedFloat",ObjectType::Vector2DInt=>"Vector2DInt",ObjectType::Plane2D=>"Plane2D",ObjectType::Plane3D=>"Plane3D",ObjectType::Euler2D=>"Euler2D",ObjectType::Euler3D=>"Euler3D",ObjectType::Rectangle=>"Rectangle",ObjectType::Quaternion=>"Quaternion",ObjectType::Matrix3x3=>"Matrix3x3",ObjectType::ColorRGBFloat=>"ColorRGBFloat",ObjectType::ColorARGBFloat=>"ColorARGBFloat",ObjectType::ColorARGBInt=>"ColorARGBInt",ObjectType::String32=>"String32",ObjectType::ScenarioScriptNodeValue=>"ScenarioScriptNodeValue",ObjectType::UTF16String=>"UTF16String",_=>unreachable!()}; (nm.into(), json!(null)) }
                    }
                };
                let c = match f.count { FieldCount::One=>json!(1), FieldCount::Bounds=>json!("b"), FieldCount::Array(n)=>json!(["a",n]) };
                let mut o = Map::new();
                o.insert("n".into(), json!(f.name)); o.insert("t".into(), json!(t)); if !arg.is_null() {o.insert("a".into(),arg);} if c!=json!(1) {o.insert("c".into(),c);}
                o.insert("off".into(), json!(f.relative_offset)); let fl=flags(&f.flags); if fl!=json!({}) {o.insert("fl".into(), fl);}
                if let Some(dv)=&f.default_value { o.insert("def".into(), json!(dv.iter().map(sv).collect::<Vec<_>>())); }
                if let Some(m)=&f.minimum { o.insert("min".into(), sv(m)); }
                if let Some(m)=&f.maximum { o.insert("max".into(), sv(m)); }
                o.insert("sz".into(), json!(f.size(&d)));
                Value::Object(o)
            }).collect::<Vec<_>>()}),
            NamedObject::Enum(e)=>json!({"k":"enum","options":e.options.iter().map(|o| json!({"n":o.name,"v":o.value,"fl":flags(&o.flags)})).collect::<Vec<_>>()}),
            NamedObject::Bitfield(e)=>json!({"k":"bits","width":e.width,"options":e.fields.iter().map(|o| json!({"n":o.name,"v":o.value,"fl":flags(&o.flags)})).collect::<Vec<_>>()}),
        };
        objs.insert(n.clone(), v);
    }
    let groups: std::collections::BTreeMap<_,_> = d.groups.iter().map(|(n,g)| (n.clone(), json!({"struct":g.struct_name,"super":g.supergroup,"engines":g.supported_engines.supported_engines,"version":g.version}))).collect();
    let engines: std::collections::BTreeMap<_,_> = d.engines.iter().map(|(n,e)| (n.clone(), json!({"name":e.name,"display":e.display_name,"version":e.version,"build":e.build.as_ref().map(|b| json!({"string":b.string,"fallback":b.fallback,"enforced":b.enforced})),"inherits":e.inherits,"build_target":e.build_target,"fallback":e.fallback,"custom":e.custom,"cache_file_version":e.cache_file_version,"cache_default":e.cache_default,"external_bsps":e.external_bsps,"external_models":e.external_models,"max_script_nodes":e.max_script_nodes,"max_tag_space":e.max_tag_space,"compressed_models":e.compressed_models,"data_alignment":e.data_alignment,
      "bitmap":{"swizzled":e.bitmap_options.swizzled,"modulo":e.bitmap_options.texture_dimension_must_modulo_block_size,"cubemap_sep":e.bitmap_options.cubemap_faces_stored_separately,"alignment":e.bitmap_options.alignment},
      "resource_maps":e.resource_maps.as_ref().map(|r| json!({"ext":r.externally_indexed_tags,"loc":r.loc})),
      "xbox":e.cache_parser==EngineCacheParser::Xbox,"base":e.base_memory_address.address,"inferred":e.base_memory_address.inferred,
      "max_size":[e.max_cache_file_size.user_interface,e.max_cache_file_size.singleplayer,e.max_cache_file_size.multiplayer],
      "required":{"all":e.required_tags.all,"ui":e.required_tags.user_interface,"sp":e.required_tags.singleplayer,"mp":e.required_tags.multiplayer},
      "deflate":matches!(e.compression_type,EngineCompressionType::Deflate)}))).collect();
    // fourccs
    let mut fcc = Map::new();
    for g in groups.keys() { if let Ok(t)=ringhopper_primitives::primitive::TagGroup::from_str(g) { fcc.insert(g.clone(), json!(t.as_fourcc())); } else { eprintln!("no group {g}"); } }
    println!("{}", serde_json::to_string(&json!({"objects":objs,"groups":groups,"engines":engines,"fourcc":fcc})).unwrap());
}

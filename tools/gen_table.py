#!/usr/bin/env python3
"""Writes harness/src/gen_table.rs: the typed dispatch tables (group -> Rust type) from layout.json."""
import json,re,os
here=os.path.dirname(os.path.abspath(__file__))
L=json.load(open(here+'/../harness/data/layout.json'))
src=open('/repo/src/ringhopper-primitives/src/primitive/group.rs').read()
pairs=re.findall(r'\("([a-z_<>]+)", TagGroup::(\w+), 0x',src)
v=dict(pairs)
out=['// generated by tools/gen_table.py','#![allow(clippy::all)]','use ringhopper_primitives::primitive::TagGroup;','use ringhopper_primitives::tag::*;','use ringhopper_primitives::error::RinghopperResult;','use ringhopper_primitives::parse::TagDataDefaults;','use ringhopper_structs::*;','']
out.append('pub const GROUPS: &[(&str, TagGroup)] = &[')
for n in list(L['groups'])+['placeholder_','<unset>']:
    if n in v: out.append(f'    ("{n}", TagGroup::{v[n]}),')
for n in sorted(set(v)-set(L['groups'])-{'<unset>'}): out.append(f'    ("{n}", TagGroup::{v[n]}),')
out.append('];\n')
out.append('pub struct GroupOps {\n    pub name: &\'static str,\n    pub default: fn() -> Box<dyn PrimaryTagStructDyn>,\n    pub read: fn(&[u8], ParseStrictness) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>>,\n    pub eq: fn(&dyn PrimaryTagStructDyn, &dyn PrimaryTagStructDyn) -> bool,\n    pub set_defaults: fn(&mut dyn PrimaryTagStructDyn),\n    pub unset_defaults: fn(&mut dyn PrimaryTagStructDyn),\n}')
out.append('''fn d<T: PrimaryTagStructDyn + Default>() -> Box<dyn PrimaryTagStructDyn> { Box::new(T::default()) }
fn r<T: PrimaryTagStruct + Clone + 'static>(b: &[u8], s: ParseStrictness) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { TagFile::read_tag_from_file_buffer::<T>(b, s).map(|t| Box::new(t) as Box<dyn PrimaryTagStructDyn>) }
fn e<T: PrimaryTagStructDyn + PartialEq>(a: &dyn PrimaryTagStructDyn, b: &dyn PrimaryTagStructDyn) -> bool { a.get_ref::<T>().unwrap() == b.get_ref::<T>().unwrap() }
fn s<T: PrimaryTagStructDyn + TagDataDefaults>(a: &mut dyn PrimaryTagStructDyn) { a.get_mut::<T>().unwrap().set_defaults() }
fn u<T: PrimaryTagStructDyn + TagDataDefaults>(a: &mut dyn PrimaryTagStructDyn) { a.get_mut::<T>().unwrap().unset_defaults() }
macro_rules! g { ($n:expr, $t:ty) => { GroupOps { name: $n, default: d::<$t>, read: r::<$t>, eq: e::<$t>, set_defaults: s::<$t>, unset_defaults: u::<$t> } } }
''')
out.append('pub static OPS: &[GroupOps] = &[')
for n,g in L['groups'].items(): out.append(f'    g!("{n}", {g["struct"]}),')
out.append('];')
open(here+'/../harness/src/gen_table.rs','w').write('\n'.join(out)+'\n')

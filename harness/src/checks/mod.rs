use crate::engine::Check;
pub mod tagfile;
pub mod paths;
pub mod prims;
pub mod fields;
pub mod tree;
pub mod text;
pub mod graph;
pub mod compare;
pub mod geom;
pub mod scripts;
pub mod bitmaps;
pub mod maphead;
pub mod sounds;
pub mod maps;
pub mod verify;
pub mod recover;
pub mod repair;
pub mod images;

static ALL: &[&Check] = &[&tagfile::C01, &tagfile::C02, &tagfile::C03, &tagfile::C04, &paths::C05, &prims::C06, &prims::C07, &prims::C08, &fields::C09, &fields::C10, &text::C11, &text::C12, &tree::C13, &tree::C14, &tree::C15, &graph::C16, &graph::C17, &graph::C18, &graph::C24, &compare::C19, &geom::C20, &geom::C21, &bitmaps::C22, &scripts::C26, &maphead::C28, &maphead::C32, &maps::C27, &maps::C29, &maps::C30, &maps::C31, &sounds::C36, &verify::C33, &repair::C25, &images::C23, &recover::C37];
pub fn all() -> &'static [&'static Check] { ALL }

// generated by tools/gen_table.py
#![allow(clippy::all)]
use ringhopper_primitives::primitive::TagGroup;
use ringhopper_primitives::tag::*;
use ringhopper_primitives::error::RinghopperResult;
use ringhopper_primitives::parse::TagDataDefaults;
use ringhopper_structs::*;

pub const GROUPS: &[(&str, TagGroup)] = &[
    ("actor", TagGroup::Actor),
    ("actor_variant", TagGroup::ActorVariant),
    ("antenna", TagGroup::Antenna),
    ("biped", TagGroup::Biped),
    ("bitmap", TagGroup::Bitmap),
    ("camera_track", TagGroup::CameraTrack),
    ("color_table", TagGroup::ColorTable),
    ("continuous_damage_effect", TagGroup::ContinuousDamageEffect),
    ("contrail", TagGroup::Contrail),
    ("damage_effect", TagGroup::DamageEffect),
    ("decal", TagGroup::Decal),
    ("detail_object_collection", TagGroup::DetailObjectCollection),
    ("device", TagGroup::Device),
    ("device_control", TagGroup::DeviceControl),
    ("device_light_fixture", TagGroup::DeviceLightFixture),
    ("device_machine", TagGroup::DeviceMachine),
    ("dialogue", TagGroup::Dialogue),
    ("effect", TagGroup::Effect),
    ("equipment", TagGroup::Equipment),
    ("flag", TagGroup::Flag),
    ("fog", TagGroup::Fog),
    ("font", TagGroup::Font),
    ("garbage", TagGroup::Garbage),
    ("gbxmodel", TagGroup::GBXModel),
    ("globals", TagGroup::Globals),
    ("glow", TagGroup::Glow),
    ("grenade_hud_interface", TagGroup::GrenadeHUDInterface),
    ("hud_globals", TagGroup::HUDGlobals),
    ("hud_message_text", TagGroup::HUDMessageText),
    ("hud_number", TagGroup::HUDNumber),
    ("input_device_defaults", TagGroup::InputDeviceDefaults),
    ("item", TagGroup::Item),
    ("item_collection", TagGroup::ItemCollection),
    ("lens_flare", TagGroup::LensFlare),
    ("light", TagGroup::Light),
    ("light_volume", TagGroup::LightVolume),
    ("lightning", TagGroup::Lightning),
    ("material_effects", TagGroup::MaterialEffects),
    ("meter", TagGroup::Meter),
    ("model", TagGroup::Model),
    ("model_animations", TagGroup::ModelAnimations),
    ("model_collision_geometry", TagGroup::ModelCollisionGeometry),
    ("multiplayer_scenario_description", TagGroup::MultiplayerScenarioDescription),
    ("object", TagGroup::Object),
    ("particle", TagGroup::Particle),
    ("particle_system", TagGroup::ParticleSystem),
    ("physics", TagGroup::Physics),
    ("placeholder", TagGroup::Placeholder),
    ("point_physics", TagGroup::PointPhysics),
    ("preferences_network_game", TagGroup::PreferencesNetworkGame),
    ("projectile", TagGroup::Projectile),
    ("scenario", TagGroup::Scenario),
    ("scenario_structure_bsp", TagGroup::ScenarioStructureBSP),
    ("scenery", TagGroup::Scenery),
    ("shader", TagGroup::Shader),
    ("shader_environment", TagGroup::ShaderEnvironment),
    ("shader_model", TagGroup::ShaderModel),
    ("shader_transparent_chicago", TagGroup::ShaderTransparentChicago),
    ("shader_transparent_chicago_extended", TagGroup::ShaderTransparentChicagoExtended),
    ("shader_transparent_generic", TagGroup::ShaderTransparentGeneric),
    ("shader_transparent_glass", TagGroup::ShaderTransparentGlass),
    ("shader_transparent_meter", TagGroup::ShaderTransparentMeter),
    ("shader_transparent_plasma", TagGroup::ShaderTransparentPlasma),
    ("shader_transparent_water", TagGroup::ShaderTransparentWater),
    ("sky", TagGroup::Sky),
    ("sound", TagGroup::Sound),
    ("sound_environment", TagGroup::SoundEnvironment),
    ("sound_looping", TagGroup::SoundLooping),
    ("sound_scenery", TagGroup::SoundScenery),
    ("string_list", TagGroup::StringList),
    ("tag_collection", TagGroup::TagCollection),
    ("ui_widget_collection", TagGroup::UIWidgetCollection),
    ("ui_widget_definition", TagGroup::UIWidgetDefinition),
    ("unicode_string_list", TagGroup::UnicodeStringList),
    ("unit", TagGroup::Unit),
    ("unit_hud_interface", TagGroup::UnitHUDInterface),
    ("vehicle", TagGroup::Vehicle),
    ("virtual_keyboard", TagGroup::VirtualKeyboard),
    ("weapon", TagGroup::Weapon),
    ("weapon_hud_interface", TagGroup::WeaponHUDInterface),
    ("weather_particle_system", TagGroup::WeatherParticleSystem),
    ("wind", TagGroup::Wind),
    ("<unset>", TagGroup::_Unset),
    ("spheroid", TagGroup::Spheroid),
];

pub struct GroupOps {
    pub name: &'static str,
    pub default: fn() -> Box<dyn PrimaryTagStructDyn>,
    pub read: fn(&[u8], ParseStrictness) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>>,
    pub eq: fn(&dyn PrimaryTagStructDyn, &dyn PrimaryTagStructDyn) -> bool,
    pub set_defaults: fn(&mut dyn PrimaryTagStructDyn),
    pub unset_defaults: fn(&mut dyn PrimaryTagStructDyn),
}
fn d<T: PrimaryTagStructDyn + Default>() -> Box<dyn PrimaryTagStructDyn> { Box::new(T::default()) }
fn r<T: PrimaryTagStruct + Clone + 'static>(b: &[u8], s: ParseStrictness) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { TagFile::read_tag_from_file_buffer::<T>(b, s).map(|t| Box::new(t) as Box<dyn PrimaryTagStructDyn>) }
fn e<T: PrimaryTagStructDyn + PartialEq>(a: &dyn PrimaryTagStructDyn, b: &dyn PrimaryTagStructDyn) -> bool { a.get_ref::<T>().unwrap() == b.get_ref::<T>().unwrap() }
fn s<T: PrimaryTagStructDyn + TagDataDefaults>(a: &mut dyn PrimaryTagStructDyn) { a.get_mut::<T>().unwrap().set_defaults() }
fn u<T: PrimaryTagStructDyn + TagDataDefaults>(a: &mut dyn PrimaryTagStructDyn) { a.get_mut::<T>().unwrap().unset_defaults() }
macro_rules! g { ($n:expr, $t:ty) => { GroupOps { name: $n, default: d::<$t>, read: r::<$t>, eq: e::<$t>, set_defaults: s::<$t>, unset_defaults: u::<$t> } } }

pub static OPS: &[GroupOps] = &[
    g!("actor", Actor),
    g!("actor_variant", ActorVariant),
    g!("antenna", Antenna),
    g!("biped", Biped),
    g!("bitmap", Bitmap),
    g!("camera_track", CameraTrack),
    g!("color_table", ColorTable),
    g!("continuous_damage_effect", ContinuousDamageEffect),
    g!("contrail", Contrail),
    g!("damage_effect", DamageEffect),
    g!("decal", Decal),
    g!("detail_object_collection", DetailObjectCollection),
    g!("device", Device),
    g!("device_control", DeviceControl),
    g!("device_light_fixture", DeviceLightFixture),
    g!("device_machine", DeviceMachine),
    g!("dialogue", Dialogue),
    g!("effect", Effect),
    g!("equipment", Equipment),
    g!("flag", Flag),
    g!("fog", Fog),
    g!("font", Font),
    g!("garbage", Garbage),
    g!("gbxmodel", GBXModel),
    g!("globals", Globals),
    g!("glow", Glow),
    g!("grenade_hud_interface", GrenadeHUDInterface),
    g!("hud_globals", HUDGlobals),
    g!("hud_message_text", HUDMessageText),
    g!("hud_number", HUDNumber),
    g!("input_device_defaults", InputDeviceDefaults),
    g!("item", Item),
    g!("item_collection", ItemCollection),
    g!("lens_flare", LensFlare),
    g!("light", Light),
    g!("light_volume", LightVolume),
    g!("lightning", Lightning),
    g!("material_effects", MaterialEffects),
    g!("meter", Meter),
    g!("model", Model),
    g!("model_animations", ModelAnimations),
    g!("model_collision_geometry", ModelCollisionGeometry),
    g!("multiplayer_scenario_description", MultiplayerScenarioDescription),
    g!("object", Object),
    g!("particle", Particle),
    g!("particle_system", ParticleSystem),
    g!("physics", Physics),
    g!("placeholder", Placeholder),
    g!("point_physics", PointPhysics),
    g!("preferences_network_game", PreferencesNetworkGame),
    g!("projectile", Projectile),
    g!("scenario", Scenario),
    g!("scenario_structure_bsp", ScenarioStructureBSP),
    g!("scenery", Scenery),
    g!("shader", Shader),
    g!("shader_environment", ShaderEnvironment),
    g!("shader_model", ShaderModel),
    g!("shader_transparent_chicago", ShaderTransparentChicago),
    g!("shader_transparent_chicago_extended", ShaderTransparentChicagoExtended),
    g!("shader_transparent_generic", ShaderTransparentGeneric),
    g!("shader_transparent_glass", ShaderTransparentGlass),
    g!("shader_transparent_meter", ShaderTransparentMeter),
    g!("shader_transparent_plasma", ShaderTransparentPlasma),
    g!("shader_transparent_water", ShaderTransparentWater),
    g!("sky", Sky),
    g!("sound", Sound),
    g!("sound_environment", SoundEnvironment),
    g!("sound_looping", SoundLooping),
    g!("sound_scenery", SoundScenery),
    g!("string_list", StringList),
    g!("tag_collection", TagCollection),
    g!("ui_widget_collection", UIWidgetCollection),
    g!("ui_widget_definition", UIWidgetDefinition),
    g!("unicode_string_list", UnicodeStringList),
    g!("unit", Unit),
    g!("unit_hud_interface", UnitHUDInterface),
    g!("vehicle", Vehicle),
    g!("virtual_keyboard", VirtualKeyboard),
    g!("weapon", Weapon),
    g!("weapon_hud_interface", WeaponHUDInterface),
    g!("weather_particle_system", WeatherParticleSystem),
    g!("wind", Wind),
];

//! bevy 0.6.1 as it is, but for `DefaultPlugins`, which here need neither a window, a graphics
//! device, sound nor gamepads, and leave the log and Ctrl-C alone.
pub use bevy_internal::*;

pub mod prelude {
    pub use crate::DefaultPlugins;
    pub use bevy_internal::prelude::*;
}

use bevy_internal::app::{App, Plugin, PluginGroup, PluginGroupBuilder};

pub struct DefaultPlugins;

struct NoDevice;
impl Plugin for NoDevice {
    fn build(&self, app: &mut App) {
        app.insert_resource(render::options::WgpuOptions {
            backends: None,
            ..Default::default()
        });
    }
}

impl PluginGroup for DefaultPlugins {
    fn build(&mut self, group: &mut PluginGroupBuilder) {
        group
            .add(NoDevice)
            .add(core::CorePlugin::default())
            .add(transform::TransformPlugin::default())
            .add(diagnostic::DiagnosticsPlugin::default())
            .add(input::InputPlugin::default())
            .add(window::WindowPlugin::default())
            .add(asset::AssetPlugin::default())
            .add(scene::ScenePlugin::default())
            .add(render::RenderPlugin::default())
            .add(core_pipeline::CorePipelinePlugin::default())
            .add(sprite::SpritePlugin::default());
    }
}

//! The marker of what is to be rendered.
#![allow(missing_docs)]
use bevy::ecs::component::Component;

#[derive(Component, Default)]
pub struct Shape;

use crate::engine::Prop;

pub mod api;
pub mod meta;
pub mod semantic;
pub mod syntax;
pub mod text;

pub fn all() -> Vec<&'static Prop> {
  let mut v: Vec<&'static Prop> = vec![];
  v.extend(syntax::PROPS);
  v.extend(text::PROPS);
  v.extend(semantic::PROPS);
  v.extend(meta::PROPS);
  v.extend(api::PROPS);
  v
}

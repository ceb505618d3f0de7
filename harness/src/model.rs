//! The reference model of a DBML document, independent of the library's types.
//! `sp` fields are byte ranges, filled by the writer or by the reference parser.

pub type Sp = (usize, usize);

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Name {
  pub text: String,
  pub quoted: bool,
  pub sp: Sp,
}

impl Name {
  pub fn new(text: &str) -> Self {
    Name { text: text.to_string(), quoted: !is_var(text), sp: (0, 0) }
  }
  pub fn raw(&self) -> String {
    if self.quoted {
      format!("\"{}\"", self.text)
    } else {
      self.text.clone()
    }
  }
}

pub fn is_var(s: &str) -> bool {
  let b = s.as_bytes();
  !b.is_empty() && b[0].is_ascii_alphabetic() && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}

#[derive(Clone, Debug, PartialEq)]
pub enum LitK {
  /// style 0: '..', 1: '''..''', 2: ".."; `lead` is white space between the quote and the value
  Str { style: u8, lead: String, text: String },
  Int(String),
  Dec(String),
  Bool(bool),
  Null,
  Hex(String),
  Expr(String),
  Word(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Lit {
  pub k: LitK,
  pub sp: Sp,
}

impl Lit {
  pub fn new(k: LitK) -> Self {
    Lit { k, sp: (0, 0) }
  }
  pub fn str(s: &str) -> Self {
    Lit::new(LitK::Str { style: 0, lead: String::new(), text: s.to_string() })
  }
  pub fn word(s: &str) -> Self {
    Lit::new(LitK::Word(s.to_string()))
  }
  pub fn int(i: i64) -> Self {
    Lit::new(LitK::Int(i.to_string()))
  }
  pub fn raw(&self) -> String {
    match &self.k {
      LitK::Str { style: 0, lead, text } => format!("'{lead}{text}'"),
      LitK::Str { style: 1, lead, text } => format!("'''{lead}{text}'''"),
      LitK::Str { lead, text, .. } => format!("\"{lead}{text}\""),
      LitK::Int(s) | LitK::Dec(s) | LitK::Hex(s) | LitK::Word(s) => s.clone(),
      LitK::Bool(b) => b.to_string(),
      LitK::Null => "null".into(),
      LitK::Expr(s) => format!("`{s}`"),
    }
  }
  /// The text of the value, as the library's conversion of a value to text gives it.
  pub fn text(&self) -> String {
    match &self.k {
      LitK::Str { text, .. } => text.clone(),
      LitK::Int(s) => s.parse::<i64>().map(|v| v.to_string()).unwrap_or_default(),
      LitK::Dec(s) => format!("{}", s.parse::<f64>().unwrap_or(0.0)),
      LitK::Bool(b) => b.to_string(),
      LitK::Null => "null".into(),
      LitK::Hex(s) | LitK::Word(s) | LitK::Expr(s) => s.clone(),
    }
  }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Attr {
  pub key: Name,
  pub val: Option<Lit>,
  pub sp: Sp,
}

impl Attr {
  pub fn new(key: &str, val: Option<Lit>) -> Self {
    Attr { key: Name { text: key.to_string(), quoted: false, sp: (0, 0) }, val, sp: (0, 0) }
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rel {
  O2O,
  O2M,
  M2O,
  M2M,
}

impl Rel {
  pub fn sym(self) -> &'static str {
    match self {
      Rel::O2O => "-",
      Rel::O2M => "<",
      Rel::M2O => ">",
      Rel::M2M => "<>",
    }
  }
  pub fn flip(self) -> Rel {
    match self {
      Rel::O2M => Rel::M2O,
      Rel::M2O => Rel::O2M,
      r => r,
    }
  }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Endpoint {
  pub schema: Option<Name>,
  pub table: Name,
  pub cols: Vec<Name>,
  pub paren: bool,
  pub sp: Sp,
}

#[derive(Clone, Debug, PartialEq)]
pub struct IRef {
  pub rel: Rel,
  pub rhs: Endpoint,
  pub sp: Sp,
}

#[derive(Clone, Debug, PartialEq)]
pub enum SetItem {
  Attr(Attr),
  Ref(IRef),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Settings {
  pub items: Vec<SetItem>,
  pub sp: Sp,
}

impl Settings {
  pub fn attrs(&self) -> impl Iterator<Item = &Attr> {
    self.items.iter().filter_map(|i| match i {
      SetItem::Attr(a) => Some(a),
      _ => None,
    })
  }
  pub fn refs(&self) -> impl Iterator<Item = &IRef> {
    self.items.iter().filter_map(|i| match i {
      SetItem::Ref(r) => Some(r),
      _ => None,
    })
  }
  pub fn has(&self, key: &str) -> bool {
    self.attrs().any(|a| a.key.text == key)
  }
  pub fn last(&self, key: &str) -> Option<&Attr> {
    self.attrs().filter(|a| a.key.text == key).last()
  }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Ty {
  pub schema: Option<Name>,
  pub quoted: bool,
  pub name: String,
  pub args: Option<Vec<Lit>>,
  pub arrays: Vec<Option<String>>,
  /// dimensions after the closing quote
  pub outer: Vec<Option<String>>,
  pub sp: Sp,
}

impl Ty {
  pub fn dims(&self) -> Vec<Option<String>> {
    self.arrays.iter().chain(self.outer.iter()).cloned().collect()
  }
  pub fn full_name(&self) -> String {
    match &self.schema {
      Some(s) => format!("{}.{}", s.text, self.name),
      None => self.name.clone(),
    }
  }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Col {
  pub name: Name,
  pub ty: Ty,
  pub settings: Option<Settings>,
  pub sp: Sp,
}

impl Col {
  pub fn has(&self, key: &str) -> bool {
    self.settings.as_ref().is_some_and(|s| s.has(key))
  }
  pub fn is_pk(&self) -> bool {
    self.has("pk") || self.has("primary key")
  }
  pub fn is_unique(&self) -> bool {
    self.has("unique")
  }
  pub fn set(&mut self) -> &mut Settings {
    self.settings.get_or_insert_with(Settings::default)
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum IdxCol {
  Col(Name),
  Expr(Lit),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct IdxDef {
  pub cols: Vec<IdxCol>,
  pub paren: bool,
  pub settings: Option<Settings>,
  pub sp: Sp,
}

impl IdxDef {
  pub fn has(&self, key: &str) -> bool {
    self.settings.as_ref().is_some_and(|s| s.has(key))
  }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct IdxBlock {
  pub defs: Vec<IdxDef>,
  /// the braces
  pub sp: Sp,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Note {
  pub lit: Lit,
  pub block: bool,
  pub sp: Sp,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TItem {
  Col(Col),
  Note(Note),
  Idx(IdxBlock),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Table {
  pub schema: Option<Name>,
  pub name: Name,
  pub ident_sp: Sp,
  pub alias: Option<Name>,
  pub settings: Option<Settings>,
  pub items: Vec<TItem>,
  pub sp: Sp,
}

impl Table {
  pub fn cols(&self) -> impl Iterator<Item = &Col> {
    self.items.iter().filter_map(|i| match i {
      TItem::Col(c) => Some(c),
      _ => None,
    })
  }
  pub fn cols_mut(&mut self) -> impl Iterator<Item = &mut Col> {
    self.items.iter_mut().filter_map(|i| match i {
      TItem::Col(c) => Some(c),
      _ => None,
    })
  }
  pub fn indexes(&self) -> Option<&IdxBlock> {
    self.items.iter().rev().find_map(|i| match i {
      TItem::Idx(b) => Some(b),
      _ => None,
    })
  }
  pub fn indexes_mut(&mut self) -> Option<&mut IdxBlock> {
    self.items.iter_mut().rev().find_map(|i| match i {
      TItem::Idx(b) => Some(b),
      _ => None,
    })
  }
  /// The index section, added when there is none.
  pub fn index_section(&mut self) -> &mut IdxBlock {
    if self.indexes().is_none() {
      self.items.push(TItem::Idx(IdxBlock::default()));
    }
    self.indexes_mut().unwrap()
  }
  pub fn note(&self) -> Option<&Note> {
    self.items.iter().rev().find_map(|i| match i {
      TItem::Note(n) => Some(n),
      _ => None,
    })
  }
  pub fn col(&self, name: &str) -> Option<&Col> {
    self.cols().find(|c| c.name.text == name)
  }
  pub fn schema_name(&self) -> &str {
    self.schema.as_ref().map(|s| s.text.as_str()).unwrap_or("public")
  }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct EVal {
  pub name: Name,
  pub settings: Option<Settings>,
  pub sp: Sp,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Enum {
  pub schema: Option<Name>,
  pub name: Name,
  pub ident_sp: Sp,
  pub values: Vec<EVal>,
  pub sp: Sp,
}

impl Enum {
  pub fn schema_name(&self) -> &str {
    self.schema.as_ref().map(|s| s.text.as_str()).unwrap_or("public")
  }
}

#[derive(Clone, Debug, PartialEq)]
pub struct RefB {
  pub name: Option<Name>,
  pub block: bool,
  pub lhs: Endpoint,
  pub rel: Rel,
  pub rhs: Endpoint,
  pub settings: Option<Settings>,
  /// the statement (endpoints and settings)
  pub sp: Sp,
  /// the whole declaration with its keyword
  pub decl_sp: Sp,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct GItem {
  pub schema: Option<Name>,
  pub name: Name,
  pub sp: Sp,
}

#[derive(Clone, Debug, PartialEq)]
pub enum GEntry {
  Item(GItem),
  Note(Note),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Group {
  pub name: Name,
  pub settings: Option<Settings>,
  pub items: Vec<GEntry>,
  pub sp: Sp,
}

impl Group {
  pub fn tables(&self) -> impl Iterator<Item = &GItem> {
    self.items.iter().filter_map(|i| match i {
      GEntry::Item(x) => Some(x),
      _ => None,
    })
  }
}

#[derive(Clone, Debug, PartialEq)]
pub struct PropM {
  pub key: Name,
  pub val: Lit,
  pub sp: Sp,
}

#[derive(Clone, Debug, PartialEq)]
pub enum PItem {
  Prop(PropM),
  Note(Note),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Project {
  pub name: Name,
  pub items: Vec<PItem>,
  pub sp: Sp,
}

impl Project {
  pub fn props(&self) -> impl Iterator<Item = &PropM> {
    self.items.iter().filter_map(|i| match i {
      PItem::Prop(p) => Some(p),
      _ => None,
    })
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Block {
  Project(Project),
  Table(Table),
  Enum(Enum),
  Ref(RefB),
  Group(Group),
  Note(Note),
}

impl Block {
  pub fn span(&self) -> Sp {
    match self {
      Block::Project(x) => x.sp,
      Block::Table(x) => x.sp,
      Block::Enum(x) => x.sp,
      Block::Ref(x) => x.decl_sp,
      Block::Group(x) => x.sp,
      Block::Note(x) => x.sp,
    }
  }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Doc {
  pub blocks: Vec<Block>,
}

impl Doc {
  pub fn tables(&self) -> impl Iterator<Item = &Table> {
    self.blocks.iter().filter_map(|b| match b {
      Block::Table(t) => Some(t),
      _ => None,
    })
  }
  pub fn tables_mut(&mut self) -> impl Iterator<Item = &mut Table> {
    self.blocks.iter_mut().filter_map(|b| match b {
      Block::Table(t) => Some(t),
      _ => None,
    })
  }
  pub fn enums(&self) -> impl Iterator<Item = &Enum> {
    self.blocks.iter().filter_map(|b| match b {
      Block::Enum(t) => Some(t),
      _ => None,
    })
  }
  pub fn enums_mut(&mut self) -> impl Iterator<Item = &mut Enum> {
    self.blocks.iter_mut().filter_map(|b| match b {
      Block::Enum(t) => Some(t),
      _ => None,
    })
  }
  pub fn refs(&self) -> impl Iterator<Item = &RefB> {
    self.blocks.iter().filter_map(|b| match b {
      Block::Ref(t) => Some(t),
      _ => None,
    })
  }
  pub fn refs_mut(&mut self) -> impl Iterator<Item = &mut RefB> {
    self.blocks.iter_mut().filter_map(|b| match b {
      Block::Ref(t) => Some(t),
      _ => None,
    })
  }
  pub fn groups(&self) -> impl Iterator<Item = &Group> {
    self.blocks.iter().filter_map(|b| match b {
      Block::Group(t) => Some(t),
      _ => None,
    })
  }
  pub fn groups_mut(&mut self) -> impl Iterator<Item = &mut Group> {
    self.blocks.iter_mut().filter_map(|b| match b {
      Block::Group(t) => Some(t),
      _ => None,
    })
  }
  pub fn projects(&self) -> impl Iterator<Item = &Project> {
    self.blocks.iter().filter_map(|b| match b {
      Block::Project(t) => Some(t),
      _ => None,
    })
  }
  pub fn projects_mut(&mut self) -> impl Iterator<Item = &mut Project> {
    self.blocks.iter_mut().filter_map(|b| match b {
      Block::Project(t) => Some(t),
      _ => None,
    })
  }
}

//! The reference semantics: every rule a well-formed document violates, with the places an error
//! for it may point at. Written from the property statements, over the model only.

use std::collections::{BTreeMap, BTreeSet};

use crate::model::*;

/// A rule: the property that states it, and how the library's message for it starts.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum K {
  DupProject,
  NoProject,
  DupProp,
  DupTable,
  DupColumn,
  DupEnum,
  DupEnumValue,
  DupGroup,
  DupGroupItem,
  DupAlias,
  DupAttr,
  SchemaNF,
  TableNF,
  ColumnNF,
  TypeMismatch,
  CountMismatch,
  NotKey,
  Conflict,
  DupPk,
  NullPk,
  ArrayPk,
  NullConflict,
  EmptyIndex,
  IndexSetting,
  DupUnique,
  DupIndex,
  ArgCount,
  ArgKind,
  Default,
  Exceeded,
  DefaultNull,
  EnumSchemaNF,
  EnumNF,
  EnumValueNF,
}

use K::*;

pub const KINDS: &[(K, &str, &str)] = &[
  (DupProject, "C11", "Duplicate project setting"),
  (NoProject, "C11", "Project setting not found"),
  (DupProp, "C11", "Duplicate property key"),
  (DupTable, "C12", "Duplicate table name"),
  (DupColumn, "C12", "Duplicate column name"),
  (DupEnum, "C12", "Duplicate enum name"),
  (DupEnumValue, "C12", "Duplicate enum value"),
  (DupGroupItem, "C12", "Duplicate table group item"),
  (DupGroup, "C12", "Duplicate table group name"),
  (DupAlias, "C12", "Duplicate alias"),
  (DupAttr, "C12", "Duplicate attribute key"),
  (SchemaNF, "C13", "Schema not found"),
  (TableNF, "C13", "Table not found"),
  (ColumnNF, "C13", "Column not found"),
  (TypeMismatch, "C14", "Mismatched foreign key type"),
  (CountMismatch, "C14", "Mismatched composite foreign key"),
  (NotKey, "C15", "Invalid foreign key"),
  (Conflict, "C16", "Conflict relation"),
  (DupPk, "C17", "Duplicate primary key"),
  (NullPk, "C17", "Nullable primary key"),
  (ArrayPk, "C17", "Array primary key"),
  (NullConflict, "C17", "Conflict nullable setting"),
  (EmptyIndex, "C18", "Empty indexes block"),
  (IndexSetting, "C18", "Invalid indexes setting"),
  (DupUnique, "C18", "Duplicate unique key"),
  (DupIndex, "C18", "Duplicate index key"),
  (ArgCount, "C19", "Invalid data type arguments"),
  (ArgKind, "C19", "Invalid argument value"),
  (Default, "C20", "Invalid default value"),
  (Exceeded, "C20", "Data type exceeded"),
  (DefaultNull, "C20", "Default null in non-nullable"),
  (EnumSchemaNF, "C20", "Schema not found"),
  (EnumNF, "C20", "Enum not found"),
  (EnumValueNF, "C20", "Enum value not found"),
];

impl K {
  pub fn family(self) -> &'static str {
    KINDS.iter().find(|k| k.0 == self).unwrap().1
  }
  pub fn prefix(self) -> &'static str {
    KINDS.iter().find(|k| k.0 == self).unwrap().2
  }
}

#[derive(Clone, Debug)]
pub struct Viol {
  pub k: K,
  /// where an error may point: within one of these
  pub at: Vec<Sp>,
  /// but not at one of these alone: they are as they should be
  pub off: Vec<Sp>,
  /// texts the error must mention, and ranges whose text it must mention
  pub mention: Vec<String>,
  pub mention_at: Vec<Sp>,
}

#[derive(Clone, Debug, std::default::Default)]
pub struct Sem {
  pub viols: Vec<Viol>,
  /// names are declared twice, so which of the further rules are violated is not defined
  pub wild: bool,
  /// the statements do not say what the verdict is
  pub unspec: Vec<&'static str>,
}

impl Sem {
  fn add(&mut self, k: K, at: Sp) {
    self.viols.push(Viol { k, at: vec![at], off: vec![], mention: vec![], mention_at: vec![] });
  }
  fn add2(&mut self, k: K, at: Vec<Sp>) {
    self.viols.push(Viol { k, at, off: vec![], mention: vec![], mention_at: vec![] });
  }
  fn add_off(&mut self, k: K, at: Sp, off: Vec<Sp>) {
    self.viols.push(Viol { k, at: vec![at], off, mention: vec![], mention_at: vec![] });
  }
  pub fn valid(&self) -> bool {
    self.viols.is_empty()
  }
  pub fn has(&self, k: K) -> bool {
    self.viols.iter().any(|v| v.k == k)
  }
  pub fn families(&self) -> BTreeSet<&'static str> {
    self.viols.iter().map(|v| v.k.family()).collect()
  }
}

/// Built-in types: each line lists the spellings of one type.
pub const BUILTIN: &[&[&str]] = &[
  &["bit"],
  &["varbit", "bit varying"],
  &["char", "character"],
  &["varchar", "character varying"],
  &["box"],
  &["cidr"],
  &["circle"],
  &["inet"],
  &["line"],
  &["lseg"],
  &["macaddr"],
  &["macaddr8"],
  &["money"],
  &["path"],
  &["pg_lsn"],
  &["pg_snapshot"],
  &["point"],
  &["polygon"],
  &["tsquery"],
  &["tsvector"],
  &["smallserial", "serial2"],
  &["serial", "serial4"],
  &["bigserial", "serial8"],
  &["smallint", "int2"],
  &["integer", "int", "int4"],
  &["bigint", "int8"],
  &["real", "float4"],
  &["double precision", "float8"],
  &["bool", "boolean"],
  &["bytea"],
  &["date"],
  &["text"],
  &["time", "time without time zone"],
  &["timetz", "time with time zone"],
  &["timestamp", "timestamp without time zone"],
  &["timestamptz", "timestamp with time zone"],
  &["uuid"],
  &["json"],
  &["jsonb"],
  &["decimal", "numeric"],
  &["xml"],
];

/// The first spelling of a built-in type.
pub fn builtin(name: &str) -> Option<&'static str> {
  BUILTIN.iter().find(|l| l.contains(&name)).map(|l| l[0])
}

pub const ONE_ARG: &[&str] = &["varchar", "char", "time", "timestamp", "timetz", "timestamptz", "bit", "varbit"];
pub const TWO_ARGS: &[&str] = &["decimal"];

pub fn arg_count(b: &str) -> usize {
  if ONE_ARG.contains(&b) {
    1
  } else if TWO_ARGS.contains(&b) {
    2
  } else {
    0
  }
}

type Q = (String, String);

#[derive(Clone, Debug, PartialEq)]
enum TyId {
  Built(&'static str),
  Named(Q),
}

fn schema_of(s: &Option<Name>) -> String {
  s.as_ref().map(|n| n.text.clone()).unwrap_or_else(|| "public".into())
}

fn ty_id(t: &Ty) -> TyId {
  match (&t.schema, builtin(&t.name)) {
    (None, Some(b)) => TyId::Built(b),
    _ => TyId::Named((schema_of(&t.schema), t.name.clone())),
  }
}

fn lit_key(l: &Lit) -> (u8, String) {
  let tag = match l.k {
    LitK::Str { .. } => 0,
    LitK::Int(_) => 1,
    LitK::Dec(_) => 2,
    LitK::Bool(_) => 3,
    LitK::Null => 4,
    LitK::Hex(_) => 5,
    LitK::Expr(_) => 6,
    LitK::Word(_) => 7,
  };
  (tag, l.text())
}

type TyKey = (TyId, Vec<(u8, String)>, Vec<Option<u64>>);

fn ty_key(t: &Ty) -> TyKey {
  let args = t.args.as_ref().map(|a| a.iter().map(lit_key).collect()).unwrap_or_default();
  let dims = t.dims().iter().map(|d| d.as_ref().and_then(|d| d.parse::<u64>().ok())).collect();
  (ty_id(t), args, dims)
}

pub fn same_type(a: &Ty, b: &Ty) -> bool {
  ty_key(a) == ty_key(b)
}

/// A relationship in one form, wherever it was written.
pub struct RelX<'a> {
  pub lhs: Endpoint,
  pub rel: Rel,
  pub rhs: &'a Endpoint,
  pub inline: Option<(usize, usize)>,
  pub at: Sp,
  pub settings: Option<&'a Settings>,
}

/// All relationships: separate declarations first, then the inline ones, each in source order.
pub fn relations(d: &Doc) -> Vec<RelX<'_>> {
  let mut v: Vec<RelX> = d
    .refs()
    .map(|r| RelX { lhs: r.lhs.clone(), rel: r.rel, rhs: &r.rhs, inline: None, at: r.decl_sp, settings: r.settings.as_ref() })
    .collect();
  for (ti, t) in d.tables().enumerate() {
    for (ci, c) in t.cols().enumerate() {
      for r in c.settings.iter().flat_map(|s| s.refs()) {
        let lhs = Endpoint { schema: Some(Name::new(t.schema_name())), table: t.name.clone(), cols: vec![c.name.clone()], paren: false, sp: r.sp };
        v.push(RelX { lhs, rel: r.rel, rhs: &r.rhs, inline: Some((ti, ci)), at: r.sp, settings: None });
      }
    }
  }
  v
}

/// What names denote.
pub struct Env<'a> {
  pub tables: BTreeMap<Q, &'a Table>,
  pub enums: BTreeMap<Q, &'a Enum>,
  pub aliases: BTreeMap<String, Q>,
}

impl<'a> Env<'a> {
  pub fn new(d: &'a Doc) -> Self {
    let mut e = Env { tables: BTreeMap::new(), enums: BTreeMap::new(), aliases: BTreeMap::new() };
    for t in d.tables() {
      let q = (schema_of(&t.schema), t.name.text.clone());
      e.tables.entry(q.clone()).or_insert(t);
      if let Some(a) = &t.alias {
        e.aliases.entry(a.text.clone()).or_insert(q);
      }
    }
    for x in d.enums() {
      e.enums.entry((schema_of(&x.schema), x.name.text.clone())).or_insert(x);
    }
    e
  }
  pub fn schema_exists(&self, s: &str) -> bool {
    self.tables.keys().chain(self.enums.keys()).any(|q| q.0 == s)
  }
  /// The table a spelling denotes (which may not exist).
  pub fn resolve(&self, schema: &Option<Name>, name: &str) -> Q {
    match schema {
      Some(s) => (s.text.clone(), name.to_string()),
      None => self.aliases.get(name).cloned().unwrap_or(("public".into(), name.to_string())),
    }
  }
  /// An unqualified name that is the alias of one table and the name of another.
  pub fn ambiguous(&self, name: &str) -> bool {
    self.aliases.get(name).is_some_and(|q| *q != ("public".to_string(), name.to_string())) && self.tables.contains_key(&("public".to_string(), name.to_string()))
  }
}

fn names(v: &[Name]) -> BTreeSet<&str> {
  v.iter().map(|n| n.text.as_str()).collect()
}

fn def_cols(d: &IdxDef) -> Option<BTreeSet<&str>> {
  let mut s = BTreeSet::new();
  for c in &d.cols {
    match c {
      IdxCol::Col(n) => s.insert(n.text.as_str()),
      IdxCol::Expr(_) => return None,
    };
  }
  Some(s)
}

fn is_key(t: &Table, cols: &[Name]) -> bool {
  let set = names(cols);
  if cols.len() == 1 && t.col(&cols[0].text).is_some_and(|c| c.is_pk() || c.is_unique()) {
    return true;
  }
  t.indexes().is_some_and(|ib| ib.defs.iter().any(|d| (d.has("pk") || d.has("unique")) && def_cols(d).is_some_and(|s| s == set)))
}

fn dup_attrs(s: &mut Sem, st: &Option<Settings>) {
  let Some(st) = st else { return };
  let mut seen = BTreeSet::new();
  for a in st.attrs() {
    if !seen.insert(&a.key.text) {
      s.add(DupAttr, a.sp);
    }
  }
}


fn idx_key(c: &IdxCol) -> (bool, String) {
  match c {
    IdxCol::Col(n) => (true, n.text.clone()),
    IdxCol::Expr(l) => (false, l.text()),
  }
}

fn table_rules(s: &mut Sem, t: &Table, env: &Env) {
  dup_attrs(s, &t.settings);
  let mut seen = BTreeSet::new();
  let mut pk = false;
  let mut uniques: Vec<BTreeSet<(bool, String)>> = vec![];
  for c in t.cols() {
    if !seen.insert(&c.name.text) {
      s.add(DupColumn, c.sp);
      s.wild = true;
    }
    dup_attrs(s, &c.settings);
    if c.has("pk") && c.has("primary key") {
      s.unspec.push("pk and primary key on one column");
    }
    if c.is_pk() {
      if pk {
        s.add(DupPk, c.sp);
      }
      pk = true;
      if c.has("null") {
        s.add(NullPk, c.sp);
      }
      if !c.ty.dims().is_empty() {
        s.add(ArrayPk, c.sp);
      }
    }
    if c.is_unique() {
      uniques.push(BTreeSet::from([(true, c.name.text.clone())]));
    }
    if c.has("null") && c.has("not null") {
      s.add(NullConflict, c.settings.as_ref().unwrap().sp);
    }
    type_rules(s, c, env);
  }
  if t.items.iter().filter(|i| matches!(i, TItem::Idx(_))).count() > 1 {
    s.unspec.push("several index sections");
  }
  let Some(ib) = t.indexes() else { return };
  let mut plain: Vec<Vec<(bool, String)>> = vec![];
  let mut typed: Vec<(Vec<(bool, String)>, String)> = vec![];
  for d in &ib.defs {
    if d.cols.is_empty() {
      s.add2(EmptyIndex, vec![ib.sp]);
    }
    for c in &d.cols {
      if let IdxCol::Col(n) = c {
        if t.col(&n.text).is_none() {
          let there = d.cols.iter().filter_map(|x| if let IdxCol::Col(n) = x { t.col(&n.text).map(|_| n.sp) } else { None }).collect();
          s.add_off(ColumnNF, d.sp, there);
        }
      }
    }
    let list: Vec<_> = d.cols.iter().map(idx_key).collect();
    let set: BTreeSet<_> = list.iter().cloned().collect();
    if set.len() != list.len() {
      s.unspec.push("a column twice in one index");
    }
    dup_attrs(s, &d.settings);
    let Some(st) = &d.settings else {
      if plain.contains(&list) && !list.is_empty() {
        s.add(DupIndex, d.sp);
      }
      plain.push(list);
      continue;
    };
    if st.items.is_empty() {
      s.unspec.push("empty settings on an index");
    }
    if d.has("primary key") {
      s.unspec.push("primary key as an index setting");
    }
    let ty = st.last("type");
    if ty.is_some_and(|a| a.val.is_none()) {
      s.unspec.push("index type without a value");
    }
    if [d.has("pk"), d.has("unique"), ty.is_some()].iter().filter(|x| **x).count() > 1 {
      s.add(IndexSetting, st.sp);
    }
    if list.is_empty() {
      continue;
    }
    if d.has("pk") {
      if pk {
        s.add(DupPk, d.sp);
      }
      pk = true;
    }
    if d.has("unique") {
      if uniques.contains(&set) {
        s.add(DupUnique, d.sp);
      }
      uniques.push(set);
    }
    if let Some(a) = ty {
      let k = (list, a.val.as_ref().map(|l| l.text()).unwrap_or_default());
      if typed.contains(&k) {
        s.add(DupIndex, d.sp);
      }
      typed.push(k);
    }
  }
}

fn type_rules(s: &mut Sem, c: &Col, env: &Env) {
  let id = ty_id(&c.ty);
  let args = c.ty.args.clone().unwrap_or_default();
  if let TyId::Built(b) = id {
    if !args.is_empty() {
      if args.len() != arg_count(b) {
        s.viols.push(Viol { k: ArgCount, at: vec![c.ty.sp], off: vec![], mention: vec![arg_count(b).to_string()], mention_at: vec![] });
      }
      if arg_count(b) > 0 && args.iter().any(|a| !matches!(a.k, LitK::Int(_))) {
        s.add(ArgKind, c.ty.sp);
      }
    }
  } else if c.ty.schema.is_some() && builtin(&c.ty.name).is_some() {
    s.unspec.push("built-in type name with a schema");
  }
  let Some(def) = c.settings.as_ref().and_then(|x| x.last("default")) else { return };
  let Some(v) = &def.val else { return };
  if c.settings.as_ref().unwrap().attrs().filter(|a| a.key.text == "default").count() > 1 {
    // repeated key, reported as such; which default counts is not defined
    s.wild = true;
    return;
  }
  let before = s.viols.len();
  match (&id, &v.k) {
    (_, LitK::Null) => {
      if !c.has("null") {
        s.add2(DefaultNull, vec![def.sp]);
      } else if c.has("not null") {
        // contradictory settings are reported as such; whether the null default fits is not defined
        s.viols.push(Viol { k: DefaultNull, at: vec![def.sp], off: vec![], mention: vec![], mention_at: vec![] });
      }
    }
    (TyId::Named(q), k) => {
      if !env.schema_exists(&q.0) {
        s.add2(EnumSchemaNF, vec![c.ty.sp, def.sp]);
      } else {
        match env.enums.get(q) {
          None => s.add2(EnumNF, vec![c.ty.sp, def.sp]),
          Some(e) => {
            if !e.values.iter().any(|x| x.name.text == v.text()) {
              s.add2(EnumValueNF, vec![def.sp]);
            }
            if !matches!(k, LitK::Word(_) | LitK::Str { .. } | LitK::Int(_)) {
              s.unspec.push("default of another kind on an enum column");
            }
          }
        }
      }
      if matches!(k, LitK::Bool(_)) {
        s.unspec.push("default of another kind on an enum column");
      }
    }
    (TyId::Built(b), LitK::Str { .. }) => {
      if let Some(Lit { k: LitK::Int(n), .. }) = args.first() {
        let n: i128 = n.parse().unwrap_or(0);
        let len = v.text().chars().count() as i128;
        let bad = match *b {
          "char" | "bit" => len != n,
          "varchar" | "varbit" => len > n,
          _ => false,
        };
        if bad {
          s.add2(Default, vec![def.sp]);
        }
      }
    }
    (TyId::Built(b), LitK::Int(n)) => {
      let n: i128 = n.parse().unwrap_or(0);
      let max: i128 = match *b {
        "smallint" => 32767,
        "integer" => 2147483647,
        _ => i128::MAX,
      };
      if n > max {
        s.add2(Exceeded, vec![def.sp]);
      }
    }
    (TyId::Built(b), LitK::Bool(_)) => {
      if *b != "bool" {
        s.add2(Default, vec![def.sp]);
      }
    }
    _ => {}
  }
  if s.viols.len() > before && !c.ty.dims().is_empty() {
    s.unspec.push("default on an array column");
  }
}

pub fn analyze(d: &Doc) -> Sem {
  let mut s = Sem::default();
  let env = Env::new(d);
  let whole = (0, usize::MAX);

  let projects: Vec<_> = d.projects().collect();
  match projects.len() {
    0 => s.add(NoProject, whole),
    1 => {}
    _ => s.add(DupProject, whole),
  }
  for p in &projects {
    let mut seen = BTreeSet::new();
    for x in p.props() {
      if !seen.insert(&x.key.text) {
        s.add(DupProp, x.sp);
      }
    }
  }

  let mut seen = BTreeSet::new();
  let mut aliases = BTreeSet::new();
  for t in d.tables() {
    if !seen.insert((schema_of(&t.schema), t.name.text.clone())) {
      s.add(DupTable, t.sp);
      s.wild = true;
    }
    if let Some(a) = &t.alias {
      if !aliases.insert(a.text.clone()) {
        s.add(DupAlias, t.sp);
        s.wild = true;
      }
    }
    table_rules(&mut s, t, &env);
  }
  let mut seen = BTreeSet::new();
  for e in d.enums() {
    if !seen.insert((schema_of(&e.schema), e.name.text.clone())) {
      s.add(DupEnum, e.sp);
      s.wild = true;
    }
    let mut vals = BTreeSet::new();
    for v in &e.values {
      if !vals.insert(&v.name.text) {
        s.add(DupEnumValue, v.sp);
      }
      dup_attrs(&mut s, &v.settings);
    }
  }
  let mut seen = BTreeSet::new();
  for g in d.groups() {
    if !seen.insert(&g.name.text) {
      s.add(DupGroup, g.sp);
    }
    dup_attrs(&mut s, &g.settings);
    let mut items = BTreeSet::new();
    for i in g.tables() {
      if i.schema.is_none() && env.ambiguous(&i.name.text) {
        s.unspec.push("an alias that is another table's name");
      }
      let q = env.resolve(&i.schema, &i.name.text);
      if !env.tables.contains_key(&q) {
        s.add(TableNF, i.sp);
      }
      if !items.insert(q) {
        s.add(DupGroupItem, i.sp);
      }
    }
  }

  let rels = relations(d);
  let mut done: Vec<(Rel, (Q, BTreeSet<String>), (Q, BTreeSet<String>), Sp)> = vec![];
  for r in &rels {
    if let Some(st) = r.settings {
      dup_attrs(&mut s, &Some(st.clone()));
    }
    let mut found = vec![];
    let n = r.lhs.cols.len();
    if n != r.rhs.cols.len() {
      s.add(CountMismatch, r.at);
    }
    for e in [&r.lhs, r.rhs] {
      if names(&e.cols).len() != e.cols.len() {
        s.unspec.push("a column twice in one endpoint");
      }
      if e.schema.is_none() && env.ambiguous(&e.table.text) {
        s.unspec.push("an alias that is another table's name");
      }
      let q = env.resolve(&e.schema, &e.table.text);
      match env.tables.get(&q) {
        None => {
          let k = if env.schema_exists(&q.0) { TableNF } else { SchemaNF };
          s.add(k, e.sp);
        }
        Some(t) => {
          let missing = e.cols.iter().any(|c| t.col(&c.text).is_none());
          if missing {
            let there = e.cols.iter().filter(|c| t.col(&c.text).is_some()).map(|c| c.sp).collect();
            s.add_off(ColumnNF, e.sp, there);
          } else {
            found.push(*t);
          }
        }
      }
    }
    if found.len() == 2 && n == r.rhs.cols.len() {
      for (a, b) in r.lhs.cols.iter().zip(&r.rhs.cols) {
        let (ca, cb) = (found[0].col(&a.text).unwrap(), found[1].col(&b.text).unwrap());
        if !same_type(&ca.ty, &cb.ty) {
          s.viols.push(Viol { k: TypeMismatch, at: vec![r.at], off: vec![], mention: vec![a.text.clone(), b.text.clone()], mention_at: vec![ca.ty.sp, cb.ty.sp] });
        }
      }
      let (kl, kr) = (is_key(found[0], &r.lhs.cols), is_key(found[1], &r.rhs.cols));
      let ok = match r.rel {
        Rel::O2O => kl || kr,
        Rel::O2M => kl,
        Rel::M2O => kr,
        Rel::M2M => kl && kr,
      };
      if !ok {
        let sides = match r.rel {
          Rel::O2O => "one-to-one",
          Rel::M2M => "many-to-many",
          _ => "referenced",
        };
        let mut mention = vec![sides.to_string()];
        if n > 1 {
          mention.push("composite".into());
        }
        // the side that need not be a key is not at fault
        let off = match r.rel {
          Rel::M2O if r.inline.is_none() => vec![r.lhs.sp],
          Rel::O2M => vec![r.rhs.sp],
          _ => vec![],
        };
        s.viols.push(Viol { k: NotKey, at: vec![r.at], off, mention, mention_at: vec![] });
      }
    }

    let side = |e: &Endpoint| (env.resolve(&e.schema, &e.table.text), e.cols.iter().map(|c| c.text.clone()).collect::<BTreeSet<_>>());
    let (l, rr) = (side(&r.lhs), side(r.rhs));
    // normalise: one-to-many is turned around; symmetric kinds are ordered
    let (rel, a, b) = match r.rel {
      Rel::O2M => (Rel::M2O, rr, l),
      Rel::M2O => (Rel::M2O, l, rr),
      k if rr < l => (k, rr, l),
      k => (k, l, rr),
    };
    for o in &done {
      if o.0 == rel && o.1 == a && (rel == Rel::M2O || o.2 == b) {
        s.add2(Conflict, vec![r.at, o.3]);
      }
    }
    done.push((rel, a, b, r.at));
  }

  s
}

/// The kind of a message of the library; `in_type` says whether it points into a column type.
pub fn kind_of(msg: &str, in_type: bool) -> Option<K> {
  let mut found: Vec<K> = KINDS.iter().filter(|k| msg.starts_with(k.2)).map(|k| k.0).collect();
  if found.len() > 1 {
    found.retain(|k| match k {
      SchemaNF => !in_type,
      EnumSchemaNF => in_type,
      _ => true,
    });
  }
  found.first().copied()
}

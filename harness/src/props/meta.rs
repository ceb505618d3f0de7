//! C22 and C23: rewriting and reordering a document does not change the verdict. The relation is
//! between two answers of the library; the reference semantics only selects which documents the
//! statements speak about.

use std::collections::BTreeMap;

use crate::engine::{fail, Ctx, Prop, Res};
use crate::gensem::{self, respell};
use crate::model::*;
use crate::sem;
use crate::tape::Src;
use crate::writer::{self, Style};

use super::semantic::{focused_doc, Verdict};
use super::syntax::self_check;

type Q = (String, String);

/// What unqualified names denote, taken from the declarations alone.
struct Names {
  aliases: BTreeMap<String, Q>,
}

fn q_of(t: &Table) -> Q {
  (t.schema_name().to_string(), t.name.text.clone())
}

impl Names {
  fn new(d: &Doc) -> Self {
    let mut aliases = BTreeMap::new();
    for t in d.tables() {
      if let Some(a) = &t.alias {
        aliases.entry(a.text.clone()).or_insert(q_of(t));
      }
    }
    Names { aliases }
  }
  fn denotes(&self, schema: &Option<Name>, name: &str) -> Q {
    match schema {
      Some(s) => (s.text.clone(), name.to_string()),
      None => self.aliases.get(name).cloned().unwrap_or(("public".into(), name.into())),
    }
  }
  /// Another spelling of the same table.
  fn other(&self, s: &mut Src, schema: &Option<Name>, name: &Name) -> (Option<Name>, Name) {
    let q = self.denotes(schema, &name.text);
    let mut opts: Vec<(Option<&str>, &str)> = vec![(Some(&q.0), &q.1)];
    if q.0 == "public" && self.aliases.get(&q.1).is_none_or(|x| *x == q) {
      opts.push((None, &q.1));
    }
    for (a, x) in &self.aliases {
      if *x == q {
        opts.push((None, a));
      }
    }
    let (sc, nm) = opts[s.idx(opts.len())];
    (sc.map(|x| respell(s, &Name::new(x))), respell(s, &Name::new(nm)))
  }
}

fn add_drop_default(s: &mut Src, sc: &mut Option<Name>) -> bool {
  let public = sc.as_ref().is_some_and(|n| n.text == "public");
  if (sc.is_none() || public) && s.chance(1, 2) {
    *sc = if public { None } else { Some(Name::new("public")) };
    return true;
  }
  false
}

/// Gives a few things the names of other things of the document.
pub fn entangle(s: &mut Src, d: &mut Doc) {
  let mut pool = vec![];
  each_name(d, &mut |n| pool.push(n.text.clone()));
  if pool.is_empty() {
    return;
  }
  let times = s.range(1, 4);
  for _ in 0..times {
    let to = Name::new(&s.pick(&pool).clone());
    let n = d.tables().count();
    if n > 0 && s.chance(1, 3) {
      // an alias that is a table's name, or a table's alias
      let of = s.idx(n);
      let to = match d.tables().nth(of).unwrap() {
        Table { alias: Some(a), .. } if s.chance(1, 3) => a.clone(),
        t => t.name.clone(),
      };
      let i = s.idx(n);
      d.tables_mut().nth(i).unwrap().alias = Some(to);
      continue;
    }
    let at = s.idx(pool.len());
    let mut i = 0;
    each_name(d, &mut |n| {
      if i == at {
        *n = to.clone();
      }
      i += 1;
    });
  }
}

fn each_name(d: &mut Doc, f: &mut dyn FnMut(&mut Name)) {
  let opt = |n: &mut Option<Name>, f: &mut dyn FnMut(&mut Name)| {
    if let Some(n) = n {
      f(n)
    }
  };
  fn endpoint(e: &mut Endpoint, f: &mut dyn FnMut(&mut Name)) {
    if let Some(s) = &mut e.schema {
      f(s)
    }
    f(&mut e.table);
    e.cols.iter_mut().for_each(f);
  }
  for b in &mut d.blocks {
    match b {
      Block::Project(p) => f(&mut p.name),
      Block::Table(t) => {
        opt(&mut t.schema, f);
        f(&mut t.name);
        opt(&mut t.alias, f);
        for it in &mut t.items {
          match it {
            TItem::Col(c) => {
              f(&mut c.name);
              opt(&mut c.ty.schema, f);
              for i in c.settings.iter_mut().flat_map(|s| s.items.iter_mut()) {
                if let SetItem::Ref(r) = i {
                  endpoint(&mut r.rhs, f);
                }
              }
            }
            TItem::Idx(ib) => {
              for d in &mut ib.defs {
                for c in &mut d.cols {
                  if let IdxCol::Col(n) = c {
                    f(n)
                  }
                }
              }
            }
            TItem::Note(_) => (),
          }
        }
      }
      Block::Enum(e) => {
        opt(&mut e.schema, f);
        f(&mut e.name);
        e.values.iter_mut().for_each(|v| f(&mut v.name));
      }
      Block::Ref(r) => {
        opt(&mut r.name, f);
        endpoint(&mut r.lhs, f);
        endpoint(&mut r.rhs, f);
      }
      Block::Group(g) => {
        f(&mut g.name);
        for i in &mut g.items {
          if let GEntry::Item(i) = i {
            opt(&mut i.schema, f);
            f(&mut i.name);
          }
        }
      }
      Block::Note(_) => (),
    }
  }
}

fn each_endpoint(d: &mut Doc, f: &mut dyn FnMut(&mut Endpoint)) {
  for b in &mut d.blocks {
    match b {
      Block::Ref(r) => {
        f(&mut r.lhs);
        f(&mut r.rhs);
      }
      Block::Table(t) => {
        for c in t.cols_mut() {
          for i in c.settings.iter_mut().flat_map(|s| s.items.iter_mut()) {
            if let SetItem::Ref(r) = i {
              f(&mut r.rhs);
            }
          }
        }
      }
      _ => (),
    }
  }
}

fn each_item(d: &mut Doc, f: &mut dyn FnMut(&mut GItem)) {
  for g in d.groups_mut() {
    for i in &mut g.items {
      if let GEntry::Item(i) = i {
        f(i);
      }
    }
  }
}

fn add(n: &mut Name, suffix: &str) {
  n.text.push_str(suffix);
  n.quoted |= !is_var(&n.text);
}

/// Rewrites all names of one namespace consistently.
fn rename(s: &mut Src, d: &mut Doc) -> Option<&'static str> {
  let suffix = if s.chance(1, 12) { gensem::long_text(s) } else { s.pick(&["_r", "2", "X", " r", "\u{e9}", ".r", "s"]).to_string() };
  let what = s.below(6);
  rename_with(d, what, &suffix)
}

/// Rewrites all names of the given namespace consistently.
pub fn rename_with(d: &mut Doc, what: u64, suffix: &str) -> Option<&'static str> {
  Some(match what {
    0 => {
      each_endpoint(d, &mut |e| add(&mut e.table, suffix));
      each_item(d, &mut |i| add(&mut i.name, suffix));
      for t in d.tables_mut() {
        add(&mut t.name, suffix);
        if let Some(a) = &mut t.alias {
          add(a, suffix);
        }
      }
      "tables and aliases renamed"
    }
    1 => {
      each_endpoint(d, &mut |e| e.cols.iter_mut().for_each(|c| add(c, suffix)));
      for t in d.tables_mut() {
        for it in &mut t.items {
          match it {
            TItem::Col(c) => add(&mut c.name, suffix),
            TItem::Idx(ib) => {
              for c in ib.defs.iter_mut().flat_map(|d| d.cols.iter_mut()) {
                if let IdxCol::Col(n) = c {
                  add(n, suffix);
                }
              }
            }
            TItem::Note(_) => (),
          }
        }
      }
      "columns renamed"
    }
    2 => {
      let f = &mut |n: &mut Option<Name>| {
        if let Some(n) = n {
          if n.text != "public" {
            add(n, suffix);
          }
        }
      };
      each_endpoint(d, &mut |e| f(&mut e.schema));
      each_item(d, &mut |i| f(&mut i.schema));
      for b in &mut d.blocks {
        match b {
          Block::Table(t) => {
            f(&mut t.schema);
            t.cols_mut().for_each(|c| f(&mut c.ty.schema));
          }
          Block::Enum(e) => f(&mut e.schema),
          _ => (),
        }
      }
      "schemas renamed"
    }
    3 => {
      for e in d.enums_mut() {
        if !is_var(&e.name.text) {
          return None;
        }
        add(&mut e.name, "_e");
      }
      for t in d.tables_mut() {
        for c in t.cols_mut() {
          if c.ty.schema.is_some() || sem::builtin(&c.ty.name).is_none() {
            c.ty.name.push_str("_e");
          }
        }
      }
      "enums renamed"
    }
    4 => {
      for g in d.groups_mut() {
        add(&mut g.name, suffix);
      }
      "groups renamed"
    }
    _ => {
      for t in d.tables_mut() {
        for c in t.cols_mut() {
          let named = c.ty.schema.is_some() || sem::builtin(&c.ty.name).is_none();
          for i in c.settings.iter_mut().flat_map(|s| s.items.iter_mut()) {
            if let SetItem::Attr(Attr { key, val: Some(v), .. }) = i {
              if key.text == "default" && named {
                match &mut v.k {
                  LitK::Word(w) => w.push_str("_v"),
                  LitK::Str { text, .. } => text.push_str("_v"),
                  LitK::Null | LitK::Bool(_) => (),
                  _ => return None,
                }
              }
            }
          }
        }
      }
      for e in d.enums_mut() {
        e.values.iter_mut().for_each(|v| add(&mut v.name, "_v"));
      }
      "enum values renamed"
    }
  })
}

/// Moves an inline relationship out of its column.
fn inline_out(s: &mut Src, d: &mut Doc) -> bool {
  let names = Names::new(d);
  let mut places = vec![];
  for (ti, t) in d.tables().enumerate() {
    for (ci, c) in t.cols().enumerate() {
      for (ii, i) in c.settings.iter().flat_map(|s| s.items.iter().enumerate()) {
        if matches!(i, SetItem::Ref(_)) {
          places.push((ti, ci, ii));
        }
      }
    }
  }
  if places.is_empty() {
    return false;
  }
  let (ti, ci, ii) = places[s.idx(places.len())];
  let t = d.tables_mut().nth(ti).unwrap();
  let (schema, name) = (t.schema_name().to_string(), t.name.clone());
  let c = t.cols_mut().nth(ci).unwrap();
  let col = respell(s, &c.name);
  let st = c.settings.as_mut().unwrap();
  let SetItem::Ref(r) = st.items.remove(ii) else { return false };
  if st.items.is_empty() && s.chance(1, 2) {
    c.settings = None;
  }
  let (schema, table) = names.other(s, &Some(Name::new(&schema)), &name);
  let lhs = Endpoint { schema, table, paren: s.chance(1, 6), cols: vec![col], sp: (0, 0) };
  let b = RefB { name: None, block: s.chance(1, 2), lhs, rel: r.rel, rhs: r.rhs, settings: None, sp: (0, 0), decl_sp: (0, 0) };
  let at = s.range(0, d.blocks.len());
  d.blocks.insert(at, Block::Ref(b));
  true
}

/// Moves a separate relationship into a column.
fn inline_in(s: &mut Src, d: &mut Doc) -> bool {
  let names = Names::new(d);
  let mut places = vec![];
  for (bi, b) in d.blocks.iter().enumerate() {
    if let Block::Ref(r) = b {
      if r.settings.as_ref().is_some_and(|s| {
        let keys: Vec<_> = s.attrs().map(|a| &a.key.text).collect();
        (1..keys.len()).any(|i| keys[..i].contains(&keys[i]))
      }) {
        continue;
      }
      for (e, left) in [(&r.lhs, true), (&r.rhs, false)] {
        let q = names.denotes(&e.schema, &e.table.text);
        if e.cols.len() == 1 && d.tables().filter(|t| q_of(t) == q).count() == 1 {
          let ti = d.tables().position(|t| q_of(t) == q).unwrap();
          if d.tables().nth(ti).unwrap().cols().filter(|c| c.name.text == e.cols[0].text).count() == 1 {
            places.push((bi, left, ti));
          }
        }
      }
    }
  }
  if places.is_empty() {
    return false;
  }
  let (bi, left, ti) = places[s.idx(places.len())];
  let Block::Ref(r) = d.blocks.remove(bi) else { return false };
  let (own, rel, rhs) = if left { (r.lhs, r.rel, r.rhs) } else { (r.rhs, r.rel.flip(), r.lhs) };
  let t = d.tables_mut().nth(ti).unwrap();
  let c = t.cols_mut().find(|c| c.name.text == own.cols[0].text).unwrap();
  let st = c.set();
  let at = s.range(0, st.items.len());
  st.items.insert(at, SetItem::Ref(IRef { rel, rhs, sp: (0, 0) }));
  true
}

fn rewrite(s: &mut Src, d: &mut Doc) -> Option<&'static str> {
  match s.below(9) {
    0 | 1 => {
      let names = Names::new(d);
      let mut n = 0;
      each_endpoint(d, &mut |e| {
        if s.chance(3, 4) {
          (e.schema, e.table) = names.other(s, &e.schema, &e.table);
          n += 1;
        }
      });
      (n > 0).then_some("endpoints respelled")
    }
    2 => {
      let names = Names::new(d);
      let mut n = 0;
      each_item(d, &mut |i| {
        if s.chance(3, 4) {
          (i.schema, i.name) = names.other(s, &i.schema, &i.name);
          n += 1;
        }
      });
      (n > 0).then_some("group items respelled")
    }
    3 => {
      let mut n = 0;
      for b in &mut d.blocks {
        match b {
          Block::Table(t) => {
            n += add_drop_default(s, &mut t.schema) as usize;
            for c in t.cols_mut() {
              if sem::builtin(&c.ty.name).is_none() {
                n += add_drop_default(s, &mut c.ty.schema) as usize;
              }
            }
          }
          Block::Enum(e) => n += add_drop_default(s, &mut e.schema) as usize,
          _ => (),
        }
      }
      (n > 0).then_some("default schema added or dropped")
    }
    4 => {
      let mut n = 0;
      each_name(d, &mut |x| {
        if is_var(&x.text) && s.chance(1, 2) {
          x.quoted = !x.quoted;
          n += 1;
        }
      });
      for t in d.tables_mut() {
        for c in t.cols_mut() {
          if s.chance(1, 3) {
            if !c.ty.quoted {
              c.ty.quoted = true;
              n += 1;
            } else if is_var(&c.ty.name) {
              c.ty.quoted = false;
              let outer = std::mem::take(&mut c.ty.outer);
              c.ty.arrays.extend(outer);
              n += 1;
            }
          }
        }
      }
      (n > 0).then_some("quoted or unquoted")
    }
    5 => inline_out(s, d).then_some("inline relationship moved out"),
    6 => inline_in(s, d).then_some("relationship moved into a column"),
    7 => {
      let mut n = 0;
      for r in d.refs_mut() {
        if s.chance(2, 3) {
          std::mem::swap(&mut r.lhs, &mut r.rhs);
          r.rel = r.rel.flip();
          n += 1;
        }
      }
      (n > 0).then_some("relationship turned around")
    }
    _ => rename(s, d),
  }
}

fn reorder(s: &mut Src, d: &mut Doc) -> Option<&'static str> {
  let many = |s: &mut Src, v: &mut Vec<SetItem>| {
    s.shuffle(v);
    v.len() > 1
  };
  match s.below(6) {
    0 | 1 => {
      s.shuffle(&mut d.blocks);
      (d.blocks.len() > 1).then_some("blocks reordered")
    }
    2 => {
      let mut n = false;
      for t in d.tables_mut() {
        s.shuffle(&mut t.items);
        n |= t.items.len() > 1;
      }
      n.then_some("columns reordered")
    }
    3 => {
      let mut n = false;
      for t in d.tables_mut() {
        if let Some(ib) = t.indexes_mut() {
          s.shuffle(&mut ib.defs);
          n |= ib.defs.len() > 1;
        }
      }
      n.then_some("index definitions reordered")
    }
    4 => {
      let mut n = false;
      for b in &mut d.blocks {
        match b {
          Block::Enum(e) => {
            s.shuffle(&mut e.values);
            n |= e.values.len() > 1;
          }
          Block::Group(g) => {
            s.shuffle(&mut g.items);
            n |= g.items.len() > 1;
          }
          Block::Project(p) => {
            s.shuffle(&mut p.items);
            n |= p.items.len() > 1;
          }
          _ => (),
        }
      }
      n.then_some("values or items reordered")
    }
    _ => {
      let mut n = false;
      for b in &mut d.blocks {
        match b {
          Block::Table(t) => {
            for it in &mut t.items {
              match it {
                TItem::Col(c) => {
                  if let Some(st) = &mut c.settings {
                    n |= many(s, &mut st.items);
                  }
                }
                TItem::Idx(ib) => {
                  for d in &mut ib.defs {
                    if let Some(st) = &mut d.settings {
                      n |= many(s, &mut st.items);
                    }
                  }
                }
                _ => (),
              }
            }
            if let Some(st) = &mut t.settings {
              n |= many(s, &mut st.items);
            }
          }
          Block::Ref(RefB { settings: Some(st), .. }) => n |= many(s, &mut st.items),
          Block::Group(Group { settings: Some(st), .. }) => n |= many(s, &mut st.items),
          _ => (),
        }
      }
      n.then_some("attributes reordered")
    }
  }
}

type Change = fn(&mut Src, &mut Doc) -> Option<&'static str>;

fn relate(c: &mut Ctx, f: Change, not_said: &[&str], what: &'static str) -> Res {
  let mut d = focused_doc(c);
  let m = sem::analyze(&d);
  if m.unspec.iter().any(|u| not_said.contains(u)) {
    return c.discard("verdict not specified");
  }
  let st = if c.src.chance(1, 4) { Style::random(&mut c.src) } else { Style::PRETTY };
  let a = writer::write(&mut d, &mut c.src, st);
  self_check(&d, &a);
  let x = Verdict::of(&d, &a);
  c.label(match &x {
    Verdict::Accept => "accepted",
    _ => "rejected",
  });
  let mut some = false;
  let variants = 1 + c.src.weighted(&[2, 2, 2, 1]);
  for _ in 0..variants {
    let mut e = d.clone();
    let mut n = 0;
    let times = 1 + c.src.weighted(&[5, 3, 2]);
    for _ in 0..times {
      for _ in 0..6 {
        let mut x = e.clone();
        if let Some(l) = f(&mut c.src, &mut x) {
          e = x;
          c.label(l);
          n += 1;
          break;
        }
      }
    }
    let b = writer::write(&mut e, &mut c.src, st);
    self_check(&e, &b);
    let m2 = sem::analyze(&e);
    if m2.unspec.iter().any(|u| not_said.contains(u)) {
      c.label("variant's verdict not specified");
      continue;
    }
    if m.unspec.is_empty() && m2.unspec.is_empty() && m.valid() != m2.valid() {
      // the rewriting was not an equivalence after all: the harness must not judge
      if std::env::var("DBML_DEBUG").is_ok() {
        panic!("rewriting is no equivalence: {:?}\n{a}\n=====\n{b}", c.labels);
      }
      c.label("harness: not an equivalence");
      continue;
    }
    some = true;
    let both = format!("{a}\n===== rewritten =====\n{b}");
    c.input(&both, n > 0 && a != b);
    let y = Verdict::of(&e, &b);
    match (&x, &y) {
      (Verdict::Accept, Verdict::Accept) | (Verdict::Reject(..), Verdict::Reject(..)) => (),
      _ => {
        let kind = match (&x, &y) {
          (Verdict::Reject(Some(k), _), _) | (_, Verdict::Reject(Some(k), _)) => k.prefix(),
          _ => "",
        };
        return fail(format!("{what}: {kind}"), format!("{}; rewritten: {}", x.describe(), y.describe()), both);
      }
    }
  }
  if some {
    Ok(())
  } else {
    c.discard("verdict not specified")
  }
}

fn c22(c: &mut Ctx) -> Res {
  relate(c, rewrite, &["an alias that is another table's name", "built-in type name with a schema", "default of another kind on an enum column"], "equivalent spelling checked differently")
}

fn c23(c: &mut Ctx) -> Res {
  relate(c, reorder, &["several index sections", "a column twice in one index", "an alias that is another table's name"], "other order checked differently")
}

pub static PROPS: &[&Prop] = &[
  &Prop { id: "C22", hangs: false, rule: "valid, changed, small-world and arbitrary documents and the same with one to three rewritings (other spellings of tables, default schema added or dropped, quotes, inline or separate or turned-around relationships, consistent renaming); both must get the same verdict; discarded: the meaning of the name is not specified; non-trivial: something was rewritten", quick: 300_000, thorough: 6_000_000, case: c22, assumptions: &["only acceptance is compared, not which rule is named"] },
  &Prop { id: "C23", hangs: false, rule: "documents as for C22 and the same with blocks, columns, index definitions, values, items or attributes reordered; both must get the same verdict; discarded: repeated index sections and the like; non-trivial: something was moved", quick: 300_000, thorough: 6_000_000, case: c23, assumptions: &["only acceptance is compared, not which rule is named"] },
];


//! Makes a document large in one way: many of something, or something long. Rarely used, as large
//! documents are slow; they reach what only shows beyond some size.

use crate::model::*;
use crate::tape::Src;

/// How many: just past the sizes where a small counter would wrap, or any number.
fn many(s: &mut Src) -> usize {
  match s.below(8) {
    0..=3 => s.range(17, 140),
    4 | 5 => s.range(250, 300),
    6 => s.range(500, 700),
    _ => s.range(1000, 1100),
  }
}

fn long_text(s: &mut Src) -> String {
  let n = match s.below(4) {
    0 => s.range(250, 300),
    1 => s.range(1000, 5000),
    2 => s.range(65_500, 65_600),
    _ => s.range(5000, 70_000),
  };
  let unit = *s.pick(&["x", "a b ", "\u{e9}", "x\n"]);
  let mut t = unit.repeat(n / unit.len());
  while t.ends_with([' ', '\n']) {
    t.pop();
  }
  t
}

fn col(i: usize) -> Col {
  Col { name: Name::new(&format!("zz_c{i}")), ty: Ty { name: "int".into(), ..Ty::default() }, ..Col::default() }
}

fn table(name: &str) -> Table {
  Table { name: Name::new(name), items: vec![TItem::Col(col(0))], ..Table::default() }
}

/// Where the new members go: before, in the middle of, or after the others.
fn at(s: &mut Src, n: usize) -> usize {
  match s.below(3) {
    0 => 0,
    1 => n,
    _ => s.range(0, n),
  }
}

fn splice<T>(s: &mut Src, v: &mut Vec<T>, new: Vec<T>) {
  let i = at(s, v.len());
  v.splice(i..i, new);
}

fn pick_table<'a>(s: &mut Src, d: &'a mut Doc) -> &'a mut Table {
  let n = d.tables().count();
  if n == 0 {
    d.blocks.push(Block::Table(table("zz_t")));
  }
  let i = s.idx(n.max(1));
  d.tables_mut().nth(i).unwrap()
}

/// Large in a way that breaks no rule in a document that broke none.
pub fn valid(s: &mut Src, d: &mut Doc) -> &'static str {
  match s.below(8) {
    0 => {
      let n = many(s);
      let new = (0..n).map(|i| Block::Table(table(&format!("zz_t{i}")))).collect();
      splice(s, &mut d.blocks, new);
      "grown: tables"
    }
    1 => {
      let n = many(s);
      let ev = |i: usize| EVal { name: Name::new(&format!("zz_v{i}")), ..EVal::default() };
      let new = (0..n).map(|i| Block::Enum(Enum { name: Name::new(&format!("zz_e{i}")), values: vec![ev(0)], ..Enum::default() })).collect();
      splice(s, &mut d.blocks, new);
      "grown: enums"
    }
    2 => {
      let n = many(s);
      let new = (0..n).map(|i| TItem::Col(col(i + 1))).collect();
      let t = pick_table(s, d);
      splice(s, &mut t.items, new);
      "grown: columns"
    }
    3 => {
      let n = many(s);
      let new = (0..n).map(|i| EVal { name: Name::new(&format!("zz_v{i}")), ..EVal::default() }).collect();
      let k = d.enums().count();
      if k == 0 {
        d.blocks.push(Block::Enum(Enum { name: Name::new("zz_e"), ..Enum::default() }));
      }
      let i = s.idx(k.max(1));
      let e = d.enums_mut().nth(i).unwrap();
      splice(s, &mut e.values, new);
      "grown: enum values"
    }
    4 => {
      let n = many(s);
      let new = (0..n).map(|i| IdxDef { cols: vec![IdxCol::Expr(Lit::new(LitK::Expr(format!("zz_{i}"))))], ..IdxDef::default() }).collect();
      let t = pick_table(s, d);
      let ib = t.index_section();
      splice(s, &mut ib.defs, new);
      "grown: indexes"
    }
    5 => {
      let t = long_text(s);
      let i = at(s, d.blocks.len());
      d.blocks.insert(i, Block::Note(Note { lit: Lit::str(&t), block: s.chance(1, 2), sp: (0, 0) }));
      "grown: note"
    }
    6 => {
      let n = many(s);
      let new = (0..n).map(|i| PItem::Prop(PropM { key: Name::new(&format!("zz_p{i}")), val: Lit::int(i as i64), sp: (0, 0) })).collect();
      if d.projects().next().is_none() {
        d.blocks.push(Block::Project(Project { name: Name::new("zz"), ..Project::default() }));
      }
      splice(s, &mut d.projects_mut().next().unwrap().items, new);
      "grown: properties"
    }
    _ => {
      // many tables that are referenced, in a chain
      let n = many(s).min(300);
      let mut new = vec![];
      for i in 0..n {
        let mut t = table(&format!("zz_t{i}"));
        let c = t.cols_mut().next().unwrap();
        c.set().items.push(SetItem::Attr(Attr::new("pk", None)));
        if i > 0 {
          let e = Endpoint { table: Name::new(&format!("zz_t{}", i - 1)), cols: vec![Name::new("zz_c0")], ..Endpoint::default() };
          let mut f = col(1);
          f.set().items.push(SetItem::Ref(IRef { rel: Rel::M2O, rhs: e, sp: (0, 0) }));
          t.items.push(TItem::Col(f));
        }
        new.push(Block::Table(t));
      }
      splice(s, &mut d.blocks, new);
      "grown: relationships"
    }
  }
}

/// Large in any way the grammar allows.
pub fn any(s: &mut Src, d: &mut Doc) -> &'static str {
  match s.below(14) {
    0..=5 => valid(s, d),
    6 => {
      let n = many(s);
      let new = (0..n).map(|i| SetItem::Attr(Attr::new(&format!("zz_k{i}"), if i % 3 == 0 { None } else { Some(Lit::int(i as i64)) }))).collect();
      let t = pick_table(s, d);
      if s.chance(1, 2) || t.cols().count() == 0 {
        splice(s, &mut t.settings.get_or_insert_with(Settings::default).items, new);
      } else {
        splice(s, &mut t.cols_mut().next().unwrap().set().items, new);
      }
      "grown: settings"
    }
    7 => {
      let n = many(s);
      let mut c = col(0);
      c.ty.args = Some((0..n).map(|i| Lit::int(i as i64)).collect());
      pick_table(s, d).items.push(TItem::Col(c));
      "grown: arguments"
    }
    8 => {
      let n = many(s);
      let mut c = col(0);
      c.ty.arrays = (0..n).map(|i| if i % 2 == 0 { None } else { Some(i.to_string()) }).collect();
      pick_table(s, d).items.push(TItem::Col(c));
      "grown: dimensions"
    }
    9 => {
      let n = many(s);
      let e = |p: &str| Endpoint { table: Name::new("zz_t"), cols: (0..n).map(|i| Name::new(&format!("{p}{i}"))).collect(), paren: true, ..Endpoint::default() };
      let r = RefB { name: None, block: s.chance(1, 2), lhs: e("a"), rel: Rel::M2O, rhs: e("b"), settings: None, sp: (0, 0), decl_sp: (0, 0) };
      let i = at(s, d.blocks.len());
      d.blocks.insert(i, Block::Ref(r));
      "grown: endpoints"
    }
    10 => {
      let n = many(s);
      let items = (0..n).map(|i| GEntry::Item(GItem { schema: if i % 5 == 0 { Some(Name::new("zz_s")) } else { None }, name: Name::new(&format!("zz_t{i}")), sp: (0, 0) })).collect();
      let i = at(s, d.blocks.len());
      d.blocks.insert(i, Block::Group(Group { name: Name::new("zz_g"), items, ..Group::default() }));
      "grown: group"
    }
    11 => {
      let n = many(s);
      let cols = (0..n).map(|i| IdxCol::Col(Name::new(&format!("zz_c{i}")))).collect();
      pick_table(s, d).index_section().defs.push(IdxDef { cols, paren: true, ..IdxDef::default() });
      "grown: index columns"
    }
    12 => {
      let n = many(s);
      let e = |i: usize| Endpoint { schema: if i % 4 == 0 { Some(Name::new("zz_s")) } else { None }, table: Name::new(&format!("zz_t{i}")), cols: vec![Name::new("a")], ..Endpoint::default() };
      let mut c = col(0);
      c.set().items = (0..n).map(|i| SetItem::Ref(IRef { rel: [Rel::M2O, Rel::O2M, Rel::O2O, Rel::M2M][i % 4], rhs: e(i), sp: (0, 0) })).collect();
      pick_table(s, d).items.push(TItem::Col(c));
      "grown: inline references"
    }
    _ => {
      let t = long_text(s);
      match s.below(4) {
        0 => d.blocks.push(Block::Enum(Enum { name: Name { text: t.replace('\n', "n"), quoted: true, sp: (0, 0) }, values: vec![], ..Enum::default() })),
        1 => {
          let mut c = col(0);
          c.set().items.push(SetItem::Attr(Attr::new("note", Some(Lit::str(&t)))));
          pick_table(s, d).items.push(TItem::Col(c));
        }
        2 => {
          let mut c = col(0);
          c.set().items.push(SetItem::Attr(Attr::new("default", Some(Lit::new(LitK::Expr(t))))));
          pick_table(s, d).items.push(TItem::Col(c));
        }
        _ => {
          let n = Name { text: t.replace('\n', "n"), quoted: true, sp: (0, 0) };
          let c = Col { name: n, ..col(0) };
          pick_table(s, d).items.push(TItem::Col(c));
        }
      }
      "grown: text"
    }
  }
}

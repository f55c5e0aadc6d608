//! C11, C12: the pull cursor and the push serializer against reference models.
use super::*;
use yaserde::__xml as xml;
use yaserde::de::Deserializer;
use yaserde::ser::Serializer;

// ---------------------------------------------------------------- C11
#[derive(Clone, Debug, PartialEq)]
enum Ev {
  Start(String, String, Vec<(String, String, String)>),
  End(String, String),
  Chars(String),
  /// characters of another kind (white space, CDATA) when the parser is configured to tell them apart
  Other(String),
  Doc,
}
fn ev(e: &xml::reader::XmlEvent) -> Ev {
  use xml::reader::XmlEvent as X;
  match e {
    X::StartElement { name, attributes, .. } => {
      let mut a: Vec<_> = attributes
        .iter()
        .map(|a| (a.name.namespace.clone().unwrap_or_default(), a.name.local_name.clone(), a.value.clone()))
        .collect();
      a.sort();
      Ev::Start(name.namespace.clone().unwrap_or_default(), name.local_name.clone(), a)
    }
    X::EndElement { name } => Ev::End(name.namespace.clone().unwrap_or_default(), name.local_name.clone()),
    X::Characters(s) => Ev::Chars(s.clone()),
    X::EndDocument => Ev::Doc,
    o => Ev::Other(format!("{o:?}")),
  }
}
fn tree(c: &mut Ctx, g: &mut Gen, depth: usize, names: &[&str]) -> Elem {
  const NS: [&str; 3] = ["", "urn:one", "http://example.com/two"];
  let ns = NS[c.s.weighted(&[5, 1, 1])];
  let mut e = Elem::new(ns, *c.s.pick(names));
  for k in 0..c.s.weighted(&[4, 2, 1]) {
    let ans = NS[c.s.weighted(&[5, 1, 1])];
    let v = g.string(c.s, Place::Attr);
    e.attr(ans, ["k", "id", "x-y"][k], v);
  }
  let n = if depth > 8 { 0 } else { c.s.weighted(&[2, 3, 3, 2, 1]) };
  for _ in 0..n {
    if c.s.chance(1, 3) {
      let t = g.string(c.s, Place::Elem);
      // one piece of text between two tags
      if !matches!(e.kids.last(), Some(Node::T(_))) {
        e.kids.push(Node::T(t));
      }
    } else {
      let x = tree(c, g, depth + 1, names);
      e.kids.push(Node::E(x));
    }
  }
  e
}
fn events(e: &Elem, out: &mut Vec<Ev>) {
  let mut a: Vec<_> = e.attrs.iter().map(|a| (a.ns.clone(), a.local.clone(), a.value.clone())).collect();
  a.sort();
  out.push(Ev::Start(e.ns.clone(), e.local.clone(), a));
  for k in &e.kids {
    match k {
      Node::E(x) => events(x, out),
      Node::T(t) | Node::C(t) => {
        let t = t.trim_matches(|c| matches!(c, ' ' | '\t' | '\n' | '\r'));
        if !t.is_empty() {
          out.push(Ev::Chars(t.to_string()))
        }
      }
    }
  }
  out.push(Ev::End(e.ns.clone(), e.local.clone()));
}
/// the model: a position in the event list
struct Cur {
  list: Vec<Ev>,
  i: usize,
  depth: usize,
  /// open elements, by index of their start event
  open: Vec<usize>,
  peeked: bool,
  failed: bool,
  sh: Shared,
  /// bytes asked for so far by peeks that must not advance
  log: Vec<String>,
  ops: u64,
  order: u64,
}
impl Cur {
  fn at(&self, i: usize) -> &Ev {
    self.list.get(i).unwrap_or(self.list.last().unwrap())
  }
  /// what the model expects a consuming call to deliver; judges what it did deliver
  fn next(&mut self, got: Result<Ev, String>) -> Result<bool, Violation> {
    let hit = get(&self.sh, |x| x.hit.is_some());
    match got {
      Ok(e) => {
        if self.failed && !self.peeked {
          return viol("after-error", format!("{:?} was delivered after a source error", e));
        }
        let want = self.at(self.i).clone();
        if e != want {
          return viol("event", format!("event {} is {e:?} instead of {want:?}", self.i));
        }
        match e {
          Ev::Start(..) => {
            self.open.push(self.i);
            self.depth += 1;
          }
          Ev::End(..) => {
            self.open.pop();
            self.depth -= 1;
          }
          _ => {}
        }
        self.i += 1;
        self.peeked = false;
        Ok(true)
      }
      Err(e) => {
        if !hit {
          return viol("error", format!("event {} ({:?}) is reported as {e:?} although the source did not fail", self.i, self.at(self.i)));
        }
        if self.peeked {
          return viol("peek", format!("event {} was peeked but then reported as {e:?}", self.i));
        }
        self.failed = true;
        Ok(false)
      }
    }
  }
}
fn check_depth(d: &Deserializer<DynR>, m: &Cur) -> Result<(), Violation> {
  if d.depth() != m.depth {
    return viol("depth", format!("depth is {} after event {} instead of {}", d.depth(), m.i, m.depth));
  }
  Ok(())
}
/// a drawn sequence of calls; returns early with the violation
fn drive(c: &mut Ctx, d: &mut Deserializer<DynR>, m: &mut Cur, nest: usize, budget: &mut usize) -> Result<(), Violation> {
  let k = if nest == 0 { usize::MAX } else { c.s.range(0, 6) };
  for _ in 0..k {
    if *budget == 0 {
      return Ok(());
    }
    *budget -= 1;
    let op = c.s.weighted(&[5, 4, 1, 1, 2, 1]);
    m.ops += 1;
    m.order = crate::choice::mix(m.order, op as u64 * 16 + m.depth as u64);
    match op {
      0 => {
        let r = d.next_event();
        let got = r.map(|e| ev(&e));
        m.log.push(format!("next_event -> {got:?}"));
        m.next(got)?;
      }
      1 => {
        let before = get(&m.sh, |x| x.pos);
        let was = m.peeked;
        let got = d.peek().map(ev);
        m.log.push(format!("peek -> {got:?}"));
        let after = get(&m.sh, |x| x.pos);
        if was && after != before {
          return viol("peek", format!("a repeated peek at event {} consumed {} bytes", m.i, after - before));
        }
        let hit = get(&m.sh, |x| x.hit.is_some());
        match got {
          Ok(e) => {
            if m.failed && !was {
              return viol("after-error", format!("{e:?} was peeked after a source error"));
            }
            if e != *m.at(m.i) {
              return viol("peek", format!("peek shows {e:?} instead of event {} {:?}", m.i, m.at(m.i)));
            }
            m.peeked = true;
          }
          Err(e) => {
            if was || !hit {
              return viol("error", format!("peek at event {} is reported as {e:?} although the source did not fail", m.i));
            }
            m.failed = true;
          }
        }
      }
      2 => check_depth(d, m)?,
      3 => {
        // to the end of the current element, or of the document outside of any
        let floor = m.depth;
        let mut seen = vec![];
        let r = d.skip_element(|e| seen.push(ev(e)));
        m.log.push(format!("skip_element -> {r:?} over {} events", seen.len()));
        let mut n = 0;
        let mut over = false;
        for e in seen {
          if m.depth < floor || over {
            return viol("skip", format!("skip_element went past the end of the element to {e:?}"));
          }
          over = e == Ev::Doc;
          m.next(Ok(e))?;
          n += 1;
        }
        match r {
          Ok(()) if m.depth >= floor && !over => return viol("skip", format!("skip_element stopped inside the element, after {n} events")),
          Ok(()) => {}
          Err(e) => {
            if m.depth < floor || over {
              return viol("skip", format!("skip_element reached the end of the element but reported {e:?}"));
            }
            m.next(Err(e))?;
          }
        }
      }
      4 if nest < 4 => {
        let i0 = m.i;
        let is_start = matches!(m.at(i0), Ev::Start(..));
        let fail = c.s.chance(1, 6);
        let mut inner: Option<Result<(), Violation>> = None;
        let mut entered = false;
        m.log.push("read_inner_value {".into());
        let r = d.read_inner_value::<u32, _>(|d2| {
          entered = true;
          inner = Some((|| {
            m.next(Ok(m.at(i0).clone()))?;
            check_depth(d2, m)?;
            drive(c, d2, m, nest + 1, budget)?;
            if c.s.chance(1, 2) && m.depth > 0 && m.open.last() == Some(&i0) && !m.failed {
              // leave the cursor before the closing tag, as readers of values do
              while !m.failed && !(matches!(m.at(m.i), Ev::End(..)) && m.open.last() == Some(&i0)) {
                let got = d2.next_event().map(|e| ev(&e));
                m.log.push(format!("next_event -> {got:?}"));
                m.next(got)?;
              }
            }
            Ok(())
          })());
          if fail {
            Err("told to fail".to_string())
          } else {
            Ok(7)
          }
        });
        m.log.push(format!("}} -> {r:?}"));
        let hit = get(&m.sh, |x| x.hit.is_some());
        if !entered {
          if r.is_ok() {
            return viol("inner", "read_inner_value succeeded without calling its reader".into());
          }
          if is_start {
            if m.peeked || !hit {
              return viol("inner", format!("read_inner_value refused the element at event {i0}: {r:?}"));
            }
            m.failed = true;
          } else if m.failed && !m.peeked || hit && !m.peeked && !source_ok(m, d) {
            m.failed = true;
          } else {
            // the event that was not a start has been consumed
            let e = m.at(i0).clone();
            m.next(Ok(e))?;
          }
        } else {
          inner.unwrap()?;
          if !is_start {
            return viol("inner", format!("read_inner_value read event {i0} {:?} as an element", m.at(i0)));
          }
          if fail {
            if r.is_ok() {
              return viol("inner", "read_inner_value hid the failure of its reader".into());
            }
          } else {
            judge_end(m, d, r.map(|_| ()), Some(i0))?;
          }
        }
        check_depth(d, m)?;
      }
      5 => {
        // the name of the element that is open, or of one that is not
        let i0 = m.open.last().copied();
        let name = match (i0, c.s.chance(1, 4)) {
          (Some(i), false) => m.at(i).clone(),
          _ => Ev::Start(String::new(), "nosuch".into(), vec![]),
        };
        let Ev::Start(ns, local, _) = name else { unreachable!() };
        let known = local != "nosuch";
        // prefixes are part of the name the cursor compares
        let mut n = xml::name::OwnedName::local(local.clone());
        if !ns.is_empty() {
          n = xml::name::OwnedName::qualified(local, ns, None::<String>);
        }
        let r = d.expect_end_element(&n);
        m.log.push(format!("expect_end_element({n:?}) -> {r:?}"));
        let sure = known && n.namespace.is_none();
        judge_end(m, d, r, if sure { i0 } else { None })?;
      }
      _ => {}
    }
    check_depth(d, m)?;
    if m.failed && m.ops > 3 && c.s.chance(1, 4) {
      return Ok(());
    }
    if m.i > m.list.len() + 2 && nest == 0 {
      return Ok(());
    }
  }
  Ok(())
}
/// without a cached event, whether a call can still get one: decided by peeking
fn source_ok(_m: &Cur, d: &mut Deserializer<DynR>) -> bool {
  d.peek().is_ok()
}
/// the model of expect_end_element: it consumes one event
fn judge_end(m: &mut Cur, d: &mut Deserializer<DynR>, r: Result<(), String>, elem: Option<usize>) -> Result<(), Violation> {
  let hit = get(&m.sh, |x| x.hit.is_some());
  let e = m.at(m.i).clone();
  let opener = m.open.last().copied();
  let consumed = d.depth() != m.depth;
  match (&e, r) {
    (Ev::End(..), Ok(())) => {
      m.next(Ok(e.clone()))?;
      if let (Some(want), Some(o)) = (elem, opener) {
        // closing another element is only in order if it has the very same name
        let same = match (m.at(want), m.at(o)) {
          (Ev::Start(a, b, _), Ev::Start(x, y, _)) => a == x && b == y,
          _ => false,
        };
        if !same {
          return viol("end", format!("the end of {:?} was taken for the end of {:?}", m.at(o), m.at(want)));
        }
      }
      Ok(())
    }
    (_, Ok(())) => viol("end", format!("{e:?} was taken for an end of an element")),
    (Ev::End(..), Err(x)) => {
      if consumed {
        // the right event, so only the name can be wrong
        m.next(Ok(e.clone()))?;
        if elem.is_some() && elem == opener {
          return viol("end", format!("the end of the element was refused: {x:?}"));
        }
        return Ok(());
      }
      if !hit || m.peeked {
        return viol("end", format!("the end of the element was not consumed: {x:?}"));
      }
      m.failed = true;
      Ok(())
    }
    (_, Err(_)) => {
      // consumed and refused, unless the source failed
      if hit && !m.peeked && !consumed && (m.failed || !matches!(e, Ev::Start(..)) && d.peek().is_err()) {
        m.failed = true;
        return Ok(());
      }
      if hit && !m.peeked && !consumed && matches!(e, Ev::Start(..)) {
        m.failed = true;
        return Ok(());
      }
      m.next(Ok(e))?;
      Ok(())
    }
  }
}
pub fn c11(c: &mut Ctx) -> Result<(), Violation> {
  let mut g = Gen::swarm(c.s);
  g.budget = g.budget.min(20_000);
  const NAMES: [&str; 5] = ["a", "b", "item", "x.y", "\u{e9}l"];
  let k = c.s.range(1, 5);
  let t = tree(c, &mut g, 0, &NAMES[..k]);
  let mut noise = Noise::gen(c.s, true);
  if k == NAMES.len() && noise.enc == Enc::Ascii {
    noise.enc = Enc::Latin1;
  }
  let doc = render(c.s, &[t.clone()], &noise);
  let data = Arc::new(doc.bytes.clone());
  let mut list = vec![];
  events(&t, &mut list);
  list.push(Ev::Doc);
  let mut plan = Plan::delivery(c.s, data.len());
  let faulty = c.s.chance(1, 3);
  if faulty {
    let at = c.s.below(data.len());
    plan = plan.with(at, if c.s.chance(1, 3) { Fault::End } else { Plan::err(c.s) });
  }
  let (io, sh) = SimIo::source(data.clone(), plan.clone());
  let custom = !faulty && c.s.chance(1, 4);
  let mut d = if custom {
    // another parser configuration: the events are those of the plain parser
    let cfg = xml::reader::ParserConfig::new()
      .trim_whitespace(c.s.chance(1, 2))
      .whitespace_to_characters(c.s.chance(1, 2))
      .cdata_to_characters(c.s.chance(1, 2))
      .ignore_comments(c.s.chance(1, 2))
      .coalesce_characters(c.s.chance(1, 2));
    list.clear();
    for e in xml::reader::EventReader::new_with_config(&data[..], cfg.clone()) {
      use xml::reader::XmlEvent as X;
      match e {
        Ok(X::StartDocument { .. } | X::ProcessingInstruction { .. } | X::Comment(_)) => {}
        Ok(e) => list.push(ev(&e)),
        Err(e) => panic!("harness: {e} in {}", esc(&data)),
      }
    }
    Deserializer::new(xml::reader::EventReader::new_with_config(io.into_dyn_reader(), cfg))
  } else {
    Deserializer::new_from_reader(io.into_dyn_reader())
  };
  c.log(|| format!("document {} delivered as {plan:?}, custom parser={custom}", esc(&data)));
  let mut m = Cur { list, i: 0, depth: 0, open: vec![], peeked: false, failed: false, sh: sh.clone(), log: vec![], ops: 0, order: 1 };
  let mut budget = m.list.len() * 3 + 20;
  let (r, steps) = guarded(limit_for(data.len()) * 4, || drive(c, &mut d, &mut m, 0, &mut budget));
  c.stats.add("steps", steps);
  c.stats.add("cursor_calls", m.ops);
  c.stats.add("events_consumed", m.i as u64);
  c.io(&sh);
  let (order, i, depth) = (m.order, m.i as u64, m.depth as u64);
  c.feat(order, i);
  c.feat(depth, m.failed as u64);
  c.nontrivial = m.ops > 3;
  if c.log.is_some() {
    for l in std::mem::take(&mut m.log) {
      c.log(|| l);
    }
  }
  let what = |v: Violation| Violation { class: v.class, msg: format!("{} in {} delivered as {plan:?} (call {})", v.msg, esc(&data), m.ops) };
  match r {
    Ok(Ok(())) => Ok(()),
    Ok(Err(v)) => Err(what(v)),
    Err(f) => viol(f.class(), format!("a cursor call ended in {f:?} at event {i} in {}", esc(&data))),
  }
}

// ---------------------------------------------------------------- C12
#[derive(Clone, Debug)]
enum W {
  Start { name: &'static str, attrs: Vec<(&'static str, String)>, ns: Vec<(&'static str, &'static str)> },
  End(Option<&'static str>),
  Chars(String),
  Cdata(String),
  Comment(String),
  Pi(String, Option<String>),
  Doc(Option<bool>),
  Skip(bool),
  Name(Option<String>),
}
fn emit<'a>(w: &'a W) -> Option<xml::writer::XmlEvent<'a>> {
  use xml::writer::XmlEvent as X;
  Some(match w {
    W::Start { name, attrs, ns } => {
      let mut b = X::start_element(*name);
      for (p, u) in ns {
        b = if p.is_empty() { b.default_ns(*u) } else { b.ns(*p, *u) };
      }
      for (k, v) in attrs {
        b = b.attr(*k, v);
      }
      b.into()
    }
    W::End(None) => X::end_element().into(),
    W::End(Some(n)) => X::end_element().name(*n).into(),
    W::Chars(s) => X::characters(s),
    W::Cdata(s) => X::cdata(s),
    W::Comment(s) => X::comment(s),
    W::Pi(n, d) => X::processing_instruction(n, d.as_deref()),
    W::Doc(s) => X::StartDocument { version: xml::common::XmlVersion::Version10, encoding: None, standalone: *s },
    _ => return None,
  })
}
pub fn c12(c: &mut Ctx) -> Result<(), Violation> {
  let mut g = Gen::swarm(c.s);
  g.budget = g.budget.min(20_000);
  // a history: mostly sensible, sometimes not
  let mut hist: Vec<W> = vec![];
  let mut open: Vec<&'static str> = vec![];
  let n = c.s.range(1, 40);
  const NAMES: [&str; 6] = ["a", "bb", "p:c", "item", "q:d", "x.y"];
  const NS: [(&str, &str); 4] = [("p", "urn:p"), ("q", "http://q/?a=1"), ("", "urn:default"), ("p", "urn:other")];
  for i in 0..n {
    match c.s.weighted(&[6, 5, 4, 1, 1, 1, 1, 3, 3]) {
      0 => {
        let mut ns = vec![];
        let name = *c.s.pick(&NAMES);
        if name.starts_with("p:") || c.s.chance(1, 8) {
          ns.push(NS[0]);
        }
        if name.starts_with("q:") || c.s.chance(1, 8) {
          ns.push(NS[1]);
        }
        if c.s.chance(1, 8) {
          ns.push(*c.s.pick(&NS));
        }
        let mut attrs = vec![];
        for k in 0..c.s.weighted(&[3, 2, 1]) {
          attrs.push((["k", "id", "p:x"][k], g.string(c.s, Place::Attr)));
        }
        hist.push(W::Start { name, attrs, ns });
        open.push(name);
      }
      1 => {
        let o = open.pop();
        let named = match (o, c.s.below(6)) {
          (Some(o), 0) => Some(o),
          (_, 1) => Some("other"),
          _ => None,
        };
        if o.is_some() || c.s.chance(1, 10) {
          hist.push(W::End(named));
        }
      }
      2 => hist.push(W::Chars(g.string(c.s, Place::Elem))),
      3 => {
        let place = if c.s.chance(1, 2) { Place::Cdata } else { Place::Elem };
        hist.push(W::Cdata(g.string(c.s, place)))
      }
      4 => hist.push(W::Comment(["c", "a - b", "", "x<y&z"][c.s.below(4)].into())),
      5 => hist.push(W::Pi("pi".into(), if c.s.chance(1, 2) { Some("data".into()) } else { None })),
      6 => {
        if i == 0 || c.s.chance(1, 10) {
          hist.push(W::Doc(*c.s.pick(&[None, Some(true), Some(false)])))
        }
      }
      7 => hist.push(W::Skip(c.s.chance(1, 2))),
      _ => hist.push(W::Name(c.s.pick(&[None, Some("x"), Some("p:y"), Some("größe"), Some(LONG_NAME)]).map(|s: &str| s.to_string()))),
    }
  }
  while c.s.chance(4, 5) && open.pop().is_some() {
    hist.push(W::End(None));
  }
  let how = c.s.below(3);
  let cfg = config(c.s);
  let free = (c.s.chance(1, 2), c.s.chance(1, 2), c.s.chance(1, 2), c.s.chance(1, 2), c.s.chance(1, 2));
  let emitter = || {
    let e = xml::EmitterConfig::new();
    match how {
      0 => {
        let mut e = e.cdata_to_characters(false).perform_indent(cfg.perform_indent).write_document_declaration(cfg.write_document_declaration);
        if let Some(s) = &cfg.indent_string {
          e = e.indent_string(s.clone());
        }
        e
      }
      1 => e.write_document_declaration(false),
      _ => e
        .perform_indent(free.0)
        .write_document_declaration(free.1)
        .normalize_empty_elements(free.2)
        .cdata_to_characters(free.3)
        .pad_self_closing(free.4),
    }
  };
  let size: usize = 60 + hist.len() * 20;
  let mut plan = Plan::delivery(c.s, size);
  let faulty = c.s.chance(1, 2);
  if faulty {
    let at = c.s.below(size);
    plan = plan.with(at, if c.s.chance(1, 3) { Fault::End } else { Plan::err(c.s) });
  }
  c.log(|| format!("constructor {how} ({}), sink {plan:?}", show_config(&cfg)));
  // the reference: a plain event writer over a sink that behaves the same
  let (ref_io, ref_sh) = SimIo::sink(plan.clone());
  let mut reference = xml::EventWriter::new_with_config(ref_io, emitter());
  let (io, sh) = SimIo::sink(plan.clone());
  let mut s = match how {
    0 => Serializer::new_from_writer(io, &cfg),
    1 => Serializer::new_for_inner(io),
    _ => Serializer::new(xml::EventWriter::new_with_config(io, emitter())),
  };
  let (mut skip, mut name) = (false, None::<String>);
  let mut order = 1u64;
  for (i, w) in hist.iter().enumerate() {
    let was = get(&sh, |x| x.hit.is_some());
    let at = format!("call {i} {w:?}");
    match w {
      W::Skip(b) => {
        s.set_skip_start_end(*b);
        skip = *b;
      }
      W::Name(n) => {
        s.set_start_event_name(n.clone());
        name = n.clone();
      }
      w => {
        let a = guarded(1_000_000, || s.write(emit(w).unwrap()).map_err(|e| e.to_string())).0;
        let b = guarded(1_000_000, || reference.write(emit(w).unwrap()).map_err(|e| e.to_string())).0;
        c.log(|| format!("{at} -> {a:?}"));
        let hit = get(&sh, |x| x.hit.is_some());
        if hit && !was && matches!(a, Ok(Ok(()))) {
          return viol("accepted", format!("{at}: the sink refused a byte but the write was reported as done"));
        }
        if a.as_ref().map(|x| x.is_ok()) != b.as_ref().map(|x| x.is_ok()) {
          return viol("result", format!("{at}: {a:?} but a plain event writer says {b:?} (history {hist:?})"));
        }
        order = crate::choice::mix(order, std::mem::discriminant(w).hash_id() ^ matches!(a, Ok(Ok(()))) as u64);
        if a.is_err() {
          // neither can be used further
          break;
        }
      }
    }
    if s.skip_start_end() != skip || s.get_start_event_name() != name {
      return viol("flags", format!("{at}: flags read back as {:?} {:?} instead of {skip:?} {name:?}", s.skip_start_end(), s.get_start_event_name()));
    }
    let (got, want) = (get(&sh, |x| x.out.clone()), get(&ref_sh, |x| x.out.clone()));
    if got != want {
      return viol("bytes", format!("{at}: the sink holds {} but a plain event writer's {} (history {hist:?})", esc(&got), esc(&want)));
    }
  }
  let drops = get(&sh, |x| x.drops);
  let back = s.into_inner();
  let (got, want) = (get(&sh, |x| x.out.clone()), get(&ref_sh, |x| x.out.clone()));
  if drops != 0 || get(&sh, |x| x.drops) != 0 {
    return viol("drops", "the sink was dropped instead of returned".into());
  }
  if got != want {
    return viol("bytes", format!("into_inner changed the sink's content from {} to {}", esc(&want), esc(&got)));
  }
  // what came back is the sink itself
  {
    use std::io::Write;
    let mut back = back;
    let _ = back.flush();
    drop(back);
  }
  if get(&sh, |x| x.drops) != 1 {
    return viol("drops", "into_inner returned something else than the sink".into());
  }
  c.stats.add("serializer_calls", hist.len() as u64);
  c.io(&sh);
  c.feat(order, how as u64);
  c.nontrivial |= hist.len() > 3;
  Ok(())
}
trait HashId {
  fn hash_id(&self) -> u64;
}
impl<T> HashId for std::mem::Discriminant<T> {
  fn hash_id(&self) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = Fnv(0xcbf29ce484222325);
    self.hash(&mut h);
    h.finish()
  }
}
struct Fnv(u64);
impl std::hash::Hasher for Fnv {
  fn finish(&self) -> u64 {
    self.0
  }
  fn write(&mut self, b: &[u8]) {
    for x in b {
      self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
    }
  }
}

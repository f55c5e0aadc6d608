//! C15: a long-lived document read and written one element at a time.
use super::*;
use yaserde::de::Deserializer;
use yaserde::ser::Serializer;
use yaserde::__xml as xml;

/// what the receiver does with one element of the stream
#[derive(Clone, Debug)]
enum Part {
  /// decode it as this type; what that gives for the element as a document of its own
  Decode(usize, Dec),
  /// skip it: by skip_element, or event by event
  Skip(bool),
  /// start reading it by hand, give up after so many events
  Browse(usize),
}
fn readable(t: &TypeDef) -> bool {
  t.dec && !t.flatten
}
fn foreign(s: &mut Src, depth: usize) -> Elem {
  let mut e = Elem::new(*s.pick(&["", "", "urn:foreign"]), *s.pick(&["stanza", "stream", "ping", "item", "body", "x"]));
  if s.chance(1, 3) {
    e.attr("", "id", "7".into());
  }
  for _ in 0..s.below(4) {
    if depth > 0 && s.chance(1, 2) {
      e.kids.push(Node::E(foreign(s, depth - 1)));
    } else if !e.has_text() {
      e.kids.push(Node::T("some text".into()));
    }
  }
  e
}
pub fn c15(c: &mut Ctx) -> Result<(), Violation> {
  log_level(c);
  if c.s.chance(2, 5) {
    return written(c);
  }
  let n = if c.s.chance(1, 400) { c.s.range(20, 300) } else { c.s.range(1, 6) };
  let level = *c.s.pick(&[1usize, 1, 1, 2, 3]);
  let mut elems = vec![];
  let mut parts = vec![];
  for _ in 0..n {
    let (e, p) = match c.s.below(10) {
      0 => (foreign(c.s, 2), Part::Skip(c.s.chance(2, 3))),
      k => {
        let t = pick_type(c, readable);
        let mut g = if c.s.chance(1, 8) { Gen::swarm(c.s) } else { Gen::small() };
        g.budget = g.budget.min(if c.s.chance(1, 8) { 4000 } else { 400 });
        let v = c.env.schema.gen(c.s, t, &mut g);
        let mut roots = c.env.schema.encode(t, &v);
        if roots.len() != 1 {
          continue;
        }
        let mut e = roots.pop().unwrap();
        match k {
          1 => (e, Part::Skip(c.s.chance(2, 3))),
          2 => {
            let k = c.s.range(1, 5);
            (e, Part::Browse(k))
          }
          3 | 4 => {
            // another version of it, or one that a faulty peer sent: what does it give by itself?
            let (ns, local) = (e.ns.clone(), e.local.clone());
            for _ in 0..c.s.range(1, 3) {
              super::sess::damage(c.s, &mut e);
            }
            (e.ns, e.local) = (ns, local);
            e = e.canon(false);
            let d = render(c.s, &[e.clone()], &Noise::none());
            let r = decode(c, t, &Arc::new(d.bytes), Plan::whole()).0;
            (e, Part::Decode(t, r))
          }
          _ => (e, Part::Decode(t, Ok(Ok(v)))),
        }
      }
    };
    elems.push(e);
    parts.push(p);
  }
  // the document around them
  let inner = elems.iter().map(|e| e.local.clone()).next();
  let mut doc = Elem::new("", "");
  for i in 0..level {
    let local = match (&inner, c.s.below(4)) {
      (Some(l), 0) => l.clone(),
      _ => c.s.pick(&["stream", "batch", "item", "body"]).to_string(),
    };
    let mut w = Elem::new(*c.s.pick(&["", "", "urn:stream"]), &local);
    if c.s.chance(1, 3) {
      w.attr("", "id", "s1".into());
    }
    w.kids = if i == 0 { elems.iter().cloned().map(Node::E).collect() } else { vec![Node::E(doc)] };
    doc = w;
  }
  let noise = Noise::gen(c.s, false);
  let d = render_at(c.s, &[doc], &noise, level);
  if d.marks.len() != elems.len() {
    panic!("harness: {} marks for {} elements in {}", d.marks.len(), elems.len(), d.text);
  }
  let data = Arc::new(d.bytes.clone());
  let mut plan = Plan::delivery(c.s, data.len());
  let fault = if c.s.chance(1, 4) {
    let at = c.s.below(d.end);
    plan = plan.with(at, if c.s.chance(1, 3) { Fault::End } else { Plan::err(c.s) });
    Some(at)
  } else {
    None
  };
  let buffered = plan.bufcap > 0;
  c.log(|| format!("document {} (elements at depth {level} end at {:?}) delivered as {plan:?}; parts {parts:?}", esc(&data), d.marks));
  let (io, sh) = SimIo::source(data.clone(), plan.clone());
  // a plain parser reads the minimal form as well
  let plain = noise.level == 0 && c.s.chance(1, 4);
  // the peer closes the stream after the document, and the receiver asks for one more element
  let more = if fault.is_none() && c.s.chance(1, 4) { Some(pick_type(c, readable)) } else { None };
  let io = if more.is_some() { io } else { io.open() };
  let io = io.into_dyn_reader();
  let mut de = if plain { Deserializer::new(xml::reader::EventReader::new(io)) } else { Deserializer::new_from_reader(io) };
  let limit = limit_for(data.len()) * 4;
  let what = |m: String| format!("{m}; document {} delivered as {plan:?} (plain parser: {plain})", esc(&data));
  let name = |t: usize| c.env.schema.ty(t).name;
  let mut log: Vec<String> = vec![];
  let mut order = 1u64;
  let out = guarded(limit, || -> Result<(), Violation> {
    // up to the elements
    while de.depth() < level {
      if let Err(e) = de.next_event() {
        return if fault.is_some() { Ok(()) } else { viol("refused", format!("the start of the document is refused: {e:?}")) };
      }
    }
    for (i, p) in parts.iter().enumerate() {
      let end = d.marks[i];
      let broken = fault.map_or(false, |f| f < end);
      // to the next element
      loop {
        match de.peek() {
          Ok(xml::reader::XmlEvent::StartElement { .. }) => break,
          Ok(xml::reader::XmlEvent::EndElement { .. } | xml::reader::XmlEvent::EndDocument) => {
            return viol("lost", format!("element {i} is not there"));
          }
          Ok(_) => {
            if de.next_event().is_err() {
              return viol("cursor", format!("an event that was peeked cannot be taken, before element {i}"));
            }
          }
          Err(e) if !broken => return viol("refused", format!("element {i} is refused: {e:?}")),
          Err(_) => {
            return match de.next_event() {
              Err(_) => Ok(()),
              Ok(e) => viol("cursor", format!("after the failure of the source an event appeared: {e:?}")),
            };
          }
        }
      }
      if de.depth() != level {
        return viol("cursor", format!("element {i}: depth {} instead of {level}", de.depth()));
      }
      match p {
        Part::Decode(t, want) => {
          let r = (c.env.ops[*t].decode_at)(&mut de);
          log.push(format!("element {i} ({}) -> {r:?}, depth {}, at byte {} of {end}", name(*t), de.depth(), get(&sh, |s| s.pos)));
          let full = c.env.schema.complete_at_end(*t);
          match (&r, want) {
            (Ok(x), Ok(Ok(w))) if x == w && (!broken || !full) => {}
            (Err(_), _) if broken => {}
            (Ok(x), _) if broken => {
              return viol("failed-read", format!("element {i} ({}): the source failed inside it but it was decoded as {x:?}", name(*t)));
            }
            (Err(_), Ok(Err(_))) => {}
            (r, w) => {
              return viol("value", format!("element {i} ({}): {r:?}, but by itself it gives {}", name(*t), show_dec(w)));
            }
          }
          order = crate::choice::mix(order, *t as u64 * 2 + r.is_ok() as u64);
        }
        Part::Skip(true) => {
          let r = de.next_event().and_then(|_| de.skip_element(|_| ()));
          log.push(format!("element {i} skipped -> {r:?}"));
          if r.is_err() && !broken {
            return viol("refused", format!("element {i} cannot be skipped: {r:?}"));
          }
          if r.is_ok() && (de.depth() != level || broken) {
            return viol("cursor", format!("after skipping element {i}: depth {} instead of {level}, source failed: {broken}", de.depth()));
          }
          order = crate::choice::mix(order, 1001);
        }
        Part::Skip(false) => order = crate::choice::mix(order, 1002),
        Part::Browse(k) => {
          for _ in 0..*k {
            if de.next_event().is_err() {
              break;
            }
            if de.depth() == level {
              break;
            }
          }
          order = crate::choice::mix(order, 1003);
        }
      }
      // what is left of the element
      if de.depth() < level {
        return viol("over-read", format!("element {i}: the cursor has left the enclosing element (depth {})", de.depth()));
      }
      // (deserialize leaves the closing tag, at least, to its caller, and may leave all of it)
      let mut first = matches!(p, Part::Skip(false) | Part::Decode(..));
      while de.depth() > level || first {
        match de.next_event() {
          Ok(_) => first = false,
          Err(_) if broken => {
            return match de.next_event() {
              Err(_) => Ok(()),
              Ok(e) => viol("cursor", format!("after the failure of the source an event appeared: {e:?}")),
            };
          }
          Err(e) => return viol("refused", format!("element {i}: its rest is refused: {e:?}")),
        }
      }
      if broken {
        return viol("failed-read", format!("element {i}: the source failed inside it but the cursor reached its end"));
      }
      let (pos, past) = get(&sh, |s| (s.pos, s.past_end));
      if !buffered && pos != end || pos < end || past > 0 {
        return viol("over-read", format!("element {i} ends at byte {end} but {pos} bytes were taken ({past} calls waiting for more)"));
      }
    }
    // and the end of the document
    if let Some(t) = more {
      let r = (c.env.ops[t].decode_at)(&mut de);
      log.push(format!("another element ({}) -> {r:?}", name(t)));
      return match r {
        Err(_) => Ok(()),
        Ok(x) => viol("invented", format!("after the last element {} was decoded as {x:?}", name(t))),
      };
    }
    while de.depth() > 0 {
      if let Err(e) = de.next_event() {
        return if fault.is_some() { Ok(()) } else { viol("refused", format!("the end of the document is refused: {e:?}")) };
      }
    }
    if fault.is_some() {
      return viol("failed-read", "the source failed but the end of the document was reached".into());
    }
    Ok(())
  });
  c.stats.add("steps", out.1);
  c.stats.add("elements_read", parts.len() as u64);
  c.io(&sh);
  if c.log.is_some() {
    for l in log {
      c.log(|| l);
    }
  }
  c.nontrivial = parts.len() > 1;
  c.feat(order, fault.is_some() as u64 + level as u64 * 2);
  match out.0 {
    Ok(Ok(())) => Ok(()),
    Ok(Err(v)) => Err(Violation { class: v.class, msg: what(v.msg) }),
    Err(f) => viol(f.class(), what(format!("{f:?}"))),
  }
}
/// the writer's side: elements put one by one into an open document
fn written(c: &mut Ctx) -> Result<(), Violation> {
  let n = if c.s.chance(1, 400) { c.s.range(20, 300) } else { c.s.range(1, 6) };
  let cfg = config(c.s);
  let how = c.s.below(3);
  let mut items: Vec<(usize, Val, Option<&'static str>, Elem)> = vec![];
  for _ in 0..n {
    let t = pick_type(c, |t| t.enc && !t.flatten);
    let mut g = if c.s.chance(1, 8) { Gen::swarm(c.s) } else { Gen::small() };
    g.budget = g.budget.min(if c.s.chance(1, 8) { 4000 } else { 400 });
    let v = c.env.schema.gen_held(c.s, t, &mut g);
    let mut roots = c.env.schema.encode(t, &v);
    if roots.len() != 1 {
      continue;
    }
    let mut e = roots.pop().unwrap();
    // under its own name, or under one the writer is told
    let as_ = if c.env.schema.ty(t).root_ns.is_empty() && c.s.chance(1, 3) { Some(*c.s.pick(&["entry", "a-b", "stream", "größe", LONG_NAME])) } else { None };
    if let Some(a) = as_ {
      e.local = a.into();
    }
    items.push((t, v, as_, e));
  }
  // prefixes that the outer element binds, to the same or to other namespaces
  let outer: Vec<(&str, &str)> = match c.s.below(4) {
    0 => vec![("p", "http://example.com/p")],
    1 => vec![("p", "urn:other"), ("z", "urn:z")],
    _ => vec![],
  };
  let indented = how == 0 && cfg.perform_indent;
  let env = c.env;
  let again: Vec<bool> = items.iter().map(|_| c.s.chance(1, 3)).collect();
  let run = |plan: Plan| {
    let (io, sh) = SimIo::sink(plan);
    let sh2 = sh.clone();
    let mut done: Vec<usize> = vec![];
    let r = guarded(2_000_000, || -> Result<(), String> {
      let mut ser = match how {
        0 => Serializer::new_from_writer(io, &cfg),
        1 => Serializer::new_for_inner(io),
        _ => Serializer::new(xml::EventWriter::new(io)),
      };
      let mut start = xml::writer::XmlEvent::start_element("stream").attr("id", "s<1>");
      for (p, u) in &outer {
        start = start.ns(*p, *u);
      }
      ser.write(start).map_err(|e| e.to_string())?;
      let mut told = None;
      for (i, (t, v, as_, _)) in items.iter().enumerate() {
        // the name is told again, or only when it changes
        if told != *as_ || again[i] {
          ser.set_skip_start_end(false);
          ser.set_start_event_name(as_.map(|a| a.to_string()));
          told = *as_;
        }
        (env.ops[*t].encode_at)(v, &mut ser)?;
        done.push(get(&sh2, |s| s.out.len()));
      }
      ser.write(xml::writer::XmlEvent::end_element()).map_err(|e| e.to_string())?;
      ser.into_inner();
      Ok(())
    });
    (r, done, sh)
  };
  let mut want = Elem::new("", "stream");
  want.attr("", "id", "s<1>".into());
  want.kids = items.iter().map(|i| Node::E(i.3.clone())).collect();
  let show = items.iter().map(|(t, v, a, _)| format!("{} {v:?} as {a:?}", env.schema.ty(*t).name)).collect::<Vec<_>>().join(", ");
  let what = |m: String| format!("writing {} (constructor {how}, {}): {m}", short(show.clone()), show_config(&cfg));
  let ((r, steps), done, sh) = run(Plan::whole());
  c.stats.add("steps", steps);
  c.stats.add("elements_written", done.len() as u64);
  let full = get(&sh, |s| s.out.clone());
  c.log(|| what(format!("{r:?} {} elements end at {done:?}", esc(&full))));
  match r {
    Ok(Ok(())) => {}
    Ok(Err(e)) => return viol("refused", what(format!("failed without a fault: {e:?}"))),
    Err(f) => return viol(f.class(), what(format!("{f:?}"))),
  }
  if let Err(e) = super::write::denotes(&full, &[want], indented) {
    return viol("content", what(format!("wrote {}: {e}", esc(&full))));
  }
  c.nontrivial = items.len() > 1;
  c.feat(items.iter().fold(how as u64, |a, i| crate::choice::mix(a, i.0 as u64 * 2 + i.2.is_some() as u64)), outer.len() as u64);
  // an element whose serialization returned Ok has been handed over completely, whatever comes later
  for _ in 0..c.s.range(1, 3) {
    let mut plan = Plan::delivery(c.s, full.len());
    let at = if c.s.chance(1, 2) { Some(c.s.below(full.len())) } else { None };
    if let Some(at) = at {
      plan = plan.with(at, if c.s.chance(1, 3) { Fault::End } else { Plan::err(c.s) });
    }
    let ((r, steps), d2, sh) = run(plan.clone());
    c.stats.add("steps", steps);
    c.io(&sh);
    let got = get(&sh, |s| s.out.clone());
    c.log(|| format!("sink {plan:?} -> {r:?}, {} bytes, elements {d2:?}", got.len()));
    let ok = match (&r, at) {
      (Ok(Ok(())), None) => got == full && d2 == done,
      (Ok(Err(_)), Some(at)) => got == full[..at] && d2 == done.iter().cloned().filter(|e| *e <= at).take(d2.len()).collect::<Vec<_>>() && d2.iter().all(|e| *e <= at),
      _ => false,
    };
    if !ok {
      return viol("sink", what(format!("sink {plan:?}: {r:?} with {} (elements done at {d2:?}) instead of {} ({done:?})", esc(&got), esc(&full))));
    }
    // an element before the refused byte must have been reported as done
    if let Some(at) = at {
      let missing = done.iter().filter(|e| **e <= at).count();
      if d2.len() != missing {
        return viol("sink", what(format!("sink {plan:?}: {} elements reported as written, {missing} were accepted completely", d2.len())));
      }
    }
  }
  Ok(())
}

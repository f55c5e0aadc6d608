//! The properties: workload, faults and oracle of one simulated run each.
use crate::choice::Src;
use crate::io::*;
use crate::model::*;
use crate::run::*;
use crate::val::*;
use crate::xml::*;
use std::sync::Arc;
use yaserde::ser::Config;

/// a name longer than any fixed buffer one would think of for names
pub const LONG_NAME: &str = concat!(
  "a.name-that_no.fixed-buffer_would.hold-", "a.name-that_no.fixed-buffer_would.hold-", "a.name-that_no.fixed-buffer_would.hold-",
  "a.name-that_no.fixed-buffer_would.hold-", "a.name-that_no.fixed-buffer_would.hold-", "a.name-that_no.fixed-buffer_would.hold-",
  "a.name-that_no.fixed-buffer_would.hold-", "the-end"
);

mod api;
mod hops;
mod read;
mod route;
mod sess;
mod stanza;
mod store;
mod tree;
mod write;

pub struct PropDef {
  pub id: &'static str,
  pub f: fn(&mut Ctx) -> Result<(), Violation>,
  pub quick: u64,
  pub thorough: u64,
  pub level: &'static str,
  pub rule: &'static str,
}
pub static PROPS: &[PropDef] = &[
  PropDef {
    id: "C01",
    f: read::c01,
    quick: 600_000,
    thorough: 12_000_000,
    level: "exploration",
    rule: "a run draws a type, a value, a lexical form and several delivery schedules; non-trivial if a schedule interrupted or split a read; distinct by (type, document length class, lexical form, schedule shape, outcome)",
  },
  PropDef {
    id: "C02",
    f: read::c02,
    quick: 200_000,
    thorough: 4_000_000,
    level: "fault_enumeration",
    rule: "a run draws a document and either sweeps an error over every byte offset or draws offsets near markup; non-trivial if an error was delivered before the root's end; distinct by (type, position class, error kind, transient, buffering, outcome)",
  },
  PropDef {
    id: "C03",
    f: read::c03,
    quick: 200_000,
    thorough: 4_000_000,
    level: "fault_enumeration",
    rule: "a run draws a document and either truncates it at every byte offset or at drawn ones; non-trivial if the document was cut before the root's end; distinct by (type, position class, buffering, outcome)",
  },
  PropDef {
    id: "C05",
    f: read::c05,
    quick: 400_000,
    thorough: 8_000_000,
    level: "exploration",
    rule: "a run damages a document (bytes, tokens, or its element tree) with 1-6 drawn corruptions and decodes it under several schedules; non-trivial if something was damaged; distinct by (type, corruption kinds, outcome)",
  },
  PropDef {
    id: "C06",
    f: write::c06,
    quick: 400_000,
    thorough: 8_000_000,
    level: "exploration",
    rule: "a run draws a type, a value, a configuration and sink schedules; non-trivial if a schedule interrupted or shortened a write; distinct by (type, configuration, schedule shape, length class)",
  },
  PropDef {
    id: "C07",
    f: write::c07,
    quick: 400_000,
    thorough: 8_000_000,
    level: "fault_enumeration",
    rule: "a run draws a value and either sweeps a write failure over every byte offset of the output or draws offsets; non-trivial if the sink refused a byte; distinct by (type, position class, failure kind, configuration)",
  },
  PropDef {
    id: "C04",
    f: sess::c04,
    quick: 20_000,
    thorough: 400_000,
    level: "exploration",
    rule: "a run draws a client/server exchange over a simulated connection (capacities, chunking, interruptions, thread schedule) or a pipelined open stream; non-trivial if the threads switched more than once or the stream was interrupted; distinct by (thread order, message types, chunking)",
  },
  PropDef {
    id: "C09",
    f: sess::c09,
    quick: 80_000,
    thorough: 1_600_000,
    level: "exploration",
    rule: "a run draws sessions and interleaves them on threads, nests them inside each other's stream calls, or runs them after failing ones; non-trivial if sessions really overlapped or faults fired; distinct by (interleaving, types, outcomes)",
  },
  PropDef {
    id: "C13",
    f: sess::c13,
    quick: 400_000,
    thorough: 8_000_000,
    level: "exploration",
    rule: "a run draws a session and an ending (success, error, unwinding) and repeats it; non-trivial if it ended in an error or unwound, or a fault fired; distinct by (type, ending, offset)",
  },
  PropDef {
    id: "C08",
    f: store::c08,
    quick: 300_000,
    thorough: 6_000_000,
    level: "exploration",
    rule: "a run draws a history of stores over a simulated disk with crashes, full disks, sync errors and torn tails, and reloads after each restart; non-trivial if the process crashed; distinct by (types, ill of each store, style, acknowledgement)",
  },
  PropDef {
    id: "C14",
    f: hops::c14,
    quick: 300_000,
    thorough: 6_000_000,
    level: "exploration",
    rule: "a run draws a value, a chain of peers with configurations, relays, failing transmissions and type versions; non-trivial if there was more than one hop or a fault; distinct by (type, hops, relays, configurations)",
  },
  PropDef {
    id: "C10",
    f: tree::c10,
    quick: 1_000_000,
    thorough: 20_000_000,
    level: "exploration",
    rule: "a run draws a value, then loses, repeats, moves, mixes in and inserts foreign parts at drawn places of its element tree and decodes it; non-trivial if the tree was changed; distinct by (type, kinds and number of changes, outcome)",
  },
  PropDef {
    id: "C15",
    f: stanza::c15,
    quick: 300_000,
    thorough: 6_000_000,
    level: "exploration",
    rule: "a run draws a long document and reads or writes its elements one by one (decoded, skipped, browsed, damaged; under own or given names) over a drawn delivery with or without a failure; non-trivial if it held more than one element; distinct by (sequence of types, actions and outcomes, nesting, failure)",
  },
  PropDef {
    id: "C20",
    f: route::c20,
    quick: 500_000,
    thorough: 10_000_000,
    level: "exploration",
    rule: "a run draws receivers behind one router and a history of messages, delivered, misrouted, wrapped or moved to another namespace on the way; non-trivial if a message arrived with its root in a wrong namespace; distinct by (receivers, kinds of misdelivery)",
  },
  PropDef {
    id: "C21",
    f: route::c21,
    quick: 800_000,
    thorough: 16_000_000,
    level: "exploration",
    rule: "a run draws a value and alters the text of 1-3 of its scalars on the way (bits, digits, signs, range edges, other spellings, crossed fields); non-trivial if a text changed; distinct by (type, kinds and number of alterations, outcome)",
  },
  PropDef {
    id: "C11",
    f: api::c11,
    quick: 700_000,
    thorough: 14_000_000,
    level: "exploration",
    rule: "a run draws a document, a delivery with or without faults, and a history of cursor calls (nested ones included); non-trivial if more than three calls were made; distinct by (call history with depths, events consumed, failure)",
  },
  PropDef {
    id: "C12",
    f: api::c12,
    quick: 1_500_000,
    thorough: 30_000_000,
    level: "exploration",
    rule: "a run draws a constructor, a configuration, a sink plan and a history of serializer calls; non-trivial if more than three calls were made; distinct by (call history with results, constructor)",
  },
];
pub fn find(id: &str) -> Option<&'static PropDef> {
  PROPS.iter().find(|p| p.id == id)
}

// ---------------------------------------------------------------- shared helpers

/// the level of logging is the application's choice and changes nothing
pub fn log_level(c: &mut Ctx) {
  if c.s.chance(1, 12) {
    use log::LevelFilter::*;
    log::set_max_level(*c.s.pick(&[Off, Off, Error, Info, Debug]));
    c.stats.add("fault:logging_reduced", 1);
  }
}
pub fn pick_type(c: &mut Ctx, ok: impl Fn(&TypeDef) -> bool) -> usize {
  let v: Vec<usize> = c.env.schema.types.iter().enumerate().filter(|(_, t)| ok(t)).map(|(i, _)| i).collect();
  let i = c.s.below(v.len());
  v[i]
}
pub fn config(s: &mut Src) -> Config {
  Config {
    perform_indent: s.chance(1, 4),
    write_document_declaration: !s.chance(1, 3),
    indent_string: match s.below(8) {
      0..=3 => None,
      4 => Some("\t".into()),
      5 => Some("   ".into()),
      6 => Some(s.pick(&["", " ", "    ", "\t\t", "\n", " \t "]).to_string()),
      _ => Some(s.pick(&[" ", "\t"]).repeat(1 + s.below(20))),
    },
  }
}
pub fn show_config(c: &Config) -> String {
  format!("indent={} decl={} indent_string={:?}", c.perform_indent, c.write_document_declaration, c.indent_string)
}
pub fn copy_config(c: &Config) -> Config {
  Config { perform_indent: c.perform_indent, write_document_declaration: c.write_document_declaration, indent_string: c.indent_string.clone() }
}
pub fn esc(b: &[u8]) -> String {
  let s = String::from_utf8_lossy(b);
  if s.len() > 1500 {
    let mut k = 1500;
    while !s.is_char_boundary(k) {
      k -= 1;
    }
    format!("{:?}... ({} bytes)", &s[..k], b.len())
  } else {
    format!("{s:?}")
  }
}
pub fn short(s: String) -> String {
  if s.len() > 1200 {
    let mut k = 1200;
    while !s.is_char_boundary(k) {
      k -= 1;
    }
    format!("{}... ({} bytes)", &s[..k], s.len())
  } else {
    s
  }
}
pub fn lenclass(n: usize) -> u64 {
  (usize::BITS - n.leading_zeros()) as u64
}
/// where in the markup a byte offset lies
pub fn posclass(b: &[u8], at: usize) -> u64 {
  // characters around the offset, coarsely
  let cl = |x: Option<&u8>| match x {
    None => 0,
    Some(b'<') => 1,
    Some(b'>') => 2,
    Some(b'/') => 3,
    Some(b'"') | Some(b'\'') => 4,
    Some(b'=') => 5,
    Some(b'&') | Some(b';') => 6,
    Some(b'!') | Some(b'?') | Some(b'[') | Some(b']') | Some(b'-') => 7,
    Some(c) if *c <= b' ' => 8,
    Some(c) if *c >= 128 => 9,
    _ => 10,
  };
  let a: u64 = if at == 0 { 0 } else { cl(b.get(at - 1)) };
  let mut depth = 0i64;
  let mut i = 0;
  while i < at.min(b.len()) {
    if b[i] == b'<' {
      match b.get(i + 1) {
        Some(b'/') => depth -= 1,
        Some(b'?') | Some(b'!') => {}
        _ => depth += 1,
      }
    }
    if b[i] == b'>' && i > 0 && b[i - 1] == b'/' {
      depth -= 1;
    }
    i += 1;
  }
  a * 100 + cl(b.get(at)) * 10 + depth.clamp(0, 9) as u64
}
pub struct Case {
  pub t: usize,
  pub v: Val,
  pub roots: Vec<Elem>,
  pub doc: Doc,
  pub noise: Noise,
}
pub fn case(c: &mut Ctx, t: usize, g: &mut Gen, noise: Noise) -> Case {
  let v = c.env.schema.gen(c.s, t, g);
  let roots = c.env.schema.encode(t, &v);
  let doc = render(c.s, &roots, &noise);
  c.log(|| format!("type {} value {}", c.env.schema.ty(t).name, short(format!("{v:?}"))));
  c.log(|| format!("document ({:?}, {} bytes, root ends at {}): {}", noise.enc, doc.bytes.len(), doc.end, esc(&doc.bytes)));
  Case { t, v, roots, doc, noise }
}
pub fn check_model(c: &Ctx, t: usize, v: &Val, roots: &[Elem]) {
  // the reference decoder must invert the reference encoder, or the harness is wrong
  match c.env.schema.decode(t, roots) {
    Ok(x) if x == *v => {}
    r => panic!(
      "harness: reference model does not round-trip {}: {v:?} -> {} -> {r:?}",
      c.env.schema.ty(t).name,
      roots.iter().map(|e| e.show()).collect::<String>()
    ),
  }
}
pub type Dec = Result<Result<Val, String>, Fail>;
pub fn decode(c: &mut Ctx, t: usize, data: &Arc<Vec<u8>>, plan: Plan) -> (Dec, Shared) {
  let (io, sh) = SimIo::source(data.clone(), plan);
  let f = c.env.ops[t].decode;
  let (r, steps) = guarded(limit_for(data.len()), || f(io.into_dyn_reader()));
  c.stats.add("decodes", 1);
  c.stats.add("steps", steps);
  c.io(&sh);
  (r, sh)
}
pub fn encode(c: &mut Ctx, t: usize, v: &Val, cfg: &Config, plan: Plan, size: usize) -> (Result<Result<SimIo, String>, Fail>, Shared) {
  let (io, sh) = SimIo::sink(plan);
  let f = c.env.ops[t].encode;
  let (r, steps) = guarded(limit_for(size), || f(v, io, cfg));
  c.stats.add("encodes", 1);
  c.stats.add("steps", steps);
  c.io(&sh);
  (r, sh)
}
pub fn outcome(r: &Dec) -> u64 {
  match r {
    Ok(Ok(_)) => 1,
    Ok(Err(_)) => 2,
    Err(_) => 3,
  }
}
pub fn show_dec(r: &Dec) -> String {
  match r {
    Ok(Ok(v)) => short(format!("Ok({v:?})")),
    Ok(Err(e)) => format!("Err({e:?})"),
    Err(f) => format!("{f:?}"),
  }
}

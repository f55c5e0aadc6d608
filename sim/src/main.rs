mod alloc;
mod choice;
mod corpus;
mod io;
mod json;
mod known;
mod model;
mod ops;
mod props;
mod run;
mod sched;
mod superv;
mod val;
mod xml;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
  run::install();
  let a: Vec<String> = std::env::args().collect();
  let code = superv::main(&a[1..]);
  std::process::exit(code);
}

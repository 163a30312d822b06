#![allow(warnings)]
// Replays scripts of operations on the streams and on the parse state.
// Lines: `id what kind base hextext op op ...`, an operation is `code,a,b,hexword`.
use oak_runtime::*;
use oak_runtime::file_map_stream::FileMapStream;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

fn unhex(s: &str) -> String {
  let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
  String::from_utf8(b).unwrap()
}
fn ints(v: &[i64]) -> String {
  let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
  format!("[{}]", v.join(","))
}
fn text(t: &str) -> String { ints(&t.chars().map(|c| c as i64).collect::<Vec<_>>()) }
fn leak(s: &str) -> &'static str { Box::leak(s.to_string().into_boxed_str()) }
fn list(v: &[String]) -> String { format!("[{}]", v.join(",")) }

fn filemap(src: &str, start: u32) -> Rc<syntex_pos::FileMap> {
  Rc::new(syntex_pos::FileMap {
    name: String::from("input"), abs_path: None, src: Some(Rc::new(String::from(src))),
    start_pos: syntex_pos::BytePos(start), end_pos: syntex_pos::BytePos(start + src.len() as u32),
    lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]),
  })
}

struct Op { code: i64, a: usize, b: usize, word: &'static str }

trait Cursor: Clone + Ord + Iterator<Item = char> + ConsumePrefix<&'static str> + HasNext + Location + CodeSnippet {
  fn span(from: &Self, to: &Self) -> (i64, i64);
  fn offset(&self) -> i64;
  fn cur(&self) -> i64;
  fn line_col(&self) -> (i64, i64);
  fn digest(&self) -> u64;
}
impl<'a> Cursor for StrStream<'a> {
  fn span(from: &Self, to: &Self) -> (i64, i64) { let s = (from.clone()..to.clone()).stream_span(); (s.lo.0 as i64, s.hi.0 as i64) }
  fn offset(&self) -> i64 { self.bytes_offset() as i64 }
  fn cur(&self) -> i64 { self.current_char().map(|c| c as i64).unwrap_or(-1) }
  fn line_col(&self) -> (i64, i64) { let (l, c) = self.line_column(); (l as i64, c as i64) }
  fn digest(&self) -> u64 { let mut h = DefaultHasher::new(); self.hash(&mut h); h.finish() }
}
impl<'a> Cursor for FileMapStream<'a> {
  fn span(from: &Self, to: &Self) -> (i64, i64) { let s = (from.clone()..to.clone()).stream_span(); (s.lo.0 as i64, s.hi.0 as i64) }
  fn offset(&self) -> i64 { Self::span(self, self).1 }
  fn cur(&self) -> i64 { self.clone().next().map(|c| c as i64).unwrap_or(-1) }
  fn line_col(&self) -> (i64, i64) { (-1, -1) }
  fn digest(&self) -> u64 { self.offset() as u64 }
}

fn ord(o: Ordering) -> i64 { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }

fn guarded<F: FnOnce() -> R, R>(f: F) -> Result<R, ()> { catch_unwind(AssertUnwindSafe(f)).map_err(|_| ()) }

fn streams<S: Cursor>(s: S, ops: &[Op]) -> String {
  let mut regs = vec![s.clone(), s.clone()];
  let mut out = vec![];
  for op in ops {
    let r = guarded(|| {
      let res = match op.code {
        0 => regs[op.a - 1].next().map(|c| c as i64).unwrap_or(-1),
        1 => regs[op.a - 1].consume_prefix(op.word) as i64,
        _ => { let c = regs[op.a - 1].clone(); regs[op.b - 1] = c; 0 }
      };
      let mut o = vec![res];
      for r in &regs {
        let (lo, hi) = S::span(&s, r);
        o.extend(&[r.offset(), r.has_next() as i64, r.cur(), lo, hi]);
      }
      let (x, y) = (&regs[0], &regs[1]);
      o.extend(&[(x == y) as i64, (x != y) as i64, (x < y) as i64, (x <= y) as i64, (x > y) as i64, (x >= y) as i64, ord(x.cmp(y)),
        x.partial_cmp(y).map(ord).unwrap_or(9), (x != y || x.digest() == y.digest()) as i64]);
      o
    });
    match r { Ok(o) => out.push(ints(&o)), Err(()) => { out.push("[-99]".into()); break } }
  }
  list(&out)
}

/// Locations and snippets (of 0 to 12 bytes, and of a lot) of every position.
fn places<S: Cursor>(mut s: S, _ops: &[Op]) -> String {
  let mut out = vec![];
  loop {
    let r = guarded(|| {
      let snips: Vec<String> = (0..13).chain(Some(1000)).map(|n| text(&s.code_snippet(n))).collect();
      let (l, c) = s.line_col();
      format!("{{\"loc\":{},\"line\":{},\"col\":{},\"snips\":{}}}", text(&s.location()), l, c, list(&snips))
    });
    match r { Ok(o) => out.push(o), Err(()) => out.push("{\"loc\":[],\"line\":-1,\"col\":-1,\"snips\":[]}".into()) }
    match guarded(|| s.next().is_some()) { Ok(true) => (), _ => break }
  }
  list(&out)
}

/// Messages: the operations are the items; the position is the number a of the first one.
fn messages<S: Cursor>(mut s: S, ops: &[Op]) -> String {
  let r = guarded(|| {
    let skip = ops[0].a;
    let failed = ops[0].b;
    let start = s.clone();
    let mut far = s.clone();
    for _ in 0..skip { far.next(); }
    let items: Vec<&'static str> = ops[1..].iter().map(|o| o.word).collect();
    let e = ParseExpectation::new(far.clone(), items.clone());
    let listed = e.expected_items();
    let report = format!("{:?}", e);
    let f: ParseResult<S, i64> = ParseResult::Failure(ParseExpectation::new(far.clone(), items.clone()));
    let p: ParseResult<S, i64> = ParseResult::Partial(42, ParseExpectation::new(far.clone(), items.clone()));
    let ok: ParseResult<S, i64> = ParseResult::Success(42);
    format!("{{\"items\":{},\"report\":{},\"failure\":{},\"partial\":{},\"success\":{}}}", text(&listed), text(&report),
      text(&format!("{:?}", f)), text(&format!("{:?}", p)), text(&format!("{:?}", ok)))
  });
  r.unwrap_or("{\"items\":[],\"report\":[],\"failure\":[],\"partial\":[],\"success\":[]}".into())
}

enum State<S> { Unit(ParseState<S, ()>), Int(ParseState<S, i64>), Gone }
macro_rules! both { ($st:expr, $s:ident, $e:expr) => { match $st { State::Unit($s) => $e, State::Int($s) => $e, State::Gone => unreachable!() } } }

fn look<S: Cursor>(st: &State<S>) -> String {
  fn fields<S: Cursor, T: Clone>(s: &ParseState<S, T>, v: fn(&T) -> i64, ty: i64) -> String {
    let exp: Vec<String> = s.expected.iter().map(|e| text(e)).collect();
    let data: Vec<i64> = s.data.iter().map(v).collect();
    format!("\"cur\":{},\"far\":{},\"exp\":{},\"failed\":{},\"is\":[{},{}],\"data\":{},\"ty\":{}", s.current.offset(), s.farthest_read.offset(),
      list(&exp), s.failed, s.is_failed(), s.is_successful(), ints(&data), ty)
  }
  match st {
    State::Unit(s) => fields(s, |_| 0, 0),
    State::Int(s) => fields(s, |v| *v, 1),
    State::Gone => String::from("\"gone\":true")
  }
}

fn states<S: Cursor>(s: S, ops: &[Op]) -> String {
  // the first operation gives the number of characters read before the state is created
  let mut s = s;
  for _ in 0..ops[0].a { s.next(); }
  let mut st: State<S> = State::Unit(ParseState::new(s));
  let mut marks: Vec<S> = vec![];
  let mut out = vec![format!("{{\"ok\":true,\"res\":0,\"msg\":[],{}}}", look(&st))];
  for op in &ops[1..] {
    let mut msg = String::new();
    let r: Result<i64, ()> = match op.code {
      0 => guarded(|| both!(&mut st, s, s.next().map(|c| c as i64).unwrap_or(-1))),
      1 => guarded(|| both!(&mut st, s, s.consume_prefix(op.word) as i64)),
      2 => guarded(|| { both!(&mut st, s, s.error(op.word)); 0 }),
      3 => match guarded(|| both!(&st, s, s.mark())) { Ok(m) => { marks.push(m); Ok(0) } Err(()) => Err(()) },
      8 => guarded(|| { match &mut st { State::Unit(s) => s.discard_data(), _ => unreachable!() }; 0 }),
      _ => {
        let old = std::mem::replace(&mut st, State::Gone);
        let done = guarded(|| match op.code {
          4 => (State::Unit(both!(old, s, s.restore(marks[op.a - 1].clone()))), 0),
          5 => (State::Unit(both!(old, s, s.restore_from_failure(marks[op.a - 1].clone()))), 0),
          6 => if op.b == 0 { (State::Unit(both!(old, s, s.success(()))), 0) } else { (State::Int(both!(old, s, s.success(op.b as i64))), 0) },
          7 => if op.a == 0 { (State::Unit(both!(old, s, s.failure())), 0) } else { (State::Int(both!(old, s, s.failure())), 0) },
          9 => match old {
            State::Unit(s) => { let (s, ()) = s.extract_data(); (State::Unit(s), 0) }
            State::Int(s) => { let (s, v) = s.extract_data(); (State::Unit(s), v) }
            State::Gone => unreachable!()
          },
          10 => both!(old, s, match s.into_result() {
            ParseResult::Success(_) => (State::Gone, 1),
            ParseResult::Partial(_, e) => { msg = format!("{:?}", e); (State::Gone, 2) }
            ParseResult::Failure(e) => { msg = format!("{:?}", e); (State::Gone, 3) }
          }),
          11 => match old {
            State::Unit(s) => { s.unwrap_data(); (State::Gone, 0) }
            State::Int(s) => (State::Gone, s.unwrap_data()),
            State::Gone => unreachable!()
          },
          _ => unreachable!()
        });
        match done { Ok((n, v)) => { st = n; Ok(v) } Err(()) => Err(()) }
      }
    };
    out.push(format!("{{\"ok\":{},\"res\":{},\"msg\":{},{}}}", r.is_ok(), r.unwrap_or(0), text(&msg), look(&st)));
    if let State::Gone = st { break }
  }
  list(&out)
}

fn run<S: Cursor>(what: &str, s: S, ops: &[Op]) -> String {
  match what { "stream" => streams(s, ops), "place" => places(s, ops), "msg" => messages(s, ops), _ => states(s, ops) }
}

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let file = std::fs::File::open(std::env::args().nth(1).unwrap()).unwrap();
  let out = std::io::stdout();
  let mut out = std::io::BufWriter::new(out.lock());
  for line in std::io::BufReader::new(file).lines() {
    let line = line.unwrap();
    let f: Vec<&str> = line.split(' ').collect();
    let base: u32 = f[3].parse().unwrap();
    let src = unhex(&f[4][1..]);
    let ops: Vec<Op> = f[5..].iter().filter(|o| !o.is_empty()).map(|o| {
      let p: Vec<&str> = o.split(',').collect();
      Op { code: p[0].parse().unwrap(), a: p[1].parse().unwrap(), b: p[2].parse().unwrap(), word: leak(&unhex(p[3])) }
    }).collect();
    let mut lines: Vec<i64> = vec![];
    let res = match f[2] {
      "str" => run(f[1], src.as_str().stream(), &ops),
      "string" => run(f[1], (&src).stream(), &ops),
      _ => { let fm = filemap(&src, base); let r = run(f[1], (&fm).stream(), &ops);
        (&fm).stream();  // the lines are registered once
        lines = fm.lines.borrow().iter().map(|l| l.0 as i64).collect(); r }
    };
    writeln!(out, "{{\"obs\":{},\"lines\":{}}}", res, ints(&lines)).unwrap();
    out.flush().unwrap();
  }
}

// Support code of the generated runners: tokens of values and types, logs, jobs.
pub use oak_runtime::*;
pub use std::cell::RefCell;
use oak_runtime::file_map_stream::FileMapStream;
use std::fmt::Write as FmtWrite;
use std::io::{BufRead, Write};
use std::rc::Rc;

thread_local! { pub static LOG: RefCell<Vec<Vec<i64>>> = RefCell::new(vec![]); }

/// Result of an action: the tokens of the call.
#[derive(Clone, PartialEq)]
pub enum Node { V(Vec<i64>), C(&'static [i64]) }

pub fn mkq(f: i64, args: &[&dyn TokDyn]) -> Node {
  let mut o = vec![7, f, args.len() as i64];
  for a in args { a.dtok(&mut o); }
  Node::V(o)
}
pub fn mk(f: i64, args: &[&dyn TokDyn]) -> Node {
  let n = mkq(f, args);
  if let Node::V(ref o) = n { LOG.with(|l| l.borrow_mut().push(o.clone())); }
  n
}

/// Tokens of a value and of its type.
pub trait Tok {
  fn tok(&self, o: &mut Vec<i64>);
  fn ty(o: &mut Vec<i64>) where Self: Sized;
}
pub trait TokDyn { fn dtok(&self, o: &mut Vec<i64>); }
impl<T: Tok> TokDyn for T { fn dtok(&self, o: &mut Vec<i64>) { self.tok(o) } }

impl Tok for Node {
  fn tok(&self, o: &mut Vec<i64>) { match self { Node::V(v) => o.extend(v), Node::C(v) => o.extend(*v) } }
  fn ty(o: &mut Vec<i64>) { o.push(7) }
}
impl Tok for char {
  fn tok(&self, o: &mut Vec<i64>) { o.extend(&[1, *self as i64]) }
  fn ty(o: &mut Vec<i64>) { o.push(1) }
}
impl Tok for () {
  fn tok(&self, o: &mut Vec<i64>) { o.push(6) }
  fn ty(o: &mut Vec<i64>) { o.push(6) }
}
impl<T: Tok> Tok for Option<T> {
  fn tok(&self, o: &mut Vec<i64>) { match self { None => o.push(2), Some(x) => { o.push(3); x.tok(o) } } }
  fn ty(o: &mut Vec<i64>) { o.push(2); T::ty(o) }
}
impl<T: Tok> Tok for Vec<T> {
  fn tok(&self, o: &mut Vec<i64>) { o.extend(&[4, self.len() as i64]); for x in self { x.tok(o) } }
  fn ty(o: &mut Vec<i64>) { o.push(4); T::ty(o) }
}
impl<T: Tok> Tok for Box<T> {
  fn tok(&self, o: &mut Vec<i64>) { o.push(10); (**self).tok(o) }
  fn ty(o: &mut Vec<i64>) { o.push(10); T::ty(o) }
}
impl Tok for syntex_pos::Span {
  fn tok(&self, o: &mut Vec<i64>) { o.extend(&[8, self.lo.0 as i64, self.hi.0 as i64]) }
  fn ty(o: &mut Vec<i64>) { o.push(8) }
}
/// A stream written by a user of the library: characters in a vector, positions counted in characters, spans in bytes.
pub trait Cell { fn char(&self) -> char; }
impl Cell for char { fn char(&self) -> char { *self } }
pub struct VecStream<'a, C = char> { chars: &'a [C], at: usize }
impl<'a, C: Cell> Clone for VecStream<'a, C> { fn clone(&self) -> Self { VecStream { chars: self.chars, at: self.at } } }
impl<'a, C: Cell> VecStream<'a, C> {
  pub fn new(chars: &'a [C]) -> Self { VecStream { chars: chars, at: 0 } }
  fn bytes(&self) -> usize { self.chars[..self.at].iter().map(|c| c.char().len_utf8()).sum() }
}
impl<'a, C: Cell> Iterator for VecStream<'a, C> {
  type Item = char;
  fn next(&mut self) -> Option<char> { let c = self.chars.get(self.at).map(|c| c.char()); if c.is_some() { self.at += 1 } c }
}
impl<'a, C: Cell> PartialEq for VecStream<'a, C> { fn eq(&self, o: &Self) -> bool { self.at == o.at } }
impl<'a, C: Cell> Eq for VecStream<'a, C> {}
impl<'a, C: Cell> PartialOrd for VecStream<'a, C> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.at.partial_cmp(&o.at) } }
impl<'a, C: Cell> Ord for VecStream<'a, C> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.at.cmp(&o.at) } }
impl<'a, C: Cell> Location for VecStream<'a, C> {
  fn location(&self) -> String {
    let before: String = self.chars[..self.at].iter().map(|c| c.char()).collect();
    let line = before.matches('\n').count() + 1;
    format!("{}:{}", line, before.len() - before.rfind('\n').map(|i| i + 1).unwrap_or(0) + 1)
  }
}
impl<'a, C: Cell> CodeSnippet for VecStream<'a, C> {
  fn code_snippet(&self, len_hint: usize) -> String {
    if self.at == self.chars.len() { return "<end-of-file>".into() }
    let mut s = String::new();
    for c in self.chars[self.at..].iter().map(|c| c.char()) { if s.len() + c.len_utf8() > len_hint { break } s.push(c) }
    s
  }
}
impl<'a, C: Cell> ConsumePrefix<&'static str> for VecStream<'a, C> {
  fn consume_prefix(&mut self, prefix: &'static str) -> bool {
    let p: Vec<char> = prefix.chars().collect();
    let ok = self.chars.len() - self.at >= p.len() && self.chars[self.at..].iter().zip(&p).all(|(c, d)| c.char() == *d);
    if ok { self.at += p.len() }
    ok
  }
}
impl<'a, C: Cell> HasNext for VecStream<'a, C> { fn has_next(&self) -> bool { self.at < self.chars.len() } }
pub trait Off { fn off(&self) -> i64; }
impl<'a, C: Cell> Off for VecStream<'a, C> { fn off(&self) -> i64 { self.bytes() as i64 } }
impl<'a> Off for StrStream<'a> { fn off(&self) -> i64 { self.bytes_offset() as i64 } }
impl<'a> Off for FileMapStream<'a> {
  fn off(&self) -> i64 { let s = (self.clone()..self.clone()).stream_span(); s.hi.0 as i64 }
}
impl<S: Off> Tok for std::ops::Range<S> {
  fn tok(&self, o: &mut Vec<i64>) { o.extend(&[9, self.start.off(), self.end.off()]) }
  fn ty(o: &mut Vec<i64>) { o.push(9) }
}
macro_rules! tuples { ($($n:expr => $($t:ident $i:tt),*;)*) => { $(
  impl<$($t: Tok),*> Tok for ($($t,)*) {
    fn tok(&self, o: &mut Vec<i64>) { o.extend(&[5, $n]); $(self.$i.tok(o);)* }
    fn ty(o: &mut Vec<i64>) { o.extend(&[5, $n]); $($t::ty(o);)* }
  } )* } }
// @TUPLES@

pub fn type_of<S, T: Tok>(_: fn(ParseState<S, ()>) -> ParseState<S, T>) -> Vec<i64> {
  let mut o = vec![];
  T::ty(&mut o);
  o
}

pub fn type_of_vec<'a, T: Tok>(f: fn(ParseState<VecStream<'a>, ()>) -> ParseState<VecStream<'a>, T>) -> Vec<i64> { type_of(f) }

fn ints(v: &[i64]) -> String {
  let mut s = String::from("[");
  for (i, x) in v.iter().enumerate() { if i > 0 { s.push(',') } write!(s, "{}", x).unwrap(); }
  s.push(']');
  s
}
fn text(t: &str) -> String { ints(&t.chars().map(|c| c as i64).collect::<Vec<_>>()) }

/// Debug text of the values in the results: the tokens.
pub struct Dbg(Vec<i64>);
impl std::fmt::Debug for Dbg {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0.len()) }
}

/// Runs a generated function and renders what can be observed of its result.
pub fn observe<S, T: Tok>(f: fn(ParseState<S, ()>) -> ParseState<S, T>, start: S) -> String where
 S: Ord + Clone + HasNext + Off + Location + CodeSnippet
{
  LOG.with(|l| l.borrow_mut().clear());
  let state = f(ParseState::new(start));
  let log = LOG.with(|l| l.borrow_mut().split_off(0));
  let mut out = format!("\"failed\":{},\"cur\":{},\"far\":{}", state.failed, state.current.off(), state.farthest_read.off());
  let exp: Vec<String> = state.expected.iter().map(|e| text(e)).collect();
  write!(out, ",\"exp\":[{}]", exp.join(",")).unwrap();
  let mut data = vec![];
  if let Some(ref d) = state.data { d.tok(&mut data) }
  write!(out, ",\"data\":{}", ints(&data)).unwrap();
  let log: Vec<String> = log.iter().map(|e| ints(e)).collect();
  write!(out, ",\"log\":[{}]", log.join(",")).unwrap();
  write!(out, ",\"succ\":{}", state.is_successful() && !state.is_failed()).unwrap();
  write!(out, ",\"loc\":{},\"snip\":{}", text(&state.farthest_read.location()), text(&state.farthest_read.code_snippet(10))).unwrap();
  // The result: 1 success, 2 partial, 3 failure, with the message.
  let (kind, msg) = match state.into_result() {
    ParseResult::Success(d) => { let mut o = vec![]; d.tok(&mut o); (1, if o == data { String::new() } else { "!data".into() }) }
    ParseResult::Partial(d, e) => { let mut o = vec![]; d.tok(&mut o); (2, if o == data { format!("{:?}", e) } else { "!data".into() }) }
    ParseResult::Failure(e) => (3, format!("{:?}", e))
  };
  write!(out, ",\"kind\":{},\"msg\":{}", kind, text(&msg)).unwrap();
  out
}

/// A stream that starts after `skip` characters.
pub fn skipped<S: Iterator<Item = char>>(mut s: S, skip: usize) -> S {
  for _ in 0..skip { s.next(); }
  s
}

pub fn filemap(src: &str, start: u32) -> Rc<syntex_pos::FileMap> {
  use std::cell::RefCell;
  Rc::new(syntex_pos::FileMap {
    name: String::from("input"), abs_path: None, src: Some(Rc::new(String::from(src))),
    start_pos: syntex_pos::BytePos(start), end_pos: syntex_pos::BytePos(start + src.len() as u32),
    lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]),
  })
}

fn unhex(s: &str) -> String {
  let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
  String::from_utf8(b).unwrap()
}

/// Jobs: lines `id g r mode skip hex`.  One line of output per job, preceded by a line `id` when it starts.
pub fn main_loop(dispatch: fn(usize, usize, usize, usize, &str) -> String) {
  std::panic::set_hook(Box::new(|_| {}));
  let path = std::env::args().nth(1).expect("job file");
  let first: usize = std::env::args().nth(2).map(|s| s.parse().unwrap()).unwrap_or(0);
  let file = std::fs::File::open(path).unwrap();
  let stdout = std::io::stdout();
  for (n, line) in std::io::BufReader::new(file).lines().enumerate() {
    if n < first { continue }
    let line = line.unwrap();
    let f: Vec<&str> = line.split(' ').collect();
    let num = |i: usize| f[i].parse::<usize>().unwrap();
    let input = unhex(f.get(5).unwrap_or(&""));
    { let mut o = stdout.lock(); writeln!(o, "> {}", n).unwrap(); o.flush().unwrap(); }
    let res = std::panic::catch_unwind(|| dispatch(num(1), num(2), num(3), num(4), &input));
    let body = match res {
      Ok(s) => format!("\"st\":\"ok\",{}", s),
      Err(e) => {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("\"st\":\"panic\",\"why\":{}", text(&m))
      }
    };
    let mut o = stdout.lock();
    writeln!(o, "{{\"id\":{},{}}}", f[0], body).unwrap();
    o.flush().unwrap();
  }
}

//! Minimal JSON writer.
pub fn esc(s: &str) -> String {
  let mut o = String::with_capacity(s.len() + 2);
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
pub fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
  let mut o = String::from("[");
  for (i, s) in it.into_iter().enumerate() {
    if i > 0 {
      o.push(',');
    }
    o.push_str(&s);
  }
  o.push(']');
  o
}
pub fn obj(it: &[(&str, String)]) -> String {
  let mut o = String::from("{");
  for (i, (k, v)) in it.iter().enumerate() {
    if i > 0 {
      o.push(',');
    }
    o.push_str(&esc(k));
    o.push(':');
    o.push_str(v);
  }
  o.push('}');
  o
}

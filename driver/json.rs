pub enum V {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<V>),
    O(Vec<(&'static str, V)>),
    M(Vec<(String, V)>),
}
pub fn s<T: Into<String>>(t: T) -> V {
    V::S(t.into())
}
pub fn i<T: TryInto<i128>>(t: T) -> V {
    V::I(t.try_into().ok().unwrap())
}
impl V {
    pub fn write(&self, o: &mut String) {
        match self {
            V::Null => o.push_str("null"),
            V::B(b) => o.push_str(if *b { "true" } else { "false" }),
            V::I(n) => o.push_str(&n.to_string()),
            V::S(t) => esc(t, o),
            V::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            V::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    esc(n, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
            V::M(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    esc(n, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
fn esc(t: &str, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

//! Tiny JSON reader and string escaper.
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn num(&self) -> usize {
        match self {
            J::Num(n) => *n as usize,
            _ => 0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
}

pub fn parse(s: &str) -> J {
    let c: Vec<char> = s.chars().collect();
    let mut p = 0;
    value(&c, &mut p)
}

fn ws(c: &[char], p: &mut usize) {
    while *p < c.len() && c[*p].is_whitespace() {
        *p += 1
    }
}

fn value(c: &[char], p: &mut usize) -> J {
    ws(c, p);
    match c[*p] {
        '{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(c, p);
                if c[*p] == '}' {
                    *p += 1;
                    return J::Obj(m);
                }
                if c[*p] == ',' {
                    *p += 1;
                    continue;
                }
                let k = match value(c, p) {
                    J::Str(s) => s,
                    _ => panic!("json key"),
                };
                ws(c, p);
                assert_eq!(c[*p], ':');
                *p += 1;
                m.insert(k, value(c, p));
            }
        }
        '[' => {
            *p += 1;
            let mut a = vec![];
            loop {
                ws(c, p);
                if c[*p] == ']' {
                    *p += 1;
                    return J::Arr(a);
                }
                if c[*p] == ',' {
                    *p += 1;
                    continue;
                }
                a.push(value(c, p));
            }
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            while c[*p] != '"' {
                if c[*p] == '\\' {
                    *p += 1;
                    match c[*p] {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        'b' => s.push('\u{8}'),
                        'f' => s.push('\u{c}'),
                        'u' => {
                            let h: String = c[*p + 1..*p + 5].iter().collect();
                            s.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap_or('\u{FFFD}'));
                            *p += 4;
                        }
                        o => s.push(o),
                    }
                } else {
                    s.push(c[*p]);
                }
                *p += 1;
            }
            *p += 1;
            J::Str(s)
        }
        't' => {
            *p += 4;
            J::Bool(true)
        }
        'f' => {
            *p += 5;
            J::Bool(false)
        }
        'n' => {
            *p += 4;
            J::Null
        }
        _ => {
            let st = *p;
            while *p < c.len() && matches!(c[*p], '0'..='9' | '-' | '+' | '.' | 'e' | 'E') {
                *p += 1
            }
            let t: String = c[st..*p].iter().collect();
            J::Num(t.parse().unwrap_or_else(|_| panic!("bad json number {:?} at {}", t, st)))
        }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

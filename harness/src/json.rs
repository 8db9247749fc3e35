//! Just enough JSON: integers, strings, booleans, arrays and objects.
#[derive(Debug, Clone, PartialEq)]
pub enum J {
    N(i64),
    S(String),
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
    Null,
}

impl J {
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            other => panic!("expected an array, found {:?}", other),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            other => panic!("expected a string, found {:?}", other),
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::N(n) => *n,
            other => panic!("expected a number, found {:?}", other),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::B(b) => *b,
            other => panic!("expected a boolean, found {:?}", other),
        }
    }
    pub fn get(&self, key: &str) -> Option<&J> {
        match self {
            J::O(m) => m.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
    /// text given as a list of code points
    pub fn text(&self) -> String {
        self.arr()
            .iter()
            .map(|c| char::from_u32(c.num() as u32).expect("code point"))
            .collect()
    }
}

pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut i = 0;
    let v = value(b, &mut i);
    ws(b, &mut i);
    assert!(i == b.len(), "trailing JSON");
    v
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
        *i += 1;
    }
}

fn value(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match b[*i] {
                    b']' => {
                        *i += 1;
                        return J::A(v);
                    }
                    b',' => *i += 1,
                    _ => v.push(value(b, i)),
                }
            }
        }
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match b[*i] {
                    b'}' => {
                        *i += 1;
                        return J::O(v);
                    }
                    b',' => *i += 1,
                    _ => {
                        let k = match value(b, i) {
                            J::S(s) => s,
                            _ => panic!("key"),
                        };
                        ws(b, i);
                        assert!(b[*i] == b':');
                        *i += 1;
                        v.push((k, value(b, i)));
                    }
                }
            }
        }
        b'"' => {
            *i += 1;
            let start = *i;
            while b[*i] != b'"' {
                assert!(b[*i] != b'\\', "escapes are not used");
                *i += 1;
            }
            let s = std::str::from_utf8(&b[start..*i]).unwrap().to_string();
            *i += 1;
            J::S(s)
        }
        b't' => {
            *i += 4;
            J::B(true)
        }
        b'f' => {
            *i += 5;
            J::B(false)
        }
        b'n' => {
            *i += 4;
            J::Null
        }
        _ => {
            let start = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::N(std::str::from_utf8(&b[start..*i]).unwrap().parse().unwrap())
        }
    }
}

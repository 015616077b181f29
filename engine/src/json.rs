//! A minimal JSON reader/writer (no external crates are available offline).
#[derive(Debug, Clone)]
pub enum J {
    Null,
    Bool(bool),
    Num(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut p = 0;
        val(b, &mut p)
    }
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(v) = self {
            for (a, b) in v {
                if a == k {
                    return b;
                }
            }
        }
        &J::Null
    }
    pub fn at(&self, i: usize) -> &J {
        if let J::Arr(v) = self {
            v.get(i).unwrap_or(&J::Null)
        } else {
            &J::Null
        }
    }
    pub fn arr(&self) -> &[J] {
        if let J::Arr(v) = self {
            v
        } else {
            &[]
        }
    }
    pub fn str(&self) -> &str {
        if let J::Str(s) = self {
            s
        } else {
            ""
        }
    }
    pub fn num(&self) -> Option<i128> {
        if let J::Num(n) = self {
            Some(*n)
        } else {
            None
        }
    }
    pub fn us(&self) -> usize {
        self.num().unwrap_or(0) as usize
    }
    pub fn opt(&self) -> Option<usize> {
        self.num().map(|x| x as usize)
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            if b[*p] == b'}' {
                *p += 1;
                return J::Obj(v);
            }
            loop {
                ws(b, p);
                let k = string(b, p);
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                let x = val(b, p);
                v.push((k, x));
                ws(b, p);
                *p += 1;
                if b[*p - 1] == b'}' {
                    return J::Obj(v);
                }
            }
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            ws(b, p);
            if b[*p] == b']' {
                *p += 1;
                return J::Arr(v);
            }
            loop {
                v.push(val(b, p));
                ws(b, p);
                *p += 1;
                if b[*p - 1] == b']' {
                    return J::Arr(v);
                }
            }
        }
        b'"' => J::Str(string(b, p)),
        b't' => {
            *p += 4;
            J::Bool(true)
        }
        b'f' => {
            *p += 5;
            J::Bool(false)
        }
        b'n' => {
            *p += 4;
            J::Null
        }
        _ => {
            let s = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[s..*p]).unwrap();
            match t.parse::<i128>() {
                Ok(n) => J::Num(n),
                Err(_) => match t.parse::<u128>() {
                    Ok(n) => J::Num(n as i128),
                    Err(_) => panic!("json: bad number {:?} at {}", t, s),
                },
            }
        }
    }
}

fn string(b: &[u8], p: &mut usize) -> String {
    assert!(b[*p] == b'"');
    *p += 1;
    let mut o: Vec<u8> = vec![];
    loop {
        match b[*p] {
            b'"' => {
                *p += 1;
                return String::from_utf8(o).unwrap();
            }
            b'\\' => {
                *p += 1;
                match b[*p] {
                    b'n' => o.push(b'\n'),
                    b'r' => o.push(b'\r'),
                    b't' => o.push(b'\t'),
                    b'u' => {
                        let h = std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap();
                        let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap_or('?');
                        let mut t = [0; 4];
                        o.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                        *p += 4;
                    }
                    c => o.push(c),
                }
                *p += 1;
            }
            c => {
                o.push(c);
                *p += 1;
            }
        }
    }
}

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

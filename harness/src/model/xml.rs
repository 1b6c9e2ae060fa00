//! A strict reader for the small XML documents an SVG generator may emit.

#[derive(Debug, Clone, Default)]
pub struct Element {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub children: Vec<Element>,
}

impl Element {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| &v[..])
    }
}

struct P<'a> {
    s: &'a [u8],
    src: &'a str,
    i: usize,
}

type R<T> = Result<T, String>;

fn name_start(b: u8) -> bool {
    b.is_ascii_alphabetic() || b == b'_' || b == b':' || b >= 0x80
}
fn name_char(b: u8) -> bool {
    name_start(b) || b.is_ascii_digit() || b == b'-' || b == b'.'
}

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        let a: String = self.src.chars().take(240).collect();
        Err(format!("not well-formed XML: {m} at byte {} of {a:?}", self.i))
    }
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn starts(&self, t: &str) -> bool {
        self.s[self.i..].starts_with(t.as_bytes())
    }
    fn ws(&mut self) -> bool {
        let a = self.i;
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
        self.i > a
    }
    fn name(&mut self) -> R<String> {
        let a = self.i;
        match self.peek() {
            Some(b) if name_start(b) => self.i += 1,
            _ => return self.err("name expected"),
        }
        while self.peek().map_or(false, name_char) {
            self.i += 1;
        }
        Ok(self.src[a..self.i].to_string())
    }
    fn value(&mut self) -> R<String> {
        let q = match self.peek() {
            Some(q @ (b'"' | b'\'')) => q,
            _ => return self.err("quoted value expected"),
        };
        self.i += 1;
        let mut out = String::new();
        loop {
            let rest = &self.src[self.i..];
            let c = match rest.chars().next() {
                None => return self.err("unterminated value"),
                Some(c) => c,
            };
            if c as u32 == q as u32 {
                self.i += 1;
                return Ok(out);
            }
            match c {
                '<' => return self.err("'<' in a value"),
                '&' => {
                    let end = match rest.find(';') {
                        Some(e) => e,
                        None => return self.err("unterminated reference"),
                    };
                    let r = &rest[1..end];
                    let ch = match r {
                        "lt" => Some('<'),
                        "gt" => Some('>'),
                        "amp" => Some('&'),
                        "quot" => Some('"'),
                        "apos" => Some('\''),
                        _ => {
                            let n = if let Some(h) = r.strip_prefix("#x") {
                                u32::from_str_radix(h, 16).ok()
                            } else if let Some(d) = r.strip_prefix('#') {
                                d.parse().ok()
                            } else {
                                None
                            };
                            n.and_then(char::from_u32)
                        }
                    };
                    match ch {
                        Some(ch) => out.push(ch),
                        None => return self.err("unknown reference"),
                    }
                    self.i += end + 1;
                }
                c => {
                    // attribute-value normalisation
                    out.push(if matches!(c, '\t' | '\n' | '\r') { ' ' } else { c });
                    self.i += c.len_utf8();
                }
            }
        }
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.starts("<!--") {
                match self.src[self.i + 4..].find("-->") {
                    Some(e) => self.i += 4 + e + 3,
                    None => return self.err("unterminated comment"),
                }
            } else if self.starts("<?") {
                match self.src[self.i..].find("?>") {
                    Some(e) => self.i += e + 2,
                    None => return self.err("unterminated instruction"),
                }
            } else {
                return Ok(());
            }
        }
    }
    fn element(&mut self, depth: usize) -> R<Element> {
        if depth > 50 {
            return self.err("nested too deeply");
        }
        if self.peek() != Some(b'<') {
            return self.err("element expected");
        }
        self.i += 1;
        let mut e = Element { name: self.name()?, ..Element::default() };
        loop {
            let sp = self.ws();
            match self.peek() {
                Some(b'/') if self.starts("/>") => {
                    self.i += 2;
                    return Ok(e);
                }
                Some(b'>') => {
                    self.i += 1;
                    break;
                }
                Some(_) if sp => {
                    let n = self.name()?;
                    self.ws();
                    if self.peek() != Some(b'=') {
                        return self.err("'=' expected");
                    }
                    self.i += 1;
                    self.ws();
                    let v = self.value()?;
                    if e.attr(&n).is_some() {
                        return self.err("attribute given twice");
                    }
                    e.attrs.push((n, v));
                }
                _ => return self.err("malformed tag"),
            }
        }
        loop {
            self.misc()?;
            if self.starts("</") {
                self.i += 2;
                let n = self.name()?;
                self.ws();
                if n != e.name || self.peek() != Some(b'>') {
                    return self.err("wrong end tag");
                }
                self.i += 1;
                return Ok(e);
            }
            if self.peek() == Some(b'<') {
                e.children.push(self.element(depth + 1)?);
            } else {
                return self.err("text, or the document ends inside an element");
            }
        }
    }
}

pub fn parse(src: &str) -> R<Element> {
    let mut p = P { s: src.as_bytes(), src, i: 0 };
    p.misc()?;
    let e = p.element(0)?;
    p.misc()?;
    if p.i != src.len() {
        return p.err("content after the root element");
    }
    Ok(e)
}

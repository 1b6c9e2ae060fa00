//! Literals of the code under test, used to seed generators only (as a fuzzer's
//! automatic dictionary does); they never take part in a verdict.

#[derive(Default, Debug)]
pub struct Dict {
    pub strings: Vec<String>,
    pub numbers: Vec<u64>,
}

impl Dict {
    pub fn load(root: &str) -> Dict {
        let mut files = vec![];
        walk(std::path::Path::new(root), &mut files);
        files.sort();
        let mut d = Dict::default();
        for f in files {
            if let Ok(s) = std::fs::read_to_string(&f) {
                d.scan(&s);
            }
        }
        d.strings.sort();
        d.strings.dedup();
        d.numbers.sort();
        d.numbers.dedup();
        d.strings.truncate(5000);
        d.numbers.truncate(5000);
        d
    }

    fn scan(&mut self, s: &str) {
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < c.len() {
            if c[i] == '/' && c.get(i + 1) == Some(&'/') {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            } else if c[i] == '"' || (c[i] == '\'' && closes(&c[i + 1..])) {
                let q = c[i];
                let mut out = String::new();
                i += 1;
                while i < c.len() && c[i] != q {
                    if c[i] == '\\' {
                        i += 1;
                        match c.get(i) {
                            Some('n') => out.push('\n'),
                            Some('t') => out.push('\t'),
                            Some('r') => out.push('\r'),
                            Some('0') => out.push('\0'),
                            Some('u') if c.get(i + 1) == Some(&'{') => {
                                let h: String = c[i + 2..].iter().take_while(|x| **x != '}').collect();
                                i += 2 + h.len();
                                out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                            }
                            Some('x') => {
                                let h: String = c[i + 1..].iter().take(2).collect();
                                i += h.len();
                                out.extend(u8::from_str_radix(&h, 16).ok().map(char::from));
                            }
                            Some(x) => out.push(*x),
                            None => {}
                        }
                    } else {
                        out.push(c[i]);
                    }
                    i += 1;
                }
                i += 1;
                if !out.is_empty() && out.len() <= 64 {
                    self.strings.push(out);
                }
            } else if c[i].is_ascii_digit() {
                let start = i;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                let t: String = c[start..i].iter().filter(|x| **x != '_').collect();
                let n = if let Some(h) = t.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).ok()
                } else {
                    let d: String = t.chars().take_while(|x| x.is_ascii_digit()).collect();
                    d.parse().ok()
                };
                if let Some(n) = n {
                    self.numbers.extend([n.saturating_sub(1), n, n.saturating_add(1)]);
                }
            } else {
                i += 1;
            }
        }
    }
}

fn closes(c: &[char]) -> bool {
    match c.first() {
        Some('\\') => true,
        Some(_) => c.get(1) == Some(&'\''),
        None => false,
    }
}

fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(p) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().map_or(false, |x| x == "rs") {
                out.push(p);
            }
        }
    }
}

//! A small, strict XML 1.0 parser, written from the recommendation (newline normalisation,
//! attribute-value normalisation, character and predefined entity references, CDATA, comments).

#[derive(Clone, Debug)]
pub enum Kid {
    El(usize),
    Text(String),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Kid>,
    /// Whether every piece of text came from literal characters (not CDATA).
    pub raw_len: usize,
}

/// A parsed document: nodes in document order, 0 is the root.
pub struct Doc {
    pub nodes: Vec<Node>,
}

fn legal(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

struct P<'a> {
    s: &'a str,
    at: usize,
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.at..]
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.at += t.len();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) -> usize {
        let r = self.rest();
        let n = r.len() - r.trim_start_matches([' ', '\t', '\r', '\n']).len();
        self.at += n;
        n
    }
    fn until(&mut self, t: &str) -> Result<&'a str, String> {
        match self.rest().find(t) {
            Some(n) => {
                let r = &self.rest()[..n];
                self.at += n + t.len();
                Ok(r)
            }
            None => Err(format!("missing {} after offset {}", t, self.at)),
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let r = self.rest();
        let n = r
            .find(|c: char| {
                !(c.is_alphanumeric() || c == '_' || c == ':' || c == '-' || c == '.')
            })
            .unwrap_or(r.len());
        if n == 0 || r.starts_with(|c: char| c.is_numeric() || c == '-' || c == '.') {
            return Err(format!("name expected at offset {}", self.at));
        }
        self.at += n;
        Ok(r[..n].to_string())
    }
    fn reference(&mut self) -> Result<char, String> {
        // After '&'.
        let n = match self.rest().as_bytes().iter().take(16).position(|&b| b == b';') {
            Some(n) => n,
            None => return Err(format!("bad reference at offset {}", self.at)),
        };
        let name = &self.rest()[..n];
        self.at += n + 1;
        let c = match name {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let v = if let Some(h) = name.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = name.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                match v.and_then(char::from_u32) {
                    Some(c) if legal(c) => c,
                    _ => return Err(format!("bad reference &{};", name)),
                }
            }
        };
        Ok(c)
    }
}

fn norm(s: &str) -> Result<String, String> {
    if let Some(c) = s.chars().find(|&c| !legal(c)) {
        return Err(format!("illegal character U+{:04X}", c as u32));
    }
    Ok(if s.contains('\r') { s.replace("\r\n", "\n").replace('\r', "\n") } else { s.to_string() })
}

pub fn parse(bytes: &[u8]) -> Result<Doc, String> {
    let s = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {}", e))?;
    let s = s.strip_prefix('\u{feff}').unwrap_or(s);
    let mut p = P { s, at: 0 };
    let mut doc = Doc { nodes: Vec::new() };
    let mut stack: Vec<usize> = Vec::new();
    let mut done = false;
    if p.rest().starts_with("<?xml ") {
        p.until("?>")?;
    }
    while p.at < s.len() {
        if p.eat("<!--") {
            let t = p.until("-->")?;
            if t.contains("--") {
                return Err("-- in a comment".into());
            }
        } else if p.eat("<![CDATA[") {
            let t = norm(p.until("]]>")?)?;
            match stack.last() {
                Some(&top) => push_text(&mut doc.nodes[top], &t),
                None => return Err("CDATA outside the root".into()),
            }
        } else if p.rest().starts_with("<?") {
            p.until("?>")?;
        } else if p.rest().starts_with("<!") {
            return Err("document type or bad markup".into());
        } else if p.eat("</") {
            let n = p.name()?;
            p.ws();
            if !p.eat(">") {
                return Err("bad end tag".into());
            }
            match stack.pop() {
                Some(t) if doc.nodes[t].name == n => done = stack.is_empty(),
                _ => return Err(format!("end tag {} does not match", n)),
            }
        } else if p.eat("<") {
            if done {
                return Err("second root".into());
            }
            let name = p.name()?;
            let mut attrs: Vec<(String, String)> = Vec::new();
            loop {
                let w = p.ws();
                if p.eat("/>") {
                    let id = add(&mut doc, &stack, name, attrs)?;
                    if stack.is_empty() {
                        done = true;
                    }
                    let _ = id;
                    break;
                }
                if p.eat(">") {
                    let id = add(&mut doc, &stack, name, attrs)?;
                    stack.push(id);
                    break;
                }
                if w == 0 {
                    return Err(format!("white space expected at offset {}", p.at));
                }
                let an = p.name()?;
                p.ws();
                if !p.eat("=") {
                    return Err("= expected".into());
                }
                p.ws();
                let q = if p.eat("\"") {
                    '"'
                } else if p.eat("'") {
                    '\''
                } else {
                    return Err("quote expected".into());
                };
                let mut v = String::new();
                loop {
                    let c = match p.rest().chars().next() {
                        Some(c) => c,
                        None => return Err("open attribute".into()),
                    };
                    p.at += c.len_utf8();
                    match c {
                        c if c == q => break,
                        '<' => return Err("< in an attribute".into()),
                        '&' => v.push(p.reference()?),
                        '\r' => {
                            p.eat("\n");
                            v.push(' ');
                        }
                        '\n' | '\t' => v.push(' '),
                        c if legal(c) => v.push(c),
                        c => return Err(format!("illegal character U+{:04X}", c as u32)),
                    }
                }
                if attrs.iter().any(|a| a.0 == an) {
                    return Err(format!("attribute {} twice", an));
                }
                attrs.push((an, v));
            }
        } else if p.eat("&") {
            let c = p.reference()?;
            match stack.last() {
                Some(&top) => push_text(&mut doc.nodes[top], c.encode_utf8(&mut [0; 4])),
                None => return Err("reference outside the root".into()),
            }
        } else {
            let r = p.rest();
            let n = r.find(['<', '&']).unwrap_or(r.len());
            let t = norm(&r[..n])?;
            if t.contains("]]>") {
                return Err("]]> in text".into());
            }
            p.at += n;
            match stack.last() {
                Some(&top) => push_text(&mut doc.nodes[top], &t),
                None if t.trim_matches([' ', '\t', '\n']).is_empty() => {}
                None => return Err("text outside the root".into()),
            }
        }
    }
    if !stack.is_empty() || !done {
        return Err("document is incomplete".into());
    }
    Ok(doc)
}

fn add(
    doc: &mut Doc,
    stack: &[usize],
    name: String,
    attrs: Vec<(String, String)>,
) -> Result<usize, String> {
    let id = doc.nodes.len();
    doc.nodes.push(Node { name, attrs, kids: Vec::new(), raw_len: 0 });
    if let Some(&top) = stack.last() {
        doc.nodes[top].kids.push(Kid::El(id));
    }
    Ok(id)
}

fn push_text(n: &mut Node, t: &str) {
    n.raw_len += t.len();
    if let Some(Kid::Text(s)) = n.kids.last_mut() {
        s.push_str(t);
    } else {
        n.kids.push(Kid::Text(t.to_string()));
    }
}

impl Doc {
    pub fn kids<'a>(&'a self, n: usize) -> impl Iterator<Item = usize> + 'a {
        self.nodes[n].kids.iter().filter_map(|k| match k {
            Kid::El(i) => Some(*i),
            Kid::Text(_) => None,
        })
    }
    pub fn kid(&self, n: usize, name: &str) -> Option<usize> {
        self.kids(n).filter(|&k| self.nodes[k].name == name).last()
    }
    pub fn text(&self, n: usize) -> String {
        let mut s = String::new();
        for k in &self.nodes[n].kids {
            if let Kid::Text(t) = k {
                s.push_str(t);
            }
        }
        s
    }
    pub fn attr<'a>(&'a self, n: usize, name: &str) -> Option<&'a str> {
        self.nodes[n].attrs.iter().find(|a| a.0 == name).map(|a| a.1.as_str())
    }
}

//! Stand-in for elementtree 1.2: a small XML element tree.
use std::fmt;
use std::io::Read;

#[derive(Debug)]
pub enum Error {
    Io(std::io::Error),
    MalformedXml(String),
    Utf8(std::string::FromUtf8Error),
    UnexpectedEvent,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone, Default)]
pub struct Element {
    tag: String,
    attrs: Vec<(String, String)>,
    children: Vec<Element>,
    text: String,
    tail: String,
}

pub struct FindChildren<'a> {
    tag: String,
    it: std::slice::Iter<'a, Element>,
}
impl<'a> Iterator for FindChildren<'a> {
    type Item = &'a Element;
    fn next(&mut self) -> Option<&'a Element> {
        let tag = &self.tag;
        self.it.find(|e| &e.tag == tag)
    }
}

impl Element {
    pub fn from_reader<R: Read>(mut r: R) -> Result<Element, Error> {
        let mut bytes = vec![];
        r.read_to_end(&mut bytes).map_err(Error::Io)?;
        let text = String::from_utf8(bytes).map_err(Error::Utf8)?;
        Parser { s: text.as_bytes(), p: 0 }.document()
    }
    pub fn find_all<'a>(&'a self, tag: &str) -> FindChildren<'a> {
        FindChildren { tag: tag.to_string(), it: self.children.iter() }
    }
    pub fn find(&self, tag: &str) -> Option<&Element> {
        self.children.iter().find(|e| e.tag == tag)
    }
    pub fn children(&self) -> std::slice::Iter<'_, Element> {
        self.children.iter()
    }
    pub fn get_attr(&self, name: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == name).map(|(_, v)| v.as_str())
    }
    pub fn text(&self) -> &str {
        &self.text
    }
    pub fn tail(&self) -> &str {
        &self.tail
    }
    pub fn tag(&self) -> &str {
        &self.tag
    }
}

struct Parser<'a> {
    s: &'a [u8],
    p: usize,
}
impl<'a> Parser<'a> {
    fn err<T>(&self, m: &str) -> Result<T, Error> {
        Err(Error::MalformedXml(format!("{m} at byte {}", self.p)))
    }
    fn starts(&self, t: &str) -> bool {
        self.s[self.p..].starts_with(t.as_bytes())
    }
    fn skip_past(&mut self, t: &str) -> Result<(), Error> {
        match self.s[self.p..].windows(t.len()).position(|w| w == t.as_bytes()) {
            Some(n) => {
                self.p += n + t.len();
                Ok(())
            }
            None => self.err("unterminated markup"),
        }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && self.s[self.p].is_ascii_whitespace() {
            self.p += 1;
        }
    }
    fn misc(&mut self) -> Result<(), Error> {
        loop {
            self.ws();
            if self.starts("<?") {
                self.skip_past("?>")?;
            } else if self.starts("<!--") {
                self.skip_past("-->")?;
            } else if self.starts("<!") {
                self.skip_past(">")?;
            } else {
                return Ok(());
            }
        }
    }
    fn document(&mut self) -> Result<Element, Error> {
        if self.starts("\u{feff}") {
            self.p += 3;
        }
        self.misc()?;
        let e = self.element()?;
        self.misc()?;
        if self.p != self.s.len() {
            return self.err("content after the root element");
        }
        Ok(e)
    }
    fn name(&mut self) -> Result<String, Error> {
        let b = self.p;
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c.is_ascii_whitespace() || matches!(c, b'=' | b'>' | b'/' | b'<' | b'"' | b'\'') {
                break;
            }
            self.p += 1;
        }
        if b == self.p {
            return self.err("expected a name");
        }
        Ok(String::from_utf8_lossy(&self.s[b..self.p]).into_owned())
    }
    fn element(&mut self) -> Result<Element, Error> {
        if self.s.get(self.p) != Some(&b'<') {
            return self.err("expected an element");
        }
        self.p += 1;
        let mut e = Element { tag: self.name()?, ..Default::default() };
        loop {
            self.ws();
            match self.s.get(self.p) {
                Some(b'/') if self.starts("/>") => {
                    self.p += 2;
                    return Ok(e);
                }
                Some(b'>') => {
                    self.p += 1;
                    break;
                }
                Some(_) => {
                    let k = self.name()?;
                    self.ws();
                    if self.s.get(self.p) != Some(&b'=') {
                        return self.err("expected =");
                    }
                    self.p += 1;
                    self.ws();
                    let q = match self.s.get(self.p) {
                        Some(q @ (b'"' | b'\'')) => *q,
                        _ => return self.err("expected a quote"),
                    };
                    self.p += 1;
                    let b = self.p;
                    while self.p < self.s.len() && self.s[self.p] != q {
                        self.p += 1;
                    }
                    if self.p == self.s.len() {
                        return self.err("unterminated attribute");
                    }
                    let v = self.unescape(b, self.p)?;
                    self.p += 1;
                    e.attrs.push((k, v));
                }
                None => return self.err("unterminated tag"),
            }
        }
        loop {
            let b = self.p;
            while self.p < self.s.len() && self.s[self.p] != b'<' {
                self.p += 1;
            }
            let t = self.unescape(b, self.p)?;
            match e.children.last_mut() {
                Some(c) => c.tail.push_str(&t),
                None => e.text.push_str(&t),
            }
            if self.p == self.s.len() {
                return self.err("unterminated element");
            }
            if self.starts("</") {
                self.p += 2;
                let n = self.name()?;
                if n != e.tag {
                    return self.err("mismatched end tag");
                }
                self.ws();
                if self.s.get(self.p) != Some(&b'>') {
                    return self.err("bad end tag");
                }
                self.p += 1;
                return Ok(e);
            } else if self.starts("<!--") {
                self.skip_past("-->")?;
            } else if self.starts("<![CDATA[") {
                self.p += 9;
                let b = self.p;
                self.skip_past("]]>")?;
                let t = String::from_utf8_lossy(&self.s[b..self.p - 3]).into_owned();
                match e.children.last_mut() {
                    Some(c) => c.tail.push_str(&t),
                    None => e.text.push_str(&t),
                }
            } else if self.starts("<?") {
                self.skip_past("?>")?;
            } else {
                let c = self.element()?;
                e.children.push(c);
            }
        }
    }
    fn unescape(&self, b: usize, e: usize) -> Result<String, Error> {
        let raw = String::from_utf8_lossy(&self.s[b..e]).into_owned();
        if !raw.contains('&') {
            return Ok(raw);
        }
        let mut out = String::new();
        let mut rest = raw.as_str();
        while let Some(i) = rest.find('&') {
            out.push_str(&rest[..i]);
            let end = match rest[i..].find(';') {
                Some(n) => i + n,
                None => return self.err("bad entity"),
            };
            let ent = &rest[i + 1..end];
            match ent {
                "lt" => out.push('<'),
                "gt" => out.push('>'),
                "amp" => out.push('&'),
                "quot" => out.push('"'),
                "apos" => out.push('\''),
                _ => {
                    let n = if let Some(h) = ent.strip_prefix("#x") {
                        u32::from_str_radix(h, 16).ok()
                    } else if let Some(d) = ent.strip_prefix('#') {
                        d.parse().ok()
                    } else {
                        None
                    };
                    match n.and_then(char::from_u32) {
                        Some(c) => out.push(c),
                        None => return self.err("unknown entity"),
                    }
                }
            }
            rest = &rest[end + 1..];
        }
        out.push_str(rest);
        Ok(out)
    }
}

use lib_ruby_parser::Loc;

/// Canonical dump of an AST: `x` is the structure (every non-location field of every node, in
/// declaration order), `locs` every location as (node type, field, begin, end).
#[derive(Default)]
pub struct Out {
    pub x: String,
    pub locs: Vec<(&'static str, &'static str, usize, usize)>,
    pub want_locs: bool,
}

pub fn esc(bytes: &[u8], o: &mut String) {
    for b in bytes {
        match b {
            b'\\' | b'\'' | 0..=0x1f | 0x7f..=0xff => o.push_str(&format!("\\x{:02x}", b)),
            _ => o.push(*b as char),
        }
    }
}

impl Out {
    pub fn open(&mut self, v: &str) {
        self.x.push_str(v);
        self.x.push('(');
    }
    pub fn close(&mut self) {
        self.x.push(')');
    }
    pub fn sep(&mut self) {
        self.x.push(' ');
    }
    pub fn nil(&mut self) {
        self.x.push('-');
    }
    pub fn lopen(&mut self) {
        self.x.push('[');
    }
    pub fn lclose(&mut self) {
        self.x.push(']');
    }
    pub fn num(&mut self, n: usize) {
        self.x.push_str(&n.to_string());
    }
    pub fn str(&mut self, b: &[u8]) {
        self.x.push('\'');
        esc(b, &mut self.x);
        self.x.push('\'');
    }
    pub fn loc(&mut self, v: &'static str, f: &'static str, l: &Loc) {
        if self.want_locs {
            self.locs.push((v, f, l.begin, l.end));
        }
    }
}

//! Turns the schema model into proto3 text, plainly or with arbitrary layout.

use crate::schema::*;
use crate::tape::Source;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Last {
    Start,
    Word,
    Punct,
}

/// What the layout may do besides the tokens the model asks for.
#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// Random white space and comments between tokens.
    pub trivia: bool,
    /// No white space at all where none is needed.
    pub squeeze: bool,
    /// Radix of integers, quotes, escapes.
    pub literals: bool,
    /// Empty statements, imports, reserved declarations, file, message and enum options.
    pub noise: bool,
    /// Only what protoc accepts without further declarations.
    pub protoc: bool,
}

pub const WILD: Style = Style { trivia: true, squeeze: false, literals: true, noise: true, protoc: false };
pub const PLAIN: Style = Style { trivia: false, squeeze: false, literals: false, noise: false, protoc: false };

struct Writer<'a> {
    out: String,
    last: Last,
    style: Style,
    src: &'a mut Source,
    noise_names: u32,
}

pub fn plain(fs: &FileSet) -> Vec<String> {
    let mut s = Source::replay(vec![]);
    fs.files.iter().map(|f| render(f, &mut s, PLAIN)).collect()
}

pub fn wild(fs: &FileSet, src: &mut Source) -> Vec<String> {
    fs.files.iter().map(|f| render(f, src, WILD)).collect()
}

/// Any style: each kind of freedom is used or not.
pub fn any_style(src: &mut Source) -> Style {
    let trivia = src.chance(80);
    Style {
        trivia,
        squeeze: trivia && src.chance(20),
        literals: src.bool(),
        noise: src.bool(),
        protoc: false,
    }
}

pub fn styled(fs: &FileSet, src: &mut Source, style: Style) -> Vec<String> {
    fs.files.iter().map(|f| render(f, src, style)).collect()
}

/// Usually plain (cheap), sometimes wild.
pub fn mixed(fs: &FileSet, src: &mut Source) -> Vec<String> {
    if src.chance(20) {
        wild(fs, src)
    } else {
        plain(fs)
    }
}

pub fn render(f: &FileDecl, src: &mut Source, style: Style) -> String {
    let mut w = Writer { out: String::new(), last: Last::Start, style, src, noise_names: 0 };
    w.file(f);
    w.out
}

/// Any text without line breaks or anything that ends a comment.
fn comment_text(src: &mut Source, block: bool) -> String {
    let n = src.below(12);
    let mut s = String::new();
    for _ in 0..n {
        match src.weighted(&[40, 20, 20, 20]) {
            0 => s.push((b'a' + src.draw(26) as u8) as char),
            1 => s.push(*src.pick(&[
                ' ', '\t', '"', '\'', ';', '{', '}', '=', '/', '*', '\\', '\r', '<', '0', '(',
            ])),
            2 => s.push_str(src.pick(&["//", "message A {", "syntax", "\u{feff}", "é", "*", "** "])),
            _ => s.push(random_char(src)),
        }
    }
    s = s.replace('\n', " ");
    if block {
        // Neither an end nor (protoc rejects it) a nested start; also not with the delimiters.
        s = s.replace("*/", "* ").replace("/*", "/ ");
        while s.starts_with('/') {
            s.remove(0);
        }
        while s.ends_with('*') || s.ends_with('/') {
            s.pop();
        }
        s = s.replace("*/", "* ").replace("/*", "/ ");
        if src.chance(20) {
            s.push('\n');
        }
        if src.chance(20) {
            s.insert(0, '*');
            if src.chance(50) {
                s.push('*');
            }
        }
    }
    s
}

impl<'a> Writer<'a> {
    fn trivia(&mut self, required: bool) {
        if !self.style.trivia {
            if required {
                self.out.push(' ');
            }
            return;
        }
        if self.style.squeeze {
            if required {
                self.out.push_str(self.src.pick(&[" ", "\n", "/**/", "\t", "//\n"]));
            }
            return;
        }
        let mut any = false;
        let n = self.src.weighted(&[50, 35, 10, 5]);
        let n = if required && n == 0 { 1 } else { n };
        for _ in 0..n {
            any = true;
            match self.src.weighted(&[45, 20, 8, 8, 5, 7, 7]) {
                0 => self.out.push(' '),
                1 => self.out.push('\n'),
                2 => self.out.push('\t'),
                3 => self.out.push_str("\r\n"),
                4 => self.out.push('\r'),
                5 => {
                    let t = comment_text(self.src, false);
                    self.out.push_str("//");
                    self.out.push_str(&t);
                    self.out.push('\n');
                }
                _ => {
                    let t = comment_text(self.src, true);
                    self.out.push_str("/*");
                    self.out.push_str(&t);
                    self.out.push_str("*/");
                }
            }
        }
        debug_assert!(any || !required);
    }

    /// A token made of letters, digits or quotes.
    fn word(&mut self, s: &str) {
        let required = self.last == Last::Word;
        if self.last != Last::Start {
            self.trivia(required);
        }
        self.out.push_str(s);
        self.last = Last::Word;
    }

    fn punct(&mut self, s: &str) {
        if self.style.trivia {
            self.trivia(false);
        } else if s != ";" && s != "," && self.last == Last::Word && !s.starts_with('.') {
            self.out.push(' ');
        }
        self.out.push_str(s);
        if !self.style.trivia {
            if s == ";" || s == "{" || s == "}" {
                self.out.push('\n');
            } else if s == "=" || s == "," {
                self.out.push(' ');
            }
        }
        self.last = Last::Punct;
    }

    fn path(&mut self, parts: &[String]) {
        for (i, p) in parts.iter().enumerate() {
            if i > 0 {
                self.punct(".");
            }
            self.word(p);
        }
    }

    fn string_lit(&mut self, s: &str) {
        self.bytes_lit(s.as_bytes());
    }

    fn bytes_lit(&mut self, bytes: &[u8]) {
        let lit = if self.style.literals {
            string_literal(bytes, self.src)
        } else {
            string_literal(bytes, &mut Source::replay(vec![]))
        };
        self.word(&lit);
    }

    fn magnitude(&mut self, v: u64) {
        let s = if self.style.literals { int_literal(v, self.src) } else { v.to_string() };
        self.word(&s);
    }

    fn int(&mut self, v: i64, plus: bool) {
        if v < 0 {
            self.punct("-");
        } else if plus && self.style.literals && self.src.chance(10) {
            self.punct("+");
        }
        self.magnitude(v.unsigned_abs());
    }

    fn file(&mut self, f: &FileDecl) {
        if self.style.noise && self.src.chance(10) {
            self.out.push('\u{feff}');
        }
        if self.style.trivia && self.src.chance(30) {
            self.trivia(false);
        }
        self.word("syntax");
        self.punct("=");
        let q = if self.style.literals && self.src.bool() { "'proto3'" } else { "\"proto3\"" };
        self.word(q);
        self.punct(";");
        // The package statement may stand anywhere at the top level.
        let package_at = if self.style.noise && self.src.chance(20) {
            self.src.below(f.items.len() + 1)
        } else {
            0
        };
        for i in 0..=f.items.len() {
            self.noise_top();
            if i == package_at {
                if let Some(p) = &f.package {
                    self.word("package");
                    self.path(p);
                    self.punct(";");
                    self.noise_top();
                }
            }
            if i < f.items.len() {
                match &f.items[i] {
                    Item::Message(m) => self.message(m),
                    Item::Enum(e) => self.enumeration(e),
                    Item::Service(s) => self.service(s),
                }
            }
        }
        if self.style.trivia {
            self.trivia(false);
            if self.src.chance(5) {
                let t = comment_text(self.src, false);
                self.out.push_str("//");
                self.out.push_str(&t);
            }
        }
    }

    fn noise_top(&mut self) {
        if !self.style.noise {
            return;
        }
        while self.src.chance(12) {
            match self.src.weighted(&[40, 30, 30]) {
                0 => self.punct(";"),
                1 if !self.style.protoc => {
                    self.word("import");
                    match self.src.draw(4) {
                        0 => self.word("weak"),
                        1 => self.word("public"),
                        _ => {}
                    }
                    self.string_lit("some/other file.proto");
                    self.punct(";");
                }
                2 => self.noise_option(),
                _ => {}
            }
        }
    }

    fn noise_option(&mut self) {
        if self.style.protoc {
            return;
        }
        let o = Gen::new(self.src, Cfg::default()).option();
        self.option_statement(&o);
    }

    fn noise_message(&mut self) {
        if !self.style.noise {
            return;
        }
        while self.src.chance(8) {
            match self.src.weighted(&[40, 35, 25]) {
                0 => self.punct(";"),
                1 => self.reserved(false),
                _ => self.noise_option(),
            }
        }
    }

    fn noise_enum(&mut self) {
        if !self.style.noise {
            return;
        }
        while self.src.chance(8) {
            match self.src.weighted(&[50, 25, 25]) {
                0 => self.punct(";"),
                1 => self.reserved(true),
                _ => self.noise_option(),
            }
        }
    }

    fn noise_empty(&mut self) {
        if !self.style.noise {
            return;
        }
        while self.src.chance(10) {
            self.punct(";");
        }
    }

    fn reserved(&mut self, in_enum: bool) {
        self.word("reserved");
        if self.src.bool() {
            let n = self.src.range(1, 3);
            for i in 0..n {
                if i > 0 {
                    self.punct(",");
                }
                self.noise_names += 1;
                let name = format!("reserved_name_{}", self.noise_names);
                self.string_lit(&name);
            }
        } else {
            // Numbers no generated declaration of the legal range around 19000 uses.
            let n = self.src.range(1, 3);
            for i in 0..n {
                if i > 0 {
                    self.punct(",");
                }
                self.noise_names += 1;
                let base = 19_000 + (self.noise_names as u64 * 10);
                if in_enum && self.src.chance(30) && !self.style.protoc {
                    self.punct("-");
                    self.magnitude(base + 5);
                } else {
                    self.magnitude(base);
                }
                if self.src.chance(50) {
                    self.word("to");
                    if !self.style.protoc && i + 1 == n && self.src.chance(30) {
                        self.word("max");
                    } else {
                        self.magnitude(base + 5);
                    }
                }
            }
        }
        self.punct(";");
    }

    fn message(&mut self, m: &Msg) {
        self.word("message");
        self.word(&m.name);
        self.punct("{");
        for mem in &m.members {
            self.noise_message();
            match mem {
                Member::Field(f) => self.field(f),
                Member::Oneof(o) => {
                    self.word("oneof");
                    self.word(&o.name);
                    self.punct("{");
                    let mut opts = o.opts.iter();
                    for f in &o.fields {
                        if !self.style.protoc {
                        self.noise_empty();
                    }
                        // Options may stand between the fields.
                        while opts.len() > 0 && (!self.style.noise || self.src.chance(60)) {
                            self.option_statement(opts.next().unwrap());
                        }
                        self.field(f);
                    }
                    for o in opts {
                        self.option_statement(o);
                    }
                    if !self.style.protoc {
                        self.noise_empty();
                    }
                    self.punct("}");
                }
                Member::Message(n) => self.message(n),
                Member::Enum(e) => self.enumeration(e),
            }
        }
        self.noise_message();
        self.punct("}");
    }

    fn ty(&mut self, t: &Ty) {
        match t {
            Ty::Scalar(s) => self.word(s.name()),
            Ty::Ref(r) => self.type_ref(r),
        }
    }

    fn type_ref(&mut self, r: &Ref) {
        if r.absolute {
            if !self.style.trivia && self.last == Last::Word {
                self.out.push(' ');
            }
            self.punct(".");
        }
        self.path(&r.parts);
    }

    fn field(&mut self, f: &Field) {
        match f.label {
            Label::Single => {}
            Label::Optional => self.word("optional"),
            Label::Repeated => self.word("repeated"),
        }
        self.ty(&f.ty);
        self.word(&f.name);
        self.punct("=");
        self.magnitude(f.number);
        self.bracket_options(&f.opts);
        self.punct(";");
    }

    fn bracket_options(&mut self, opts: &[Opt]) {
        if opts.is_empty() {
            return;
        }
        self.punct("[");
        for (i, o) in opts.iter().enumerate() {
            if i > 0 {
                self.punct(",");
            }
            self.option_body(o);
        }
        self.punct("]");
    }

    fn option_statement(&mut self, o: &Opt) {
        self.word("option");
        self.option_body(o);
        self.punct(";");
    }

    fn option_body(&mut self, o: &Opt) {
        if o.paren {
            self.punct("(");
            self.path(&o.first);
            self.punct(")");
        } else {
            self.path(&o.first);
        }
        for r in &o.rest {
            self.punct(".");
            self.word(r);
        }
        self.punct("=");
        self.constant(&o.value);
    }

    fn constant(&mut self, c: &Const) {
        match c {
            Const::Ident(p) => self.path(p),
            Const::Int(v) => self.int(*v, true),
            Const::Float(sign, text) => {
                if let Some(s) = sign {
                    self.punct(&s.to_string());
                }
                self.word(text);
            }
            Const::Str(b) => self.bytes_lit(b),
            Const::Bool(b) => self.word(if *b { "true" } else { "false" }),
        }
    }

    fn enumeration(&mut self, e: &EnumDecl) {
        self.word("enum");
        self.word(&e.name);
        self.punct("{");
        let mut seen = std::collections::BTreeSet::new();
        if self.style.protoc && e.values.iter().any(|v| !seen.insert(v.value)) {
            self.option_statement(&simple_opt("allow_alias", Const::Bool(true)));
        }
        for v in &e.values {
            self.noise_enum();
            self.word(&v.name);
            self.punct("=");
            self.int(v.value, false);
            self.bracket_options(&v.opts);
            self.punct(";");
        }
        self.noise_enum();
        self.punct("}");
    }

    fn service(&mut self, s: &SvcDecl) {
        self.word("service");
        self.word(&s.name);
        self.punct("{");
        let mut opts = s.opts.iter();
        for r in &s.rpcs {
            self.noise_empty();
            while opts.len() > 0 && (!self.style.noise || self.src.chance(60)) {
                self.option_statement(opts.next().unwrap());
            }
            self.word("rpc");
            self.word(&r.name);
            self.punct("(");
            if r.input_stream {
                self.word("stream");
            }
            self.type_ref(&r.input);
            self.punct(")");
            self.word("returns");
            self.punct("(");
            if r.output_stream {
                self.word("stream");
            }
            self.type_ref(&r.output);
            self.punct(")");
            if r.opts.is_empty() && !(self.style.noise && self.src.chance(25)) {
                self.punct(";");
            } else {
                self.punct("{");
                for o in &r.opts {
                    self.noise_empty();
                    self.option_statement(o);
                }
                self.noise_empty();
                self.punct("}");
            }
        }
        for o in opts {
            self.option_statement(o);
        }
        self.noise_empty();
        self.punct("}");
    }
}

pub fn int_literal(v: u64, src: &mut Source) -> String {
    match src.weighted(&[60, 20, 20]) {
        0 if v != 0 => v.to_string(),
        0 => "0".to_string(),
        1 => {
            let zeros = "0".repeat(src.below(3));
            let x = if src.bool() { "x" } else { "X" };
            if src.bool() {
                format!("0{}{}{:x}", x, zeros, v)
            } else {
                format!("0{}{}{:X}", x, zeros, v)
            }
        }
        _ => {
            let zeros = "0".repeat(src.below(3));
            format!("0{}{:o}", zeros, v)
        }
    }
}

/// A string literal for the bytes, with quotes and escapes as the source decides.
pub fn string_literal(bytes: &[u8], src: &mut Source) -> String {
    let quote = if src.bool() { '\'' } else { '"' };
    let mut out = String::new();
    out.push(quote);
    let mut i = 0;
    // Set when the previous piece was an octal escape that would swallow a following digit.
    let mut open_octal = false;
    while i < bytes.len() {
        let b = bytes[i];
        // A whole UTF-8 character may be written as it is.
        let raw = raw_char(&bytes[i..]).filter(|c| {
            *c != '\0' && *c != '\n' && *c != '\\' && *c != quote
        });
        let choice = src.weighted(&[60, 15, 15, 10]);
        if let (0, Some(c)) = (choice, raw) {
            if !(open_octal && c.is_digit(8)) {
                out.push(c);
                i += c.len_utf8();
                open_octal = false;
                continue;
            }
        }
        let simple = match b {
            7 => Some('a'),
            8 => Some('b'),
            12 => Some('f'),
            10 => Some('n'),
            13 => Some('r'),
            9 => Some('t'),
            11 => Some('v'),
            b'\\' => Some('\\'),
            b'\'' => Some('\''),
            b'"' => Some('"'),
            _ => None,
        };
        open_octal = false;
        match (choice, simple) {
            (0, Some(e)) | (1, Some(e)) => {
                out.push('\\');
                out.push(e);
            }
            (2, _) => {
                let short = src.bool();
                if short && b < 0o100 {
                    out.push_str(&format!("\\{:o}", b));
                    open_octal = true;
                } else {
                    out.push_str(&format!("\\{:03o}", b));
                }
            }
            _ => {
                let x = if src.bool() { 'X' } else { 'x' };
                if src.bool() {
                    out.push_str(&format!("\\{}{:02X}", x, b));
                } else {
                    out.push_str(&format!("\\{}{:02x}", x, b));
                }
            }
        }
        i += 1;
    }
    out.push(quote);
    out
}

fn raw_char(bytes: &[u8]) -> Option<char> {
    for n in 1..=4.min(bytes.len()) {
        if let Ok(s) = std::str::from_utf8(&bytes[..n]) {
            return s.chars().next();
        }
    }
    None
}

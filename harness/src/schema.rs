//! Model of a set of proto3 files: syntax tree, generator, reference name resolution.

use crate::tape::Source;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Scalar {
    Int32,
    Int64,
    UInt32,
    UInt64,
    SInt32,
    SInt64,
    Fixed32,
    Fixed64,
    SFixed32,
    SFixed64,
    Bool,
    Float,
    Double,
    String,
    Bytes,
}

use Scalar::*;

pub const SCALARS: [Scalar; 15] = [
    Int32, Int64, UInt32, UInt64, SInt32, SInt64, Fixed32, Fixed64, SFixed32, SFixed64, Bool, Float,
    Double, String, Bytes,
];

pub const NUMERIC: [Scalar; 13] = [
    Int32, Int64, UInt32, UInt64, SInt32, SInt64, Fixed32, Fixed64, SFixed32, SFixed64, Bool, Float,
    Double,
];

impl Scalar {
    pub fn name(self) -> &'static str {
        match self {
            Int32 => "int32",
            Int64 => "int64",
            UInt32 => "uint32",
            UInt64 => "uint64",
            SInt32 => "sint32",
            SInt64 => "sint64",
            Fixed32 => "fixed32",
            Fixed64 => "fixed64",
            SFixed32 => "sfixed32",
            SFixed64 => "sfixed64",
            Bool => "bool",
            Float => "float",
            Double => "double",
            String => "string",
            Bytes => "bytes",
        }
    }
    pub fn wire_type(self) -> u8 {
        match self {
            Int32 | Int64 | UInt32 | UInt64 | SInt32 | SInt64 | Bool => 0,
            Fixed64 | SFixed64 | Double => 1,
            String | Bytes => 2,
            Fixed32 | SFixed32 | Float => 5,
        }
    }
    pub fn is_varint(self) -> bool {
        self.wire_type() == 0
    }
    pub fn packable(self) -> bool {
        self.wire_type() != 2
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Message,
    Enum,
    Service,
}

/// A written type reference and the declaration it denotes.
#[derive(Clone, Debug)]
pub struct Ref {
    pub absolute: bool,
    pub parts: Vec<std::string::String>,
    pub target: std::string::String,
    pub kind: Kind,
}

impl Ref {
    pub fn spelling(&self) -> std::string::String {
        format!("{}{}", if self.absolute { "." } else { "" }, self.parts.join("."))
    }
}

#[derive(Clone, Debug)]
pub enum Ty {
    Scalar(Scalar),
    Ref(Ref),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Label {
    Single,
    Optional,
    Repeated,
}

#[derive(Clone, Debug)]
pub enum Const {
    Ident(Vec<std::string::String>),
    Int(i64),
    /// Sign and literal without sign, e.g. `1.5e3` or `inf`.
    Float(Option<char>, std::string::String),
    Str(Vec<u8>),
    Bool(bool),
}

#[derive(Clone, Debug)]
pub struct Opt {
    /// True: the first part is written in parentheses.
    pub paren: bool,
    pub first: Vec<std::string::String>,
    pub rest: Vec<std::string::String>,
    pub value: Const,
}

impl Opt {
    pub fn name(&self) -> std::string::String {
        let first = self.first.join(".");
        let mut s = if self.paren { format!("({})", first) } else { first };
        for r in &self.rest {
            s.push('.');
            s.push_str(r);
        }
        s
    }
}

#[derive(Clone, Debug)]
pub struct Field {
    pub label: Label,
    pub ty: Ty,
    pub name: std::string::String,
    pub number: u64,
    pub opts: Vec<Opt>,
}

#[derive(Clone, Debug)]
pub struct OneofDecl {
    pub name: std::string::String,
    pub fields: Vec<Field>,
    pub opts: Vec<Opt>,
}

#[derive(Clone, Debug)]
pub enum Member {
    Field(Field),
    Oneof(OneofDecl),
    Message(Msg),
    Enum(EnumDecl),
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub name: std::string::String,
    pub members: Vec<Member>,
}

#[derive(Clone, Debug)]
pub struct EnumValueDecl {
    pub name: std::string::String,
    pub value: i64,
    pub opts: Vec<Opt>,
}

#[derive(Clone, Debug)]
pub struct EnumDecl {
    pub name: std::string::String,
    pub values: Vec<EnumValueDecl>,
}

#[derive(Clone, Debug)]
pub struct RpcDecl {
    pub name: std::string::String,
    pub input: Ref,
    pub input_stream: bool,
    pub output: Ref,
    pub output_stream: bool,
    pub opts: Vec<Opt>,
}

#[derive(Clone, Debug)]
pub struct SvcDecl {
    pub name: std::string::String,
    pub rpcs: Vec<RpcDecl>,
    pub opts: Vec<Opt>,
}

#[derive(Clone, Debug)]
pub enum Item {
    Message(Msg),
    Enum(EnumDecl),
    Service(SvcDecl),
}

#[derive(Clone, Debug)]
pub struct FileDecl {
    pub package: Option<Vec<std::string::String>>,
    pub items: Vec<Item>,
}

impl FileDecl {
    pub fn package_path(&self) -> Vec<std::string::String> {
        self.package.clone().unwrap_or_default()
    }
}

#[derive(Clone, Debug, Default)]
pub struct FileSet {
    pub files: Vec<FileDecl>,
}

pub fn join(path: &[std::string::String], name: &str) -> std::string::String {
    if path.is_empty() {
        name.to_string()
    } else {
        format!("{}.{}", path.join("."), name)
    }
}

// ------------------------------------------------------------------------------------------
// Symbols and reference resolution
// ------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sym {
    Package,
    Message,
    Enum,
    Service,
    /// Fields, oneofs, enum values, rpcs: names that are not types.
    Other,
}

#[derive(Clone, Debug, Default)]
pub struct Symbols {
    pub map: BTreeMap<std::string::String, Sym>,
}

impl Symbols {
    pub fn of(fs: &FileSet) -> Symbols {
        let mut s = Symbols::default();
        for f in &fs.files {
            let path = f.package_path();
            for i in 1..=path.len() {
                s.map.insert(path[..i].join("."), Sym::Package);
            }
        }
        for f in &fs.files {
            let path = f.package_path();
            for item in &f.items {
                match item {
                    Item::Message(m) => s.message(&path, m),
                    Item::Enum(e) => s.enumeration(&path, e),
                    Item::Service(v) => {
                        let full = join(&path, &v.name);
                        s.map.insert(full.clone(), Sym::Service);
                        for r in &v.rpcs {
                            s.map.insert(format!("{}.{}", full, r.name), Sym::Other);
                        }
                    }
                }
            }
        }
        s
    }

    fn message(&mut self, path: &[std::string::String], m: &Msg) {
        self.map.insert(join(path, &m.name), Sym::Message);
        let mut inner = path.to_vec();
        inner.push(m.name.clone());
        for mem in &m.members {
            match mem {
                Member::Field(f) => {
                    self.map.entry(join(&inner, &f.name)).or_insert(Sym::Other);
                }
                Member::Oneof(o) => {
                    self.map.entry(join(&inner, &o.name)).or_insert(Sym::Other);
                    for f in &o.fields {
                        self.map.entry(join(&inner, &f.name)).or_insert(Sym::Other);
                    }
                }
                Member::Message(m) => self.message(&inner, m),
                Member::Enum(e) => self.enumeration(&inner, e),
            }
        }
    }

    fn enumeration(&mut self, path: &[std::string::String], e: &EnumDecl) {
        self.map.insert(join(path, &e.name), Sym::Enum);
        for v in &e.values {
            self.map.entry(join(path, &v.name)).or_insert(Sym::Other);
        }
    }

    pub fn kind(&self, full: &str) -> Option<Kind> {
        match self.map.get(full)? {
            Sym::Message => Some(Kind::Message),
            Sym::Enum => Some(Kind::Enum),
            Sym::Service => Some(Kind::Service),
            _ => None,
        }
    }

    /// Resolves a reference written in `scope` (full path of the enclosing message or service)
    /// as the protobuf language specifies it: the innermost scope that knows the first part of
    /// the name decides. A service does not hide an outer type from a field, but it does from an
    /// rpc. None: not a valid reference there.
    pub fn resolve(
        &self,
        scope: &[std::string::String],
        absolute: bool,
        parts: &[std::string::String],
        rpc: bool,
    ) -> Option<std::string::String> {
        if absolute {
            let full = parts.join(".");
            return self.kind(&full).map(|_| full);
        }
        let mut service = None;
        for i in (0..=scope.len()).rev() {
            let first = join(&scope[..i], &parts[0]);
            let sym = match self.map.get(&first) {
                Some(s) => *s,
                None => continue,
            };
            if parts.len() == 1 {
                match sym {
                    Sym::Message | Sym::Enum => return Some(first),
                    Sym::Service if rpc => return Some(first),
                    Sym::Service => {
                        service = service.or(Some(first));
                        continue;
                    }
                    // A name that is no type does not hide an outer type from a field, but it
                    // does from an rpc; such spellings are never generated (see `usable`).
                    Sym::Other | Sym::Package => continue,
                }
            }
            match sym {
                Sym::Other => continue,
                _ => {
                    let full = join(&scope[..i], &parts.join("."));
                    return self.kind(&full).map(|_| full);
                }
            }
        }
        service
    }

    /// True if no name that is not a type is in the way of the reference, so that every reading
    /// of the scoping rules agrees.
    fn unobstructed(
        &self,
        scope: &[std::string::String],
        parts: &[std::string::String],
        target: &str,
    ) -> bool {
        for i in (0..=scope.len()).rev() {
            if join(&scope[..i], &parts.join(".")) == target {
                return true;
            }
            if parts.len() == 1 {
                if let Some(Sym::Other) = self.map.get(&join(&scope[..i], &parts[0])) {
                    return false;
                }
            }
        }
        false
    }

    /// All spellings of `target` that are valid in `scope`, in a field or in an rpc: (absolute,
    /// parts).
    pub fn spellings(
        &self,
        scope: &[std::string::String],
        target: &str,
        rpc: bool,
    ) -> Vec<(bool, Vec<std::string::String>)> {
        let path: Vec<std::string::String> = target.split('.').map(|s| s.to_string()).collect();
        let mut out = vec![];
        for start in (0..path.len()).rev() {
            let parts = path[start..].to_vec();
            if self.resolve(scope, false, &parts, rpc).as_deref() == Some(target)
                && !is_type_keyword(&parts[0])
                && (!rpc || self.unobstructed(scope, &parts, target))
            {
                out.push((false, parts));
            }
        }
        out.push((true, path));
        out
    }
}

/// Words that cannot start a (relative) type name where a statement or type is expected.
pub fn is_type_keyword(s: &str) -> bool {
    SCALARS.iter().any(|t| t.name() == s)
        || [
            "message", "enum", "service", "option", "oneof", "map", "reserved", "repeated",
            "optional", "required", "stream", "extend", "extensions", "group", "import", "package",
            "syntax", "rpc", "returns", "public", "weak",
        ]
        .contains(&s)
}

// ------------------------------------------------------------------------------------------
// Generator
// ------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_files: usize,
    pub max_items: usize,
    pub max_depth: usize,
    pub max_members: usize,
    pub services: bool,
    pub options: bool,
    /// Percentage of names taken from around the keywords of the language.
    pub weird_names: u64,
    /// Percentage of names taken from a tiny pool, so that scopes shadow each other.
    pub shadow: u64,
    pub aliases: bool,
    /// Every file has a package of its own.
    pub distinct_packages: bool,
    pub ref_percent: u64,
    pub max_package_parts: usize,
    /// Occasionally make something very long or very many.
    pub big: bool,
    /// Enum values outside int32.
    pub wide_enums: bool,
    /// Field numbers above the legal 2^29-1.
    pub wide_numbers: bool,
    /// NaN as an option value, which makes equal contexts compare unequal.
    pub nan: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            max_files: 3,
            max_items: 4,
            max_depth: 3,
            max_members: 7,
            services: true,
            options: true,
            weird_names: 10,
            shadow: 30,
            aliases: true,
            distinct_packages: false,
            ref_percent: 40,
            max_package_parts: 3,
            big: true,
            wide_enums: true,
            wide_numbers: false,
            nan: true,
        }
    }
}

const POOL: [&str; 8] = ["A", "B", "C", "a", "b", "Foo", "foo", "Bar"];

const KEYWORDS: [&str; 60] = [
    "syntax", "import", "weak", "public", "package", "option", "repeated", "optional", "oneof", "map",
    "reserved", "to", "max", "enum", "message", "service", "rpc", "stream", "returns", "true", "false",
    "inf", "nan", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
    "sfixed32", "sfixed64", "bool", "string", "bytes", "double", "float", "required", "extend",
    "extensions", "group", "default", "packed", "proto3", "e", "E", "x",
    "key", "value", "google", "protobuf", "Any", "Timestamp", "Entry", "deprecated", "descriptor",
    "Self", "None", "UNKNOWN",
];

const SUFFIXES: [&str; 18] =
    ["", "s", "X", "Value", "_", "1", "_of", "List", "64", "0x", "32Value", "Type",
     "Entry", "Request", "Response", "Map", "_UNSPECIFIED", "_id"];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum NameFor {
    Message,
    Enum,
    EnumValue,
    Field,
    Oneof,
    Service,
    Rpc,
    Package,
    Option,
}

pub struct Gen<'a> {
    pub src: &'a mut Source,
    pub cfg: Cfg,
    taken: BTreeSet<std::string::String>,
    budget: usize,
    /// Levels still to be added regardless of the budget.
    tower: usize,
}

pub fn random_ident(src: &mut Source) -> std::string::String {
    const FIRST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    const REST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
    let mut s = std::string::String::new();
    s.push(*src.pick(FIRST) as char);
    let n = src.below(8);
    for _ in 0..n {
        s.push(*src.pick(REST) as char);
    }
    s
}

/// An option that means something to other implementations.
pub fn known_option(src: &mut Source) -> Opt {
    let ident = |s: &str| Const::Ident(vec![s.to_string()]);
    let (name, value) = match src.below(12) {
        0 | 1 => ("deprecated", Const::Bool(true)),
        2 => ("deprecated", Const::Bool(false)),
        3 => ("lazy", Const::Bool(true)),
        4 => ("weak", Const::Bool(true)),
        5 => ("jstype", ident("JS_STRING")),
        6 => ("jstype", ident("JS_NUMBER")),
        7 => ("ctype", ident("CORD")),
        8 => ("json_name", Const::Str(b"name".to_vec())),
        9 => ("retention", ident("RETENTION_SOURCE")),
        10 => ("debug_redact", Const::Bool(true)),
        _ => ("default", Const::Int(1)),
    };
    simple_opt(name, value)
}

pub fn keyword_like(src: &mut Source) -> std::string::String {
    format!("{}{}", src.pick(&KEYWORDS), src.pick(&SUFFIXES))
}

impl<'a> Gen<'a> {
    pub fn new(src: &'a mut Source, cfg: Cfg) -> Self {
        Gen { src, cfg, taken: BTreeSet::new(), budget: 60, tower: 0 }
    }

    fn raw_name(&mut self, what: NameFor) -> std::string::String {
        let shadow = self.cfg.shadow;
        let weird = self.cfg.weird_names;
        let v = self.src.draw(100);
        let s = if v < shadow {
            self.src.pick(&POOL).to_string()
        } else if v < 100 - weird {
            random_ident(self.src)
        } else {
            keyword_like(self.src)
        };
        if self.cfg.big && self.src.one_in(400) {
            let n = *self.src.pick(&[63usize, 64, 127, 128, 255, 256, 300, 1000]);
            return format!("{}{}", s, "n".repeat(n));
        }
        // An enum value called exactly so could not be told from a statement.
        if what == NameFor::EnumValue && (s == "option" || s == "reserved") {
            return s + "_";
        }
        s
    }

    /// A name that is free in the scope.
    pub fn name(&mut self, what: NameFor, path: &[std::string::String]) -> std::string::String {
        let base = self.raw_name(what);
        let mut name = base.clone();
        let mut n = 1;
        while self.taken.contains(&join(path, &name)) {
            n += 1;
            name = format!("{}{}", base, n);
            // `x1` + `0` style collisions with other pool names are caught by the loop.
        }
        self.taken.insert(join(path, &name));
        name
    }

    pub fn file_set(&mut self) -> FileSet {
        let n_files = self.src.range(1, self.cfg.max_files);
        let mut files: Vec<FileDecl> = vec![];
        let mut used_packages: BTreeSet<Option<Vec<std::string::String>>> = BTreeSet::new();
        for _ in 0..n_files {
            let package = self.package(&mut used_packages);
            files.push(FileDecl { package, items: vec![] });
        }
        // Package names are symbols too.
        for f in &files {
            let p = f.package_path();
            for i in 1..=p.len() {
                self.taken.insert(p[..i].join("."));
            }
        }
        for i in 0..files.len() {
            let path = files[i].package_path();
            let mut n = self.src.range(1, self.cfg.max_items);
            if self.cfg.big && self.src.one_in(200) {
                n += *self.src.pick(&[10usize, 40, 150, 300]);
                self.budget += n;
            }
            for _ in 0..n {
                let item = self.item(&path);
                files[i].items.push(item);
            }
        }
        let mut fs = FileSet { files };
        self.fill(&mut fs);
        fs
    }

    fn package(
        &mut self,
        used: &mut BTreeSet<Option<Vec<std::string::String>>>,
    ) -> Option<Vec<std::string::String>> {
        let mut p = if self.cfg.max_package_parts > 0 && self.src.chance(75) {
            let mut n = self.src.range(1, self.cfg.max_package_parts);
            if self.cfg.big && self.src.one_in(150) {
                n = 12;
            }
            // Often extend or repeat an earlier package.
            let earlier: Vec<_> = used.iter().flatten().cloned().collect();
            let mut p = vec![];
            if !earlier.is_empty() && self.src.chance(50) {
                p = self.src.pick(&earlier).clone();
                if self.src.chance(30) {
                    let keep = self.src.range(1, p.len());
                    p.truncate(keep);
                }
                if self.src.chance(50) {
                    n = p.len() + 1;
                } else {
                    n = p.len();
                }
            }
            while p.len() < n {
                p.push(self.raw_name(NameFor::Package));
            }
            Some(p)
        } else {
            None
        };
        if self.cfg.distinct_packages {
            while used.contains(&p) {
                let mut q = p.clone().unwrap_or_default();
                q.push(format!("p{}", used.len()));
                p = Some(q);
            }
        }
        used.insert(p.clone());
        p
    }

    fn item(&mut self, path: &[std::string::String]) -> Item {
        let w: [u64; 3] = if self.cfg.services { [60, 20, 20] } else { [70, 30, 0] };
        match self.src.weighted(&w) {
            0 => Item::Message(self.message(path, 1)),
            1 => Item::Enum(self.enumeration(path)),
            _ => {
                let name = self.name(NameFor::Service, path);
                Item::Service(SvcDecl { name, rpcs: vec![], opts: vec![] })
            }
        }
    }

    /// Names and nesting; fields come in `fill` once all types are known.
    fn message(&mut self, path: &[std::string::String], depth: usize) -> Msg {
        let name = self.name(NameFor::Message, path);
        let mut inner = path.to_vec();
        inner.push(name.clone());
        let mut members = vec![];
        if depth == 1 && self.cfg.big && self.src.one_in(150) {
            // Far more levels than usual.
            self.tower = self.src.range(8, 48);
        }
        if self.tower > 0 {
            self.tower -= 1;
            members.push(Member::Message(self.message(&inner, depth + 1)));
        }
        if self.cfg.big && self.src.one_in(200) {
            // Far more inner types than usual.
            for _ in 0..self.src.range(10, 70) {
                if self.src.chance(30) {
                    members.push(Member::Enum(self.enumeration(&inner)));
                } else {
                    let name = self.name(NameFor::Message, &inner);
                    members.push(Member::Message(Msg { name, members: vec![] }));
                }
            }
        }
        if depth < self.cfg.max_depth {
            while self.budget > 0 && self.src.chance(40) {
                self.budget -= 1;
                if self.src.chance(30) {
                    members.push(Member::Enum(self.enumeration(&inner)));
                } else {
                    members.push(Member::Message(self.message(&inner, depth + 1)));
                }
            }
        }
        Msg { name, members }
    }

    fn enumeration(&mut self, path: &[std::string::String]) -> EnumDecl {
        let name = self.name(NameFor::Enum, path);
        let mut values: Vec<EnumValueDecl> = vec![];
        let mut n = self.src.range(1, 5);
        if self.cfg.big && self.src.one_in(100) {
            n = *self.src.pick(&[20usize, 130, 260]);
        }
        let mut seen = BTreeSet::new();
        for i in 0..n {
            let mut value = if i == 0 {
                0
            } else {
                match self.src.weighted(&[50, 30, 10, 10]) {
                    0 => i as i64,
                    1 => (self.src.int() as u32 as i32) as i64,
                    2 => *self.src.pick(&[-1i64, i32::MAX as i64, i32::MIN as i64]),
                    _ if self.cfg.wide_enums => self.src.int() as i64,
                    _ => -(i as i64),
                }
            };
            if seen.contains(&value) && !(self.cfg.aliases && self.src.chance(30)) {
                value = i as i64;
                while seen.contains(&value) {
                    value += 1;
                }
            }
            seen.insert(value);
            let name = self.name(NameFor::EnumValue, path);
            let opts = self.options(8);
            values.push(EnumValueDecl { name, value, opts });
        }
        EnumDecl { name, values }
    }

    // -- second pass ---------------------------------------------------------------------

    fn fill(&mut self, fs: &mut FileSet) {
        // The types are known now. Names of fields, oneofs and rpcs are chosen before the
        // references, because they take part in resolution.
        let mut skeleton = Symbols::of(fs);
        let mut types: Vec<(std::string::String, Kind)> = vec![];
        for (name, sym) in &skeleton.map {
            match sym {
                Sym::Message => types.push((name.clone(), Kind::Message)),
                Sym::Enum => types.push((name.clone(), Kind::Enum)),
                _ => {}
            }
        }
        for file in &mut fs.files {
            let path = file.package_path();
            for item in &mut file.items {
                match item {
                    Item::Message(m) => self.members(&path, m),
                    Item::Enum(_) => {}
                    Item::Service(s) => self.rpcs(&path, s),
                }
            }
        }
        let full = Symbols::of(fs);
        skeleton.map.extend(full.map);
        for file in &mut fs.files {
            let path = file.package_path();
            for item in &mut file.items {
                match item {
                    Item::Message(m) => self.refs_in_message(&path, m, &skeleton, &types),
                    Item::Enum(_) => {}
                    Item::Service(s) => self.refs_in_service(&path, s, &skeleton, &types),
                }
            }
        }
    }

    fn members(&mut self, path: &[std::string::String], m: &mut Msg) {
        let mut inner = path.to_vec();
        inner.push(m.name.clone());
        for mem in &mut m.members {
            if let Member::Message(n) = mem {
                self.members(&inner, n)
            }
        }
        let mut numbers = BTreeSet::new();
        let mut n = self.src.below(self.cfg.max_members + 1);
        if self.cfg.big && self.src.one_in(120) {
            n = *self.src.pick(&[20usize, 70, 140, 300]);
        }
        while n > 0 {
            let mem = if self.src.chance(15) {
                let name = self.name(NameFor::Oneof, &inner);
                let mut k = self.src.range(1, 4);
                if self.cfg.big && self.src.one_in(60) {
                    k = 40;
                }
                let fields = (0..k)
                    .map(|_| {
                        let mut f = self.field(&inner, &mut numbers);
                        f.label = Label::Single;
                        f
                    })
                    .collect();
                n = n.saturating_sub(k);
                let opts = self.options(10);
                Member::Oneof(OneofDecl { name, fields, opts })
            } else {
                n -= 1;
                let mut f = self.field(&inner, &mut numbers);
                f.label = match self.src.weighted(&[45, 40, 15]) {
                    0 => Label::Single,
                    1 => Label::Repeated,
                    _ => Label::Optional,
                };
                if f.label == Label::Repeated && self.src.chance(30) {
                    // Only numeric fields may say so; checked again once the type is known.
                    let value = Const::Bool(self.src.chance(40));
                    let at = self.src.below(f.opts.len() + 1);
                    f.opts.insert(at, simple_opt("packed", value));
                }
                Member::Field(f)
            };
            let at = m.members.len() - self.src.below(m.members.len() + 1);
            m.members.insert(at, mem);
        }
    }

    pub fn number(&mut self, numbers: &mut BTreeSet<u64>) -> u64 {
        let mut v = match self.src.weighted(&[50, 15, 15, 10, 5]) {
            0 => numbers.iter().next_back().map_or(1, |n| n + 1),
            1 => 1 + self.src.draw(40),
            2 => *self.src.pick(&[15u64, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911]),
            3 => 1 + (self.src.int() & 0x1fff_ffff),
            _ if self.cfg.wide_numbers => self.src.int() >> 3,
            _ => 536870911 - self.src.draw(4),
        };
        let max = if self.cfg.wide_numbers { u64::MAX >> 3 } else { 536870911 };
        while v == 0 || v > max || numbers.contains(&v) || (19000..20000).contains(&v) {
            v = if v >= max { 1 } else { v + 1 };
        }
        numbers.insert(v);
        v
    }

    fn field(&mut self, inner: &[std::string::String], numbers: &mut BTreeSet<u64>) -> Field {
        let name = self.name(NameFor::Field, inner);
        let number = self.number(numbers);
        let ty = Ty::Scalar(*self.src.pick(&SCALARS));
        let opts = self.options(15);
        Field { label: Label::Single, ty, name, number, opts }
    }

    fn rpcs(&mut self, path: &[std::string::String], s: &mut SvcDecl) {
        let mut inner = path.to_vec();
        inner.push(s.name.clone());
        s.opts = self.options(25);
        let mut n = self.src.below(5);
        if self.cfg.big && self.src.one_in(60) {
            n = 40;
        }
        for _ in 0..n {
            let name = self.name(NameFor::Rpc, &inner);
            let opts = self.options(25);
            let dummy =
                Ref { absolute: true, parts: vec![], target: std::string::String::new(), kind: Kind::Message };
            s.rpcs.push(RpcDecl {
                name,
                input: dummy.clone(),
                input_stream: self.src.chance(35),
                output: dummy,
                output_stream: self.src.chance(35),
                opts,
            });
        }
    }

    pub fn reference(
        &mut self,
        scope: &[std::string::String],
        symbols: &Symbols,
        candidates: &[(std::string::String, Kind)],
        strict: bool,
    ) -> Ref {
        // Prefer near types: candidates sharing the most of the scope shadow each other.
        let (target, kind) = self.src.pick(candidates).clone();
        let spellings = symbols.spellings(scope, &target, strict);
        let (absolute, parts) = self.src.pick(&spellings).clone();
        Ref { absolute, parts, target, kind }
    }

    fn refs_in_message(
        &mut self,
        path: &[std::string::String],
        m: &mut Msg,
        symbols: &Symbols,
        types: &[(std::string::String, Kind)],
    ) {
        let mut inner = path.to_vec();
        inner.push(m.name.clone());
        let percent = self.cfg.ref_percent;
        for mem in &mut m.members {
            match mem {
                Member::Field(f) => {
                    if self.src.chance(percent) {
                        f.ty = Ty::Ref(self.reference(&inner, symbols, types, false));
                    }
                    let packable = match &f.ty {
                        Ty::Scalar(s) => s.packable(),
                        Ty::Ref(r) => r.kind == Kind::Enum,
                    };
                    if !packable {
                        f.opts.retain(|o| o.name() != "packed");
                    }
                }
                Member::Oneof(o) => {
                    for f in &mut o.fields {
                        if self.src.chance(percent) {
                            f.ty = Ty::Ref(self.reference(&inner, symbols, types, false));
                        }
                    }
                }
                Member::Message(n) => self.refs_in_message(&inner, n, symbols, types),
                Member::Enum(_) => {}
            }
        }
    }

    fn refs_in_service(
        &mut self,
        path: &[std::string::String],
        s: &mut SvcDecl,
        symbols: &Symbols,
        types: &[(std::string::String, Kind)],
    ) {
        let mut scope = path.to_vec();
        scope.push(s.name.clone());
        let messages: Vec<_> = types.iter().filter(|t| t.1 == Kind::Message).cloned().collect();
        if messages.is_empty() {
            s.rpcs.clear();
            return;
        }
        for r in &mut s.rpcs {
            r.input = self.reference(&scope, symbols, &messages, true);
            r.output = self.reference(&scope, symbols, &messages, true);
        }
    }

    // -- options -------------------------------------------------------------------------

    pub fn options(&mut self, percent: u64) -> Vec<Opt> {
        let mut out = vec![];
        if !self.cfg.options {
            return out;
        }
        let mut p = percent;
        while out.len() < 6 && self.src.chance(p) {
            p = 50;
            if self.src.one_in(8) {
                out.push(known_option(self.src));
                continue;
            }
            let o = self.option();
            if o.name() != "packed" {
                out.push(o);
            }
        }
        out
    }

    fn opt_ident(&mut self) -> std::string::String {
        match self.src.weighted(&[60, 25, 15]) {
            0 => random_ident(self.src),
            1 => keyword_like(self.src),
            _ => self
                .src
                .pick(&[
                    "deprecated", "a", "foo", "json_name", "jstype", "unpacked", "packed_", "Packed",
                    "packed2", "packed",
                ])
                .to_string(),
        }
    }

    pub fn option(&mut self) -> Opt {
        let paren = self.src.chance(40);
        let mut first = vec![self.opt_ident()];
        if paren {
            while first.len() < 5 && self.src.chance(45) {
                first.push(self.opt_ident());
            }
        }
        let mut rest = vec![];
        while rest.len() < 4 && self.src.chance(30) {
            rest.push(self.opt_ident());
        }
        let value = self.constant();
        Opt { paren, first, rest, value }
    }

    pub fn constant(&mut self) -> Const {
        match self.src.weighted(&[20, 20, 25, 25, 10]) {
            0 => Const::Int(self.src.int() as i64),
            1 => Const::Bool(self.src.bool()),
            2 => Const::Str(self.string_bytes()),
            3 => {
                let (sign, text) = self.float_literal();
                Const::Float(sign, text)
            }
            _ => {
                let mut parts = vec![self.opt_ident()];
                while parts.len() < 4 && self.src.chance(35) {
                    parts.push(self.opt_ident());
                }
                // These words alone are other kinds of constants.
                if ["inf", "nan", "true", "false"].contains(&parts[0].as_str()) {
                    parts[0].push('_');
                }
                Const::Ident(parts)
            }
        }
    }

    pub fn float_literal(&mut self) -> (Option<char>, std::string::String) {
        let sign = *self.src.pick(&[None, Some('-'), Some('+')]);
        let text = match self.src.weighted(&[25, 15, 15, 15, 15, 5, 5, 5]) {
            0 => format!("{}.{}", self.int_digits(), self.digits()),
            1 => format!("{}.", self.int_digits()),
            2 => format!(".{}", self.digits()),
            3 => format!("{}{}", self.int_digits(), self.exponent()),
            4 => {
                let d = if self.src.bool() { self.digits() } else { std::string::String::new() };
                format!("{}.{}{}", self.int_digits(), d, self.exponent())
            }
            5 => format!(".{}{}", self.digits(), self.exponent()),
            6 => "inf".to_string(),
            _ if self.cfg.nan => "nan".to_string(),
            _ => "inf".to_string(),
        };
        (sign, text)
    }

    fn int_digits(&mut self) -> std::string::String {
        if self.src.chance(50) {
            let n = self.src.below(20);
            let mut s = (1 + self.src.draw(9)).to_string();
            for _ in 0..n {
                s.push((b'0' + self.src.draw(10) as u8) as char);
            }
            s
        } else {
            "0".to_string()
        }
    }

    fn digits(&mut self) -> std::string::String {
        let n = self.src.range(1, 12);
        (0..n).map(|_| (b'0' + self.src.draw(10) as u8) as char).collect()
    }

    fn exponent(&mut self) -> std::string::String {
        let e = *self.src.pick(&['e', 'E']);
        let s = *self.src.pick(&["", "+", "-"]);
        let v = match self.src.weighted(&[70, 30]) {
            0 => self.src.draw(20),
            _ => self.src.draw(400),
        };
        format!("{}{}{}", e, s, v)
    }

    pub fn string_bytes(&mut self) -> Vec<u8> {
        let mut out = vec![];
        let mut n = self.src.below(8);
        if self.cfg.big && self.src.one_in(80) {
            n = *self.src.pick(&[64usize, 128, 300]);
        }
        for _ in 0..n {
            match self.src.weighted(&[50, 20, 20, 10]) {
                0 => out.push(b'a' + self.src.draw(26) as u8),
                1 => out.push(self.src.draw(256) as u8),
                2 => out.push(*self.src.pick(b"\0\x07\x08\t\n\x0b\x0c\r\\'\"?0123xX7fF/* ")),
                _ => {
                    let c = random_char(self.src);
                    let mut buf = [0; 4];
                    out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                }
            }
        }
        out
    }
}

pub fn random_char(src: &mut Source) -> char {
    match src.weighted(&[40, 20, 20, 10, 10]) {
        0 => (b' ' + src.draw(95) as u8) as char,
        1 => char::from_u32(0x80 + src.draw(0x780) as u32).unwrap_or('é'),
        2 => char::from_u32(0x800 + src.draw(0xF000) as u32).unwrap_or('€'),
        3 => char::from_u32(0x10000 + src.draw(0x100000) as u32).unwrap_or('𝄞'),
        _ => *src.pick(&[
            '\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}',
            '\u{feff}', '\u{fffd}', '\u{2028}', '\n', '\r', '\u{d7ff}', '\u{e000}',
        ]),
    }
}

pub fn simple_opt(name: &str, value: Const) -> Opt {
    Opt { paren: false, first: vec![name.to_string()], rest: vec![], value }
}

pub fn gen(src: &mut Source, cfg: Cfg) -> FileSet {
    Gen::new(src, cfg).file_set()
}

// ------------------------------------------------------------------------------------------
// Walking
// ------------------------------------------------------------------------------------------

impl FileSet {
    /// Calls `f` for every message with its full path.
    pub fn each_message<'a>(&'a self, f: &mut dyn FnMut(&[std::string::String], &'a Msg)) {
        fn walk<'a>(
            path: &[std::string::String],
            m: &'a Msg,
            f: &mut dyn FnMut(&[std::string::String], &'a Msg),
        ) {
            let mut p = path.to_vec();
            p.push(m.name.clone());
            f(&p, m);
            for mem in &m.members {
                if let Member::Message(n) = mem {
                    walk(&p, n, f);
                }
            }
        }
        for file in &self.files {
            let path = file.package_path();
            for item in &file.items {
                if let Item::Message(m) = item {
                    walk(&path, m, f);
                }
            }
        }
    }

    pub fn type_count(&self) -> usize {
        Symbols::of(self)
            .map
            .values()
            .filter(|s| matches!(s, Sym::Message | Sym::Enum))
            .count()
    }
}

impl Msg {
    pub fn fields(&self) -> Vec<(&Field, Option<usize>)> {
        let mut out = vec![];
        let mut oneof = 0;
        for m in &self.members {
            match m {
                Member::Field(f) => out.push((f, None)),
                Member::Oneof(o) => {
                    for f in &o.fields {
                        out.push((f, Some(oneof)));
                    }
                    oneof += 1;
                }
                _ => {}
            }
        }
        out
    }

    pub fn oneofs(&self) -> Vec<&OneofDecl> {
        self.members
            .iter()
            .filter_map(|m| match m {
                Member::Oneof(o) => Some(o),
                _ => None,
            })
            .collect()
    }
}

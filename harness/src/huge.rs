//! Schemas with very many of one thing, past the borders of small integer types.

use crate::schema::*;

pub const KINDS: usize = 16;
/// Just past what eight and sixteen bits count.
pub const SIZES: [usize; 3] = [130, 300, 66_000];

fn field(name: String, number: u64, ty: Ty) -> Field {
    let label = match number % 3 {
        0 => Label::Single,
        1 => Label::Optional,
        _ => Label::Repeated,
    };
    Field { label, ty, name, number, opts: vec![] }
}

fn single(name: String, number: u64, ty: Ty) -> Field {
    Field { label: Label::Single, ty, name, number, opts: vec![] }
}

fn refer(parts: &[&str], kind: Kind) -> Ref {
    let parts: Vec<String> = parts.iter().map(|p| p.to_string()).collect();
    Ref { absolute: false, target: parts.join("."), parts, kind }
}

fn message(name: String, members: Vec<Member>) -> Msg {
    Msg { name, members }
}

fn scalar(i: usize) -> Ty {
    Ty::Scalar(SCALARS[i % SCALARS.len()])
}

/// Which of the kinds exist in this size (the others are limited by design or would take too long).
pub fn exists(kind: usize, n: usize) -> bool {
    !(n > 1000 && kind == 12)
}

pub fn name(kind: usize) -> &'static str {
    [
        "fields", "enum values", "messages", "nested messages", "enums", "services", "rpcs", "oneofs",
        "oneof members", "options", "packages", "files without package", "package components",
        "bytes of a constant", "bytes of a name", "files with services",
    ][kind]
}

/// `n` of the given kind, used by something else where possible.
pub fn schema(kind: usize, n: usize) -> FileSet {
    let user = |target: &[&str], kind: Kind| {
        let mut fields = vec![Member::Field(single("uses".into(), 1, Ty::Ref(refer(target, kind))))];
        fields.push(Member::Field(field("plain".into(), 2, scalar(3))));
        Item::Message(message("User".into(), fields))
    };
    let mut items = vec![];
    let last = |p: &str| format!("{}{}", p, n - 1);
    match kind {
        0 => {
            let members = (0..n)
                .map(|i| {
                    let ty = if i % 7 == 0 { Ty::Ref(refer(&["User"], Kind::Message)) } else { scalar(i) };
                    Member::Field(field(format!("f{}", i), 2 * i as u64 + 1, ty))
                })
                .collect();
            items.push(Item::Message(message("Many".into(), members)));
            items.push(user(&["Many"], Kind::Message));
        }
        1 => {
            let values = (0..n)
                .map(|i| EnumValueDecl { name: format!("V{}", i), value: 3 * i as i64 - 1000, opts: vec![] })
                .collect();
            items.push(Item::Enum(EnumDecl { name: "Many".into(), values }));
            items.push(user(&["Many"], Kind::Enum));
        }
        2 => {
            for i in 0..n {
                let to = format!("M{}", (i + n - 1) % n);
                let f = single("next".into(), 1, Ty::Ref(refer(&[&to], Kind::Message)));
                items.push(Item::Message(message(format!("M{}", i), vec![Member::Field(f)])));
            }
            items.push(user(&[&last("M")], Kind::Message));
        }
        3 => {
            let mut members: Vec<Member> = (0..n)
                .map(|i| Member::Message(message(format!("M{}", i), vec![])))
                .collect();
            members.push(Member::Field(single("l".into(), 9, Ty::Ref(Ref {
                absolute: false,
                parts: vec![last("M")],
                target: format!("Outer.{}", last("M")),
                kind: Kind::Message,
            }))));
            items.push(Item::Message(message("Outer".into(), members)));
            items.push(user(&["Outer", &last("M")], Kind::Message));
        }
        4 => {
            for i in 0..n {
                let values = vec![EnumValueDecl { name: format!("V{}", i), value: 0, opts: vec![] }];
                items.push(Item::Enum(EnumDecl { name: format!("E{}", i), values }));
            }
            items.push(user(&[&last("E")], Kind::Enum));
        }
        5 | 6 => {
            let rpc = |i: usize| RpcDecl {
                name: format!("R{}", i),
                input: refer(&["User"], Kind::Message),
                input_stream: i % 2 == 1,
                output: refer(&["Other"], Kind::Message),
                output_stream: i % 3 == 1,
                opts: vec![],
            };
            items.push(Item::Message(message("Other".into(), vec![])));
            if kind == 5 {
                for i in 0..n {
                    items.push(Item::Service(SvcDecl { name: format!("S{}", i), rpcs: vec![rpc(i)], opts: vec![] }));
                }
            } else {
                items.push(Item::Service(SvcDecl { name: "Many".into(), rpcs: (0..n).map(rpc).collect(), opts: vec![] }));
            }
            items.push(user(&["Other"], Kind::Message));
        }
        7 => {
            let members = (0..n)
                .map(|i| {
                    Member::Oneof(OneofDecl {
                        name: format!("o{}", i),
                        fields: vec![single(format!("f{}", i), i as u64 + 1, scalar(i))],
                        opts: vec![],
                    })
                })
                .collect();
            items.push(Item::Message(message("Many".into(), members)));
            items.push(user(&["Many"], Kind::Message));
        }
        8 => {
            let fields = (0..n).map(|i| single(format!("f{}", i), i as u64 + 1, scalar(i))).collect();
            let o = |name: &str, fields| Member::Oneof(OneofDecl { name: name.into(), fields, opts: vec![] });
            let other = vec![single("other".into(), n as u64 + 1, scalar(1))];
            items.push(Item::Message(message("Many".into(), vec![o("many", fields), o("few", other)])));
            items.push(user(&["Many"], Kind::Message));
        }
        9 => {
            let mut f = single("f".into(), 1, scalar(2));
            f.opts = (0..n)
                .map(|i| simple_opt(&format!("o{}", i), Const::Int(i as i64)))
                .collect();
            items.push(Item::Message(message("Many".into(), vec![Member::Field(f)])));
            items.push(user(&["Many"], Kind::Message));
        }
        10 | 11 => {
            let files = (0..n)
                .map(|i| {
                    let to = (i + 1) % n;
                    let (package, target) = if kind == 10 {
                        (Some(vec![format!("p{}", i)]), vec![format!("p{}", to), format!("M{}", to)])
                    } else {
                        (None, vec![format!("M{}", to)])
                    };
                    let target: Vec<&str> = target.iter().map(|s| s.as_str()).collect();
                    let f = single("next".into(), 1, Ty::Ref(refer(&target, Kind::Message)));
                    let items = vec![Item::Message(message(format!("M{}", i), vec![Member::Field(f)]))];
                    FileDecl { package, items }
                })
                .collect();
            return FileSet { files };
        }
        12 => {
            let package: Vec<String> = (0..n).map(|i| format!("p{}", i)).collect();
            let target = format!("{}.Other", package.join("."));
            let r = Ref { absolute: false, parts: vec!["Other".into()], target, kind: Kind::Message };
            let items = vec![
                Item::Message(message("Other".into(), vec![])),
                Item::Message(message("User".into(), vec![Member::Field(single("uses".into(), 1, Ty::Ref(r)))])),
            ];
            return FileSet { files: vec![FileDecl { package: Some(package), items }] };
        }
        15 => {
            let files = (0..n)
                .map(|i| {
                    let at = |of: usize, name: &str| Ref {
                        absolute: i % 2 == 0,
                        parts: vec![format!("p{}", of), name.to_string()],
                        target: format!("p{}.{}", of, name),
                        kind: if name == "E" { Kind::Enum } else { Kind::Message },
                    };
                    let rpc = RpcDecl {
                        name: "R".into(),
                        input: at((i * 7) % n, "M"),
                        input_stream: i % 2 == 1,
                        output: at(i, "M"),
                        output_stream: i % 3 == 1,
                        opts: vec![],
                    };
                    let values = vec![EnumValueDecl { name: "Z".into(), value: i as i64, opts: vec![] }];
                    let f = single("e".into(), 1, Ty::Ref(at((i * 3) % n, "E")));
                    FileDecl {
                        package: Some(vec![format!("p{}", i)]),
                        items: vec![
                            Item::Service(SvcDecl { name: "S".into(), rpcs: vec![rpc], opts: vec![] }),
                            Item::Enum(EnumDecl { name: "E".into(), values }),
                            Item::Message(message("M".into(), vec![Member::Field(f)])),
                        ],
                    }
                })
                .collect();
            return FileSet { files };
        }
        13 => {
            let mut f = single("f".into(), 1, scalar(2));
            f.opts = vec![simple_opt("text", Const::Str((0..n).map(|i| b'a' + (i % 26) as u8).collect()))];
            items.push(Item::Message(message("Many".into(), vec![Member::Field(f)])));
        }
        _ => {
            let long = "n".repeat(n);
            let members = vec![Member::Field(single(long.clone(), 1, Ty::Ref(refer(&["User"], Kind::Message))))];
            items.push(Item::Message(message(long.clone(), members)));
            items.push(Item::Enum(EnumDecl {
                name: format!("{}2", long),
                values: vec![EnumValueDecl { name: long.clone(), value: 0, opts: vec![] }],
            }));
            items.push(user(&[&long], Kind::Message));
        }
    }
    FileSet { files: vec![FileDecl { package: None, items }] }
}

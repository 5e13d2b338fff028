//! What decoding returns fits the declarations.

use crate::engine::*;
use crate::schema::Scalar;
use crate::tape::Source;
use crate::wire::*;
use crate::world::*;
use protofish::decode::{MessageValue, PackedArray, UnknownValue, Value};

pub const PROP: Prop = Prop {
    id: "C31",
    run,
    enumerated,
    quick: 40_000,
    thorough: 3_000_000,
    threads: 8,
    rule: "Any bytes decoded as any message type, parsed or built by hand; every value of the result, \
           at every level, held against the declaration of its field and against the rules for what \
           may stand where: typed values only for declared fields and of the declared type, arrays \
           only where the field is repeated and numeric, raw values only where nothing is declared or \
           the wire type is another one, incomplete and invalid values and garbage only where nothing \
           follows and only if they are that, and no more values than bytes. Enumerated: all one and \
           two byte payloads of a message with every kind of field. Non-trivial: not empty.",
};

fn enumerated(thorough: bool) -> u64 {
    if thorough {
        GRAND + 256 + 65_536
    } else {
        GRAND + 256 + 65_536 / 8
    }
}

fn is(s: Scalar, v: &Value) -> bool {
    use Scalar as S;
    matches!(
        (s, v),
        (S::Double, Value::Double(_))
            | (S::Float, Value::Float(_))
            | (S::Int32, Value::Int32(_))
            | (S::Int64, Value::Int64(_))
            | (S::UInt32, Value::UInt32(_))
            | (S::UInt64, Value::UInt64(_))
            | (S::SInt32, Value::SInt32(_))
            | (S::SInt64, Value::SInt64(_))
            | (S::Fixed32, Value::Fixed32(_))
            | (S::Fixed64, Value::Fixed64(_))
            | (S::SFixed32, Value::SFixed32(_))
            | (S::SFixed64, Value::SFixed64(_))
            | (S::Bool, Value::Bool(_))
            | (S::String, Value::String(_))
            | (S::Bytes, Value::Bytes(_))
    )
}

fn is_array(s: Scalar, v: &PackedArray) -> bool {
    use PackedArray as P;
    use Scalar as S;
    matches!(
        (s, v),
        (S::Double, P::Double(_))
            | (S::Float, P::Float(_))
            | (S::Int32, P::Int32(_))
            | (S::Int64, P::Int64(_))
            | (S::UInt32, P::UInt32(_))
            | (S::UInt64, P::UInt64(_))
            | (S::SInt32, P::SInt32(_))
            | (S::SInt64, P::SInt64(_))
            | (S::Fixed32, P::Fixed32(_))
            | (S::Fixed64, P::Fixed64(_))
            | (S::SFixed32, P::SFixed32(_))
            | (S::SFixed64, P::SFixed64(_))
            | (S::Bool, P::Bool(_))
    )
}

fn raw_wire_type(u: &UnknownValue) -> u8 {
    match u {
        UnknownValue::Varint(_) => 0,
        UnknownValue::Fixed64(_) => 1,
        UnknownValue::VariableLength(_) => 2,
        UnknownValue::Fixed32(_) => 5,
        UnknownValue::Invalid(w, _) => *w,
    }
}

/// No varint begins here.
fn unfinished(b: &[u8]) -> bool {
    b.iter().take(10).all(|b| b & 0x80 != 0)
}

/// The bytes hold no whole value of the wire type.
fn incomplete(wt: u8, b: &[u8]) -> bool {
    match wt {
        0 => unfinished(b),
        1 => b.len() < 8,
        5 => b.len() < 4,
        2 => {
            let mut rest = b;
            match get_varint(&mut rest) {
                None => true,
                Some((n, _)) => n > rest.len() as u64,
            }
        }
        _ => false,
    }
}

/// The bytes are an array with a broken element.
fn broken_array(s: Scalar, b: &[u8]) -> bool {
    let mut rest = b;
    let n = match get_varint(&mut rest) {
        Some((n, _)) => n,
        None => return false,
    };
    if n != rest.len() as u64 {
        return false;
    }
    match s.wire_type() {
        1 => rest.len() % 8 != 0,
        5 => rest.len() % 4 != 0,
        _ => {
            while !rest.is_empty() {
                if get_varint(&mut rest).is_none() {
                    return true;
                }
            }
            false
        }
    }
}

/// Counts the values; complains about the first that does not fit.
fn check(w: &World, m: &MessageValue, ty: usize, level: usize, case: &mut Case) -> Result<usize, String> {
    if m.msg_ref != w.h.msgs[ty] {
        return Err(format!("level {}: a value of another message type", level));
    }
    let mut count = 0;
    let last = m.fields.len().wrapping_sub(1);
    for (i, f) in m.fields.iter().enumerate() {
        count += 1;
        let bad = |why: &str| {
            let all = format!("{:?}", f.value);
            Err(format!("level {}, field {} of {}: {} ({:.200})", level, f.number, w.types.msgs[ty].name, why, all))
        };
        if f.number >= 1 << 61 {
            return bad("no tag has such a number");
        }
        let decl = w.types.msgs[ty].fields.get(&f.number);
        match &f.value {
            Value::Incomplete(wt, b) => {
                let array = decl.and_then(|d| d.packs()).filter(|s| *wt == 2 && broken_array(*s, b));
                if array.is_some() {
                    case.label("broken array");
                    continue;
                }
                case.label("incomplete");
                if !incomplete(*wt, b) {
                    return bad("not incomplete");
                }
                if i != last || m.garbage.is_some() {
                    return bad("something follows an incomplete value");
                }
            }
            Value::Unknown(u) => {
                let wt = raw_wire_type(u);
                match u {
                    UnknownValue::Invalid(_, b) => {
                        case.label("invalid");
                        if matches!(wt, 0 | 1 | 2 | 5) || wt > 7 {
                            return bad("wire type is no invalid one");
                        }
                        if i != last || m.garbage.is_some() {
                            return bad("something follows an invalid value");
                        }
                        let _ = b;
                        continue;
                    }
                    UnknownValue::Varint(v) if *v > u64::MAX as u128 => return bad("more than 64 bits"),
                    _ => {}
                }
                match decl {
                    None => case.label("undeclared"),
                    Some(d) if d.ty.wire_type() == wt => match d.ty {
                        TTy::Msg(_) if level >= LIMIT => case.label("beyond the limit"),
                        _ => return bad("raw in spite of its declaration"),
                    },
                    Some(d) if wt == 2 && d.packs().is_some() => return bad("raw and not an array"),
                    Some(_) => case.label("other wire type"),
                }
            }
            v => {
                let d = match decl {
                    None => return bad("typed, but not declared"),
                    Some(d) => d,
                };
                match (d.ty, v) {
                    (TTy::Scalar(s), Value::Packed(p)) => {
                        if d.packs().is_none() || !is_array(s, p) {
                            return bad("not an array of that type");
                        }
                        case.label("array");
                    }
                    (TTy::Scalar(s), v) if is(s, v) => {}
                    (TTy::Enum(e), Value::Enum(x)) => {
                        if x.enum_ref != w.h.enums[e] {
                            return bad("value of another enum type");
                        }
                    }
                    (TTy::Msg(t), Value::Message(inner)) => {
                        if level >= LIMIT {
                            return bad("nested beyond the limit");
                        }
                        count += check(w, inner, t, level + 1, case)?;
                    }
                    _ => return bad("value of another type"),
                }
            }
        }
    }
    if let Some(g) = &m.garbage {
        case.label("garbage");
        count += 1;
        if g.is_empty() || !unfinished(g) {
            return Err(format!("level {}: a field begins in the garbage {}", level, hex(g)));
        }
    }
    Ok(count)
}

fn one(w: &World, ty: usize, data: &[u8], case: &mut Case) -> Check {
    case.describe(|| format!("{}\npayload {}", w.describe(ty), hex(data)));
    case.sample(|| hex(data));
    if !data.is_empty() {
        case.nontrivial(digest(data) ^ digest(w.text.as_bytes()));
    }
    let m = w.decode(ty, data);
    let n = check(w, &m, ty, 1, case)?;
    if n > data.len() || n == 0 && !data.is_empty() {
        return Err(format!("{} values from {} bytes", n, data.len()));
    }
    // What comes out of that again must fit as well.
    let again = w.decode(ty, &m.encode(&w.ctx));
    check(w, &again, ty, 1, case).map(|_| ()).map_err(|e| format!("after encode and decode: {}", e))
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    if e > 0 {
        let w = match fixed() {
            Some(w) => w,
            None => {
                case.label("skipped: no context");
                return Ok(());
            }
        };
        if e <= GRAND {
            // Much of everything.
            return one(&w, 0, &encode(&grand_raw(e - 1)), case);
        }
        let e = e - 1 - GRAND;
        if e < 256 {
            return one(&w, 0, &[e as u8], case);
        }
        let e = (e - 256) as u32;
        // All of them, or every first byte with every second one of an eighth.
        let data = [(e & 0xff) as u8, ((e >> 8) * 41 & 0xff) as u8];
        return one(&w, 0, &data, case);
    }
    let w = match src.draw(4) {
        0 => fixed(),
        1 => odd_world(src),
        _ => world(src),
    };
    let w = match w {
        Some(w) => w,
        None => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    for _ in 0..2 {
        let ty = w.pick_type(src);
        let data = match src.draw(5) {
            0 => encode(&gen_typed(src, &w.types, ty)),
            1 => {
                let mut b = Budget::new(src);
                loose(src, &w.types, ty, 1, &mut b)
            }
            _ => hostile(src, &w.types, ty),
        };
        one(&w, ty, &data, case)?;
    }
    Ok(())
}

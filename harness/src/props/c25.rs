//! Equality tells apart what differs and nothing else.

use super::common::*;
use crate::engine::*;
use crate::evolve;
use crate::render;
use crate::schema::*;
use crate::tape::Source;
use crate::view::Mult;
use crate::wire::*;
use crate::world;
use protofish::context::Context;

pub const PROP: Prop = Prop {
    id: "C25",
    run,
    enumerated: |_| HUGE,
    quick: 40_000,
    thorough: 1_000_000,
    threads: 8,
    rule: "A random set of files and the same with one change of meaning (a name, number, type, \
           label, oneof, enum value, rpc, reference, option, option value, nesting or an added or \
           missing declaration): the contexts, parsed or built by hand, must compare unequal both \
           ways, and equal to contexts made again from the same. Values are compared with a clone, \
           with a copy made separately and with a copy that differs in one place, where floats \
           compare as numbers (zeros of either sign are equal, NaN is not equal to itself). Enumerated: thousands of each kind of declaration. Non-trivial: a change applied.",
};

fn unequal(a: &Context, b: &Context, what: &str) -> Check {
    if a == b || b == a || !(a != b) {
        return Err(format!("a change ({}) that does not show in the comparison of contexts", what));
    }
    Ok(())
}

fn equal(a: &Context, b: &Context, what: &str) -> Check {
    if !(a == b) || !(b == a) || a != b {
        return Err(format!("{} are not equal", what));
    }
    Ok(())
}

fn is_nan(s: Scalar, v: u64) -> bool {
    match s {
        Scalar::Float => f32::from_bits(v as u32).is_nan(),
        Scalar::Double => f64::from_bits(v).is_nan(),
        _ => false,
    }
}

/// Whether two numbers of a type are equal: floating point ones as numbers, others bit by bit.
fn num_eq(s: Scalar, a: u64, b: u64) -> bool {
    match s {
        Scalar::Float => f32::from_bits(a as u32) == f32::from_bits(b as u32),
        Scalar::Double => f64::from_bits(a) == f64::from_bits(b),
        _ => a == b,
    }
}

/// Whether two values have to compare equal.
fn value_eq(a: &RV, b: &RV) -> bool {
    match (a, b) {
        (RV::Num(s, x), RV::Num(t, y)) => s == t && num_eq(*s, *x, *y),
        (RV::Packed(s, xs), RV::Packed(t, ys)) => {
            s == t && xs.len() == ys.len() && xs.iter().zip(ys).all(|(x, y)| num_eq(*s, *x, *y))
        }
        (RV::Msg(x), RV::Msg(y)) => msg_eq(x, y),
        _ => a == b,
    }
}

fn msg_eq(a: &RMsg, b: &RMsg) -> bool {
    a.ty == b.ty
        && a.garbage == b.garbage
        && a.fields.len() == b.fields.len()
        && a.fields.iter().zip(&b.fields).all(|(x, y)| x.0 == y.0 && value_eq(&x.1, &y.1))
}

fn any_nan(m: &RMsg) -> bool {
    m.fields.iter().any(|(_, v)| match v {
        RV::Num(s, x) => is_nan(*s, *x),
        RV::Packed(s, xs) => xs.iter().any(|x| is_nan(*s, *x)),
        RV::Msg(i) => any_nan(i),
        _ => false,
    })
}

fn no_nan(m: &mut RMsg) {
    for (_, v) in &mut m.fields {
        match v {
            RV::Num(s, x) if is_nan(*s, *x) => *x = 0,
            RV::Packed(s, xs) => {
                for x in xs {
                    if is_nan(*s, *x) {
                        *x = 0
                    }
                }
            }
            RV::Msg(i) => no_nan(i),
            _ => {}
        }
    }
}

/// Makes one floating point number a zero or another special one. False: there is none.
fn special(src: &mut Source, m: &mut RMsg) -> bool {
    fn walk(m: &mut RMsg, f: &mut dyn FnMut(Scalar, &mut u64)) {
        for (_, v) in &mut m.fields {
            match v {
                RV::Num(s, x) => f(*s, x),
                RV::Packed(s, xs) => xs.iter_mut().for_each(|x| f(*s, x)),
                RV::Msg(i) => walk(i, f),
                _ => {}
            }
        }
    }
    let float = |s: Scalar| matches!(s, Scalar::Float | Scalar::Double);
    let mut n = 0;
    walk(m, &mut |s, _| n += float(s) as usize);
    if n == 0 {
        return false;
    }
    let mut at = src.below(n);
    let x = *src.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::MIN_POSITIVE]);
    walk(m, &mut |s, v| {
        if float(s) {
            if at == 0 {
                *v = match s {
                    Scalar::Float => (x as f32).to_bits() as u64,
                    _ => x.to_bits(),
                };
            }
            at = at.wrapping_sub(1);
        }
    });
    true
}

/// Another value of the same scalar type, not equal to `v` as a number.
fn other_num(src: &mut Source, s: Scalar, v: u64) -> u64 {
    let mut w = v;
    for _ in 0..20 {
        w = match src.below(2) {
            0 if s.is_varint() => cast(s, varint_of(s, v) ^ (1 << src.below(64))),
            _ => gen_num(src, s),
        };
        let same = match s {
            Scalar::Float => f32::from_bits(w as u32) == f32::from_bits(v as u32),
            Scalar::Double => f64::from_bits(w) == f64::from_bits(v),
            _ => w == v,
        };
        if !same && !is_nan(s, w) {
            return w;
        }
    }
    w
}

fn other_bytes(src: &mut Source, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    match src.below(3) {
        0 if !b.is_empty() => {
            let i = src.below(b.len());
            b[i] ^= 1 << src.below(8)
        }
        1 if !b.is_empty() => {
            b.pop();
        }
        _ => b.push(src.draw(256) as u8),
    }
    b
}

/// Changes one thing. False: not here.
fn change_value(src: &mut Source, v: &mut RV, types: &Types) -> bool {
    match v {
        RV::Num(s, x) => match src.below(3) {
            0 => {
                // The same bits as another type.
                let others: Vec<Scalar> =
                    SCALARS.iter().cloned().filter(|t| t.packable() && t != s).collect();
                *v = RV::Num(*src.pick(&others), 1);
                true
            }
            1 => {
                *v = RV::Packed(*s, vec![*x]);
                true
            }
            _ => {
                let y = other_num(src, *s, *x);
                let changed = y != *x;
                *x = y;
                changed
            }
        },
        RV::Str(s) => {
            match src.below(4) {
                0 if !s.is_empty() => {
                    s.pop();
                }
                1 => *v = RV::Bytes(s.clone().into_bytes()),
                2 => s.insert(0, ' '),
                _ => s.push('\0'),
            }
            true
        }
        RV::Bytes(b) => {
            *v = match src.below(3) {
                0 => RV::ULen(b.clone()),
                _ => RV::Bytes(other_bytes(src, b)),
            };
            true
        }
        RV::Packed(s, xs) => {
            match src.below(4) {
                0 if !xs.is_empty() => {
                    let i = src.below(xs.len());
                    let y = other_num(src, *s, xs[i]);
                    if y == xs[i] {
                        return false;
                    }
                    xs[i] = y;
                }
                1 if !xs.is_empty() => {
                    xs.pop();
                }
                2 => {
                    let others: Vec<Scalar> =
                        SCALARS.iter().cloned().filter(|t| t.packable() && t != s).collect();
                    *v = RV::Packed(*src.pick(&others), vec![]);
                }
                _ => xs.push(1),
            }
            true
        }
        RV::Msg(m) => change_msg(src, m, types),
        RV::Enum(e, x) => {
            match src.below(3) {
                0 if types.enums.len() > 1 => *e = (*e + 1) % types.enums.len(),
                1 => *x = !*x,
                _ => *x ^= 1 << src.below(64),
            }
            true
        }
        RV::Incomplete(w, b) => {
            match src.below(3) {
                0 => *w = (*w + 1) % 8,
                1 => *v = RV::UInvalid(*w, b.clone()),
                _ => *b = other_bytes(src, b),
            }
            true
        }
        RV::UVarint(x) => {
            *x ^= 1 << src.below(128);
            true
        }
        RV::UFixed64(x) => {
            match src.below(3) {
                0 => *v = RV::UVarint(*x as u128),
                _ => *x ^= 1 << src.below(64),
            }
            true
        }
        RV::UFixed32(x) => {
            match src.below(3) {
                0 => *v = RV::UFixed64(*x as u64),
                _ => *x ^= 1 << src.below(32),
            }
            true
        }
        RV::ULen(b) => {
            *b = other_bytes(src, b);
            true
        }
        RV::UInvalid(w, b) => {
            match src.below(2) {
                0 => *w = (*w + 1) % 8,
                _ => *b = other_bytes(src, b),
            }
            true
        }
        RV::Other(_) => false,
    }
}

fn change_msg(src: &mut Source, m: &mut RMsg, types: &Types) -> bool {
    match src.weighted(&[60, 10, 10, 10, 10]) {
        0 if !m.fields.is_empty() => {
            let i = src.below(m.fields.len());
            match src.below(6) {
                0 => {
                    m.fields[i].0 ^= 1 << src.below(61);
                    true
                }
                1 => {
                    m.fields.remove(i);
                    true
                }
                2 => {
                    let f = m.fields[i].clone();
                    m.fields.insert(i, f);
                    true
                }
                3 if i + 1 < m.fields.len() => {
                    let differ = m.fields[i].0 != m.fields[i + 1].0;
                    m.fields.swap(i, i + 1);
                    differ
                }
                _ => change_value(src, &mut m.fields[i].1, types),
            }
        }
        1 => {
            m.garbage = match m.garbage.take() {
                None => Some(if src.bool() { vec![0x80] } else { vec![] }),
                Some(g) if g.is_empty() || src.bool() => None,
                Some(g) => Some(other_bytes(src, &g)),
            };
            true
        }
        2 if types.msgs.len() > 1 => {
            m.ty = (m.ty + 1 + src.below(types.msgs.len() - 1)) % types.msgs.len();
            true
        }
        3 => {
            m.fields.push((1, RV::UVarint(0)));
            true
        }
        _ => {
            m.fields.insert(0, (1, RV::Str(String::new())));
            true
        }
    }
}

fn values(src: &mut Source, case: &mut Case) -> Check {
    let w = match world::world(src) {
        Some(w) => w,
        None => return Ok(()),
    };
    for _ in 0..3 {
        let ty = w.pick_type(src);
        let mut m = if src.bool() {
            gen_typed(src, &w.types, ty)
        } else {
            let mut b = Budget::new(src);
            let data = loose(src, &w.types, ty, 1, &mut b);
            let mut c = true;
            decode(&w.types, ty, &data, &mut c)
        };
        if !src.one_in(8) {
            no_nan(&mut m);
        }
        let floats = src.one_in(4) && special(src, &mut m);
        let (a, b) = (to_sut(&w.h, &m), to_sut(&w.h, &m));
        let mut n = m.clone();
        if floats && src.bool() {
            special(src, &mut n);
        } else {
            change_msg(src, &mut n, &w.types);
        }
        case.describe(|| format!("{}\n{:?}\n{:?}", w.describe(ty), m, n));
        let same = !any_nan(&m);
        case.label_if(!same, "a value that is not equal to itself");
        if (a == b) != same || (a != b) == same || (a == a.clone()) != same {
            return Err(format!("two copies of a value: equal is {}, expected {}", a == b, same));
        }
        if n != m {
            let c = to_sut(&w.h, &n);
            let same = msg_eq(&m, &n);
            case.label(if same { "value with an equal number" } else { "value changed" });
            case.nontrivial(digest(format!("{:?}{:?}", m, n).as_bytes()));
            if (a == c) != same || (c == a) != same || (a != c) == same {
                return Err(format!("equal is {}, expected {}: {:?} and {:?}", a == c, same, m, n));
            }
        }
    }
    Ok(())
}

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    if e == 0 && src.chance(35) {
        return values(src, case);
    }
    let by_hand = e == 0 && src.chance(25);
    let base = Cfg {
        services: !by_hand,
        aliases: false,
        distinct_packages: by_hand,
        nan: false,
        big: false,
        ..Cfg::default()
    };
    let cfg = varied(src, base);
    let fs = gen_or_huge(e, src, cfg, if by_hand { &[5, 6, 11, 15] } else { &[] }, case);
    let text = render::mixed(&fs, src);
    let made = |f: &FileSet, text: &[String]| -> Option<Context> {
        if by_hand {
            world::build(f).ok()
        } else {
            parse(text).ok()
        }
    };
    let a = match made(&fs, &text) {
        Some(c) => c,
        None => {
            case.label("skipped: no context");
            return Ok(());
        }
    };
    case.describe(|| all_text(&text));
    let again = render::plain(&fs);
    if let Some(b) = made(&fs, &again) {
        equal(&a, &b, "two contexts made from the same declarations")?;
    }
    if by_hand {
        // What only the API can say: a multiplicity that does not follow from label, type and
        // options.
        let mut all: Vec<(String, u64, Mult)> = vec![];
        fs.each_message(&mut |p, m| {
            for (f, _) in m.fields() {
                all.push((p.join("."), f.number, crate::view::multiplicity(f)));
            }
        });
        if !all.is_empty() {
            let (full, number, was) = src.pick(&all).clone();
            let mults = [Mult::Single, Mult::Optional, Mult::Repeated, Mult::Packed];
            let now = *src.pick(&mults);
            if let (true, Ok(b)) =
                (now != was, world::build_with(&fs, None, Some((&full, number, now))))
            {
                case.label("multiplicity by hand");
                case.describe(|| {
                    format!("{}\nfield {} of {} is {:?}", all_text(&again), number, full, now)
                });
                unequal(&a, &b, "multiplicity")?;
            }
        }
    }
    for _ in 0..3 {
        let (changed, what) = match evolve::change(src, &fs, !by_hand) {
            Some(c) => c,
            None => continue,
        };
        let text = render::plain(&changed);
        case.describe(|| format!("{}\n==== changed ({}):\n{}", all_text(&again), what, all_text(&text)));
        let b = match made(&changed, &text) {
            Some(c) => c,
            None => {
                case.label("changed files do not parse");
                continue;
            }
        };
        case.label(what);
        case.sample(|| format!("{}:\n{}", what, all_text(&text)));
        case.nontrivial(text_digest(&text) ^ text_digest(&again));
        unequal(&a, &b, what)?;
    }
    Ok(())
}

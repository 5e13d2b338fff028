//! Formatting of a proto file does not change its meaning.

use super::common::*;
use crate::engine::*;
use crate::render::{self, Style, PLAIN};
use crate::schema::*;
use crate::tape::Source;
use crate::view;

pub const PROP: Prop = Prop {
    id: "C12",
    run,
    enumerated: |_| HUGE,
    quick: 30_000,
    thorough: 600_000,
    threads: 8,
    rule: "One random set of files is written plainly and two to three more times with random layout: \
           white space and comments with arbitrary contents between any two tokens or none at all, \
           line endings, byte order mark, quotes and escapes, integer radix, empty statements, \
           imports, reserved declarations, file, message and enum options, the place of the package \
           statement. All must parse to equal contexts. Enumerated: thousands of each kind of declaration. Non-trivial: the texts differ and declare at \
           least two items.",
};

fn run(e: u64, src: &mut Source, case: &mut Case) -> Check {
    let base = Cfg { nan: false, max_files: 2, ..Cfg::default() };
    let cfg = varied(src, base);
    let fs = gen_or_huge(e, src, cfg, &[], case);
    let plain = render::plain(&fs);
    case.describe(|| all_text(&plain));
    let reference = match parse(&plain) {
        Ok(c) => Some(c),
        Err(_) => {
            case.label("plain text rejected");
            None
        }
    };
    let n = src.range(2, 3);
    let mut accepted = 0;
    for i in 0..n {
        let style: Style = render::any_style(src);
        let text = render::styled(&fs, src, style);
        if text == plain {
            case.label("identical text");
            continue;
        }
        case.describe(|| format!("==== written with {:?} ====\n{}", style, all_text(&text)));
        if i == 0 {
            case.sample(|| all_text(&text));
        }
        case.label_if(style.squeeze, "squeezed");
        case.label_if(style.trivia && !style.squeeze, "random white space and comments");
        case.label_if(style.literals, "random literals");
        case.label_if(style.noise, "meaningless statements");
        if view::expected(&fs).names().len() >= 2 {
            case.nontrivial(text_digest(&text));
        }
        match (&reference, parse(&text)) {
            (Some(r), Ok(c)) => {
                accepted += 1;
                if *r != c || c != *r {
                    let e = view::expected(&fs);
                    let a = view::actual(r, &e.names(), &e.enum_values());
                    let b = view::actual(&c, &e.names(), &e.enum_values());
                    return Err(format!(
                        "the layout changed the context: {}",
                        view::diff(&a, &b).unwrap_or_else(|| "in its indices".to_string())
                    ));
                }
            }
            (None, Err(_)) => {}
            (Some(_), Err(e)) => return Err(format!("rejected because of its layout: {}", e)),
            (None, Ok(_)) => {
                return Err("rejected when written plainly, accepted otherwise".to_string())
            }
        }
    }
    case.count("layouts compared", accepted);
    // The layout engine itself may be asked for nothing.
    let same = render::styled(&fs, src, PLAIN);
    debug_assert_eq!(same, plain);
    Ok(())
}

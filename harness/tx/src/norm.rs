//! C19: `normalize` against a character-by-character specification.

use engine::{ensure, model, Ctx, Model, Tier, R};
use static_xml::de::{normalize, WhiteSpace};

pub fn is_ws(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\n' || c == '\r'
}

/// The specification, written for clarity over characters.
pub fn spec(s: &str, w: WhiteSpace) -> String {
    match w {
        WhiteSpace::Preserve => s.to_owned(),
        WhiteSpace::Replace => s.chars().map(|c| if is_ws(c) { ' ' } else { c }).collect(),
        WhiteSpace::Collapse => s
            .split(is_ws)
            .filter(|t| !t.is_empty())
            .collect::<Vec<_>>()
            .join(" "),
    }
}

pub const MODES: [WhiteSpace; 3] = [WhiteSpace::Preserve, WhiteSpace::Replace, WhiteSpace::Collapse];

fn check(ctx: &mut Ctx, s: &str) -> R {
    ctx.describe(|| format!("{s:?}"));
    for m in MODES {
        let want = spec(s, m);
        let got = engine::no_panic(|| normalize(s.to_owned(), m))
            .map_err(|p| engine::Fail { key: String::new(), what: format!("normalize({s:?}, {m:?}) panics: {p}") })?;
        ensure!(
            std::str::from_utf8(got.as_bytes()).is_ok(),
            "normalize({s:?}, {m:?}) is not valid UTF-8: {:?}",
            got.as_bytes()
        );
        ensure!(got == want, "normalize({s:?}, {m:?}) = {got:?}, want {want:?}");
        // A string with spare capacity, and one which has been normalized already.
        let mut roomy = String::with_capacity(s.len() + 64);
        roomy.push_str(s);
        ensure!(normalize(roomy, m) == want, "normalize depends on capacity for {s:?}, {m:?}");
        ensure!(normalize(got.clone(), m) == want, "normalize is not idempotent on {s:?}, {m:?}");
        ctx.compared += 3;
    }
    Ok(())
}

const ALPHABET: [&str; 11] = [
    "a", " ", "\t", "\n", "\r", "b", "\u{e9}", "\u{a0}", "\u{3000}", "\u{1F600}", "\u{85}",
];
/// Neighbours of the four white-space characters and other Unicode spaces and controls.
const ODD: [&str; 21] = [
    "\u{0}", "\u{8}", "\u{b}", "\u{c}", "\u{e}", "\u{1f}", "!", "\u{7f}", "\u{80}", "\u{89}", "\u{8a}", "\u{8d}",
    "\u{a0}", "\u{1680}", "\u{2003}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{feff}", "\u{10a0d}", "\u{10920}",
];

pub fn models(prop: &str, tier: Tier, v: &mut Vec<Model>) {
    if prop != "C19" {
        return;
    }
    let t = tier == Tier::Thorough;
    let n = if t { 7 } else { 5 };
    v.push(model(
        "all-strings",
        &format!("every string of up to {n} characters over {ALPHABET:?} x 3 modes"),
        move |ctx: &mut Ctx| -> R {
            let len = ctx.range(0, n);
            let mut s = String::new();
            for _ in 0..len {
                s.push_str(*ctx.pick(&ALPHABET));
            }
            ctx.state(s.as_str());
            check(ctx, &s)
        },
    ));
    let n = if t { 4 } else { 3 };
    v.push(model(
        "odd-characters",
        &format!("every string of up to {n} of the characters {ODD:?}, space, tab, LF, CR, x"),
        move |ctx: &mut Ctx| -> R {
            let len = ctx.range(1, n);
            let mut s = String::new();
            for _ in 0..len {
                let i = ctx.choose(ODD.len() + 5);
                s.push_str(if i < ODD.len() { ODD[i] } else { [" ", "\t", "\n", "\r", "x"][i - ODD.len()] });
            }
            ctx.state(s.as_str());
            check(ctx, &s)
        },
    ));
    v.push(model(
        "every-character",
        "every Unicode scalar value: alone, and in three surroundings",
        |ctx: &mut Ctx| -> R {
            let block = ctx.choose(0x110000 / 256) as u32;
            ctx.state(&block);
            for lo in 0..256 {
                let Some(c) = char::from_u32(block * 256 + lo) else { continue };
                for s in [format!("{c}"), format!("a{c}b"), format!(" {c} {c}\t"), format!("\n{c}{c}  {c}")] {
                    check(ctx, &s)?;
                }
            }
            Ok(())
        },
    ));
    let to = if t { 23 } else { 20 };
    v.push(model(
        "long-runs",
        &format!("3 runs, alternately white space and text, one of them of 2^k-1, 2^k or 2^k+1 bytes (k 10 to {to}), the others of 0 to 2 characters, 3 x 3 kinds"),
        move |ctx: &mut Ctx| -> R {
            let ws = *ctx.pick(&[" ", "\n", "\t \r"]);
            let tx = *ctx.pick(&["x", "\u{e9}", "\u{1F600}y"]);
            let start = ctx.choose(2);
            let which = ctx.choose(3);
            let k = 10 + ctx.choose((to - 9) as usize) as u32;
            let n = (1usize << k) - 1 + ctx.choose(3);
            let mut s = String::new();
            for i in 0..3 {
                let piece = if (i + start) % 2 == 0 { ws } else { tx };
                if i == which {
                    s.push_str(&piece.repeat(n / piece.len()));
                } else {
                    let l = ctx.choose(3);
                    s.extend(piece.chars().cycle().take(l));
                }
            }
            ctx.describe(|| format!("about {n} bytes: {} in all, run {which} of {ws:?} {tx:?} from {start}", s.len()));
            ctx.state(s.as_str());
            check(ctx, &s).map_err(|mut f| {
                f.what = f.what.chars().take(300).collect();
                f
            })
        },
    ));
    // Long runs: an implementation may work in blocks or words.
    let lens: &'static [usize] = if t {
        &[0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025]
    } else {
        &[0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 256, 1025]
    };
    let runs = if t { 5 } else { 4 };
    v.push(model(
        "runs",
        &format!("{runs} runs, alternately white space and text, of {lens:?} characters, 3 x 3 kinds of each"),
        move |ctx: &mut Ctx| -> R {
            let ws = *ctx.pick(&[" ", "\n", "\t \r"]);
            let tx = *ctx.pick(&["x", "\u{e9}", "\u{1F600}y"]);
            let start = ctx.choose(2);
            let mut s = String::new();
            for i in 0..runs {
                let l = *ctx.pick(lens);
                let piece = if (i + start) % 2 == 0 { ws } else { tx };
                s.extend(piece.chars().cycle().take(l));
            }
            ctx.state(s.as_str());
            check(ctx, &s)
        },
    ));
    let max = if t { 400 } else { 140 };
    v.push(model(
        "two-positions",
        &format!("strings of every length up to {max} with white space at every one or two positions"),
        move |ctx: &mut Ctx| -> R {
            let n = ctx.range(1, max);
            let a = ctx.choose(n);
            let fill = *ctx.pick(&["x", "\u{e9}"]);
            let mut buf: Vec<&str> = vec![fill; n];
            buf[a] = *ctx.pick(&["\t", " "]);
            ctx.state(&(n, a, fill, buf[a]));
            check(ctx, &buf.concat())?;
            // the second position is looped over, to keep executions few
            let step = if n > 64 { 7 } else { 1 };
            for b in (0..n).step_by(step) {
                let old = buf[b];
                buf[b] = "\n";
                check(ctx, &buf.concat())?;
                buf[b] = old;
            }
            Ok(())
        },
    ));
}

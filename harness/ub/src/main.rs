//! C28: no safe use of the library or of derived code is undefined behaviour. Run under Miri, which judges every step.
//!
//! `ub SHARD SHARDS DEPTH [FIRST [LAST]]` runs the executions of that shard, printing each one's number and description
//! before it.
#![allow(dead_code, unused_variables)]

mod types;

use types::{Ty, NORMAL, TYPES};

/// The sequences over `0..n` of up to `max` numbers, each passed to `f`.
fn sequences(n: usize, max: usize, f: &mut dyn FnMut(&[usize])) {
    for len in 0..=(if n == 0 { 0 } else { max }) {
        let mut s = vec![0; len];
        loop {
            f(&s);
            let Some(i) = (0..len).rev().find(|&i| s[i] + 1 < n) else { break };
            s[i] += 1;
            s[i + 1..].fill(0);
        }
    }
}

/// All documents for a type: attributes (up to two, in order), children (sequences), how it ends. Each is passed to
/// `f` in a form which is only made into text when needed: there are many more than a shard runs.
fn documents(t: &Ty, depth: usize, f: &mut dyn FnMut(&dyn Fn() -> String)) {
    let depth = depth.min(t.max);
    sequences(t.attrs.len(), 2, &mut |attrs| {
        if attrs.len() == 2 && attrs[0] >= attrs[1] {
            return;
        }
        let text = |list: &[&'static str], which: &[usize], before: &str| -> String {
            let mut s = String::new();
            for i in which {
                s.push_str(before);
                s.push_str(list[*i]);
            }
            s
        };
        // (Two attributes with fewer children.)
        sequences(t.children.len(), depth.min(depth + 1 - attrs.len().min(1)), &mut |c| {
            let start = || ["<r", &text(t.attrs, attrs, " "), ">", &text(t.children, c, "")].concat();
            f(&|| start() + "</r>");
            // Ends early.
            if c.len() < depth || depth <= 1 {
                f(&start);
            }
        });
        f(&|| ["<r", &text(t.attrs, attrs, " "), "><u><v>x"].concat());
    });
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<usize> = std::env::args().skip(1).map(|a| a.parse().expect("number")).collect();
    let (shard, shards, depth) = (a[0], a[1], a[2]);
    let (first, last) = (a.get(3).copied().unwrap_or(0), a.get(4).copied().unwrap_or(usize::MAX));
    let mut n = 0;
    let mut outcomes = std::collections::BTreeMap::new();
    let mut states = std::collections::HashSet::new();
    let mut one = |model: &str, what: &dyn Fn() -> String, run: &dyn Fn(&str) -> Result<String, String>| {
        n += 1;
        if n < first || n > last || n % shards != shard {
            return;
        }
        let what = what();
        println!("RUN\t{n}\t{model}\t{what}");
        match run(&what) {
            Ok(o) => {
                let k = match o.split(' ').next().unwrap() {
                    "ok" => "ok",
                    "err" => "error",
                    _ => "panic",
                };
                *outcomes.entry((model.to_owned(), k)).or_insert(0u64) += 1;
                states.insert(o);
            }
            Err(e) => println!("BAD\t{n}\t{model}\t{what}\t{e}"),
        }
    };
    for t in TYPES {
        documents(t, depth, &mut |d| one(t.name, d, &t.run));
    }
    // Normalization: all short strings.
    sequences(NORMAL.len(), depth + 1, &mut |s| {
        one("normalize", &|| s.iter().map(|i| NORMAL[*i]).collect(), &types::normalize);
    });
    // Normalization of every byte a string can have, in every position of a character's encoding: each ASCII character,
    // each lead byte, each continuation byte as the second, third and fourth, alone, first, last and among spaces.
    for c in (0..0x80).chain(types::lead_and_continuation()) {
        let c = char::from_u32(c).expect("scalar value");
        for s in [format!("{c}"), format!(" {c}x{c}  {c}{c} "), format!("{c} {c}")] {
            one("normalize bytes", &|| s.clone(), &types::normalize);
        }
    }
    for ((m, o), c) in &outcomes {
        println!("OUTCOME\t{m}\t{o}\t{c}");
    }
    println!("DONE\t{n}\t{}", states.len());
}

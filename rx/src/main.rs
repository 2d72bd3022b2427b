// Regular-expression algebra for the checks: canonical trees, language inclusion and equality (automata, no search).
use regex_automata::dfa::{dense, Automaton, StartKind};
use regex_automata::util::primitives::StateID;
use regex_automata::util::syntax;
use regex_automata::{Anchored, Input, MatchKind};
use regex_syntax::hir::{Class, Hir, HirKind};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, Write};

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hir(h: &Hir, o: &mut String) {
    match h.kind() {
        HirKind::Empty => o.push_str("[\"empty\"]"),
        HirKind::Literal(l) => {
            let mut s = String::new();
            for b in l.0.iter() {
                let _ = write!(s, "{b:02x}");
            }
            let _ = write!(o, "[\"lit\",\"{s}\"]");
        }
        HirKind::Class(Class::Unicode(c)) => {
            o.push_str("[\"class\"");
            for r in c.ranges() {
                let _ = write!(o, ",[{},{}]", r.start() as u32, r.end() as u32);
            }
            o.push(']');
        }
        HirKind::Class(Class::Bytes(c)) => {
            o.push_str("[\"bclass\"");
            for r in c.ranges() {
                let _ = write!(o, ",[{},{}]", r.start(), r.end());
            }
            o.push(']');
        }
        HirKind::Look(l) => {
            let _ = write!(o, "[\"look\",\"{l:?}\"]");
        }
        HirKind::Repetition(r) => {
            let _ = write!(o, "[\"rep\",{},{},{},", r.min, r.max.map(|m| m as i64).unwrap_or(-1), r.greedy);
            hir(&r.sub, o);
            o.push(']');
        }
        HirKind::Capture(c) => {
            let _ = write!(o, "[\"cap\",{},{},", c.index, c.name.as_deref().map(js).unwrap_or("null".into()));
            hir(&c.sub, o);
            o.push(']');
        }
        HirKind::Concat(v) => {
            o.push_str("[\"cat\"");
            for x in v {
                o.push(',');
                hir(x, o);
            }
            o.push(']');
        }
        HirKind::Alternation(v) => {
            o.push_str("[\"alt\"");
            for x in v {
                o.push(',');
                hir(x, o);
            }
            o.push(']');
        }
    }
}
fn dfa(p: &str) -> Result<dense::DFA<Vec<u32>>, String> {
    dense::Builder::new()
        .syntax(syntax::Config::new())
        .configure(dense::Config::new().match_kind(MatchKind::All).start_kind(StartKind::Anchored).dfa_size_limit(Some(1 << 28)).determinize_size_limit(Some(1 << 28)))
        .build(&format!("\\A(?:{p})\\z"))
        .map_err(|e| e.to_string())
}
// is L(a) a subset of L(b)?  witness string otherwise
fn incl(a: &str, b: &str) -> Result<Option<Vec<u8>>, String> {
    let (a, b) = (dfa(a)?, dfa(b)?);
    let s0 = a.start_state_forward(&Input::new("").anchored(Anchored::Yes)).map_err(|e| e.to_string())?;
    let t0 = b.start_state_forward(&Input::new("").anchored(Anchored::Yes)).map_err(|e| e.to_string())?;
    let mut seen: HashMap<(StateID, StateID), Option<((StateID, StateID), u8)>> = HashMap::new();
    seen.insert((s0, t0), None);
    let mut q = vec![(s0, t0)];
    let mut qi = 0;
    while qi < q.len() {
        let (s, t) = q[qi];
        qi += 1;
        let sm = a.is_match_state(a.next_eoi_state(s));
        let tm = b.is_match_state(b.next_eoi_state(t));
        if sm && !tm {
            let mut w = vec![];
            let mut k = (s, t);
            while let Some(Some((p, c))) = seen.get(&k) {
                w.push(*c);
                k = *p;
            }
            w.reverse();
            return Ok(Some(w));
        }
        for c in 0..=255u8 {
            let s2 = a.next_state(s, c);
            if a.is_dead_state(s2) {
                continue;
            }
            let t2 = b.next_state(t, c);
            if !seen.contains_key(&(s2, t2)) {
                seen.insert((s2, t2), Some(((s, t), c)));
                q.push((s2, t2));
            }
        }
    }
    Ok(None)
}
fn main() {
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = out.lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split(' ').collect();
        let r = match p[0] {
            "hir" => match regex_syntax::Parser::new().parse(&unhex(p[1])) {
                Ok(h) => {
                    let mut s = String::new();
                    hir(&h, &mut s);
                    format!("{{\"hir\":{s}}}")
                }
                Err(e) => format!("{{\"err\":{}}}", js(&e.to_string())),
            },
            "incl" => match incl(&unhex(p[1]), &unhex(p[2])) {
                Ok(None) => "{\"ok\":true}".to_string(),
                Ok(Some(w)) => format!("{{\"ok\":false,\"w\":{}}}", js(&String::from_utf8_lossy(&w))),
                Err(e) => format!("{{\"err\":{}}}", js(&e)),
            },
            _ => "{\"err\":\"cmd\"}".to_string(),
        };
        writeln!(out, "{r}").unwrap();
        out.flush().unwrap();
    }
}

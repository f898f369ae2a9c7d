//! String literals and identifiers in Rust source.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// How a string is written in the source.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Spell {
    Plain,
    /// every character as an escape
    Escaped,
    Raw,
}

pub fn literal(s: &str, spell: Spell) -> String {
    match spell {
        Spell::Plain => {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    ' '..='~' => o.push(c),
                    c if c.is_alphanumeric() => o.push(c),
                    c => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
                }
            }
            o + "\""
        }
        Spell::Escaped => {
            let mut o = String::from("\"");
            for c in s.chars() {
                if (c as u32) < 0x80 {
                    o.push_str(&format!("\\x{:02x}", c as u32));
                } else {
                    o.push_str(&format!("\\u{{{:x}}}", c as u32));
                }
            }
            o + "\""
        }
        Spell::Raw => {
            // only when it can be written at all
            if s.chars().all(|c| matches!(c, ' '..='~') || c.is_alphanumeric() || c == '\n') {
                let mut hashes = String::from("#");
                while s.contains(&format!("\"{hashes}")) {
                    hashes.push('#');
                }
                format!("r{hashes}\"{s}\"{hashes}")
            } else {
                literal(s, Spell::Plain)
            }
        }
    }
}

pub fn spell() -> impl Strategy<Value = Spell> {
    prop_oneof![4 => Just(Spell::Plain), 1 => Just(Spell::Escaped), 2 => Just(Spell::Raw)]
}

const KEYWORDS: [&str; 52] = [
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut",
    "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn",
    "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen",
];

pub fn keyword(s: &str) -> bool {
    KEYWORDS.contains(&s)
}

/// Could this be written as an identifier (a plain one)?
pub fn identish(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_') && c.all(|c| c.is_ascii_alphanumeric() || c == '_') && s != "_" && !keyword(s)
}

/// Could this be written as a raw identifier?
pub fn rawish(s: &str) -> bool {
    (identish(s) || keyword(s)) && !["crate", "self", "super", "Self"].contains(&s)
}

pub fn value() -> impl Strategy<Value = String> {
    prop_oneof![
        3 => "[a-z]{1,6}",
        1 => Just(String::new()),
        2 => "[ -~]{1,12}",
        1 => "[\"\\\\\n{}$#, ]{1,6}",
        1 => "[a-zéß中λ]{1,5}",
        1 => "\\PC{1,5}",
        1 => "[ -~]{60,300}",
    ]
}

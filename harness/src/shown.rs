//! C28: what is displayed of errors and set members, and what they are converted to.
use crate::gram::{schr, text_of};
use crate::sx;
use henriks_parsing_project::errors::{GrammarError, ParserError};
use henriks_parsing_project::named_graph::GraphError;
use henriks_parsing_project::sets::{SetMember, SetMemberWithEmpty};
use henriks_parsing_project::tree::{NodeId, TreeError};
use std::convert::TryFrom;
use std::fmt::Display;

fn nib(l: u64, i: usize) -> usize {
    (l >> (4 * i) & 15) as usize
}
/// A number near one of some places: at + off, off symbolic.
#[derive(Clone, Copy)]
struct Num {
    v: usize,
    at: usize,
    off: usize,
    most: usize,
}
fn number(bits: u32) -> Num {
    let bits = bits.min(3);
    let at = [0, 5, 98, 252, 999, 65_530, 9_999_999_998, usize::MAX - 7][sx::pick(8)];
    let off = sx::sym(bits) as usize;
    Num { v: at + off, at, off, most: 1 << bits }
}
fn shown<T: Display>(x: &T) -> Vec<u8> {
    let Some(s) = sx::catch(|| x.to_string()) else { sx::fail(1) };
    sx::log(s.len() as u64);
    s.into_bytes()
}
/// Where a part ends, if it begins behind `from`: after[i] = it has ended at i or before, having begun at a place where from[] holds.
type Places = Vec<bool>;
fn start(o: &[u8]) -> Places {
    vec![true; o.len() + 1]
}
fn ended(hit: Vec<bool>) -> Places {
    let mut r = vec![];
    let mut any = false;
    for h in hit {
        any |= h;
        r.push(any);
    }
    r
}
fn text(o: &[u8], from: Places, part: &str) -> Places {
    let p = part.as_bytes();
    let mut hit = vec![false; o.len() + 1];
    for i in 0..=o.len() {
        if i + p.len() > o.len() {
            break;
        }
        let mut m = from[i];
        for (j, b) in p.iter().enumerate() {
            m &= o[i + j] == *b;
        }
        hit[i + p.len()] = m;
    }
    ended(hit)
}
fn digit(b: u8) -> bool {
    (b >= b'0') & (b <= b'9')
}
/// The digits of a given number.
fn digits(mut v: usize) -> Vec<u8> {
    let mut d = vec![];
    loop {
        d.insert(0, b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            return d;
        }
    }
}
/// The decimal digits of the number, with no digit before or behind.
fn decimal(o: &[u8], from: Places, v: Num) -> Places {
    let mut hit = vec![false; o.len() + 1];
    for k in 0..v.most {
        let d = digits(v.at + k);
        for i in 0..=o.len() {
            let e = i + d.len();
            if e > o.len() {
                break;
            }
            let mut m = from[i] & (v.off == k);
            for (j, x) in d.iter().enumerate() {
                m &= o[i + j] == *x;
            }
            if i > 0 {
                m &= !digit(o[i - 1]);
            }
            if e < o.len() {
                m &= !digit(o[e]);
            }
            hit[e] |= m;
        }
    }
    ended(hit)
}
fn holds(p: Places, code: u32) {
    sx::check(p[p.len() - 1], code);
}
fn word(n: usize, uni: bool) -> String {
    let v: Vec<char> = (0..sx::pick(n + 1)).map(|_| schr(uni)).collect();
    text_of(&v)
}
fn quoted(c: char) -> String {
    let mut s = String::from("\"");
    s.push(c);
    s.push('"');
    s
}
/// nibbles: kind of value; symbolic bits of a number; symbolic characters of a text; 1 = any Unicode scalar value
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c28(l: u64) {
    let (bits, n, uni) = (nib(l, 1) as u32, nib(l, 2), nib(l, 3) == 1);
    match nib(l, 0) {
        // errors of a text
        0 => {
            let (chr, pos, expected) = (schr(uni), number(bits), word(n, uni));
            let o = shown(&ParserError::UnexpectedCharError { chr, pos: pos.v, expected: expected.clone() });
            let p = text(&o, start(&o), &quoted(chr));
            holds(text(&o, decimal(&o, p, pos), &expected), 2);
        }
        1 => {
            let pos = number(bits);
            let o = shown(&ParserError::EndOfCharsError { pos: pos.v });
            holds(decimal(&o, start(&o), pos), 3);
        }
        2 => {
            let (pos, operation) = (number(bits), word(n, uni));
            let o = shown(&ParserError::UnknownSpecialOperation { operation: operation.clone(), pos: pos.v });
            let p = text(&o, start(&o), &operation);
            holds(decimal(&o, p, pos), 4);
        }
        // errors of a grammar that name an index
        3 => {
            let index = number(bits);
            let e = match sx::pick(6) {
                0 => GrammarError::MissingFollowSet { index: index.v },
                1 => GrammarError::MissingElementForIndex { index: index.v },
                2 => GrammarError::MissingFirstSet { index: index.v },
                3 => GrammarError::MissingSteuerSet { index: index.v },
                4 => GrammarError::MissingProduction { index: index.v },
                _ => GrammarError::LeftRecursion { index: index.v },
            };
            let o = shown(&e);
            holds(decimal(&o, start(&o), index), 5);
        }
        4 => {
            let (pos, reason) = (number(bits), word(n, uni));
            let o = shown(&GrammarError::UnexpectedElementError { reason: reason.clone(), pos: pos.v });
            let p = text(&o, start(&o), &reason);
            holds(decimal(&o, p, pos), 6);
        }
        // errors of a tree
        5 => {
            let (ptr, pk) = (number(bits), number(bits));
            let node_id = NodeId { node_ptr: ptr.v, node_pk: pk.v };
            let o = match sx::pick(3) {
                0 => shown(&node_id),
                1 => shown(&TreeError::NodeDoesNotExist { node_id }),
                _ => shown(&TreeError::NodeWasRemoved { node_id }),
            };
            let p = decimal(&o, start(&o), ptr);
            holds(decimal(&o, p, pk), 7);
        }
        6 => {
            let nth = number(bits);
            let o = shown(&TreeError::ChildDoesNotExists { child_nth: nth.v });
            holds(decimal(&o, start(&o), nth), 8);
        }
        // members of sets
        7 => {
            let c = schr(uni);
            let mut one = String::new();
            one.push(c);
            let same = |s: &str| s.as_bytes() == one.as_bytes();
            let a = shown(&SetMember::Char(c));
            holds(text(&a, start(&a), &one), 9);
            let b = shown(&SetMemberWithEmpty::Char(c));
            holds(text(&b, start(&b), &one), 10);
            let s: String = SetMember::Char(c).into();
            sx::check(same(&s), 11);
            let s: String = SetMemberWithEmpty::Char(c).into();
            sx::check(same(&s), 12);
            match SetMember::try_from(SetMemberWithEmpty::Char(c)) {
                Ok(SetMember::Char(d)) => sx::check(c == d, 13),
                _ => sx::fail(14),
            }
            match SetMember::from(Some(&c)) {
                SetMember::Char(d) => sx::check(c == d, 15),
                _ => sx::fail(16),
            }
            sx::check(SetMember::from(None) == SetMember::Terminate, 17);
            sx::check(SetMember::try_from(SetMemberWithEmpty::Terminate) == Ok(SetMember::Terminate), 18);
            sx::check(SetMember::try_from(SetMemberWithEmpty::Empty).is_err(), 19);
            // the end and the empty marker differ from each other and from a character
            let (e, z) = (shown(&SetMemberWithEmpty::Empty), shown(&SetMemberWithEmpty::Terminate));
            sx::check(e != z && shown(&SetMember::Terminate) == z, 20);
            sx::check((a.len() != z.len()) | (e.len() != b.len()), 21);
            let (e, z): (String, String) = (SetMemberWithEmpty::Empty.into(), SetMemberWithEmpty::Terminate.into());
            let y: String = SetMember::Terminate.into();
            sx::check(e != z && y == z && e.len() > 4 && z.len() > 4, 22);
        }
        // errors of a graph with names
        9 => {
            if sx::pick(2) == 0 {
                let index = number(bits);
                let o = shown(&GraphError::IndexOutOfBounds { index: index.v });
                holds(decimal(&o, start(&o), index), 24);
                sx::cover(1);
                return;
            }
            let node_name = word(n, uni);
            let name = node_name.clone();
            let o = shown(&if sx::pick(2) == 0 { GraphError::NodeAlreadyExistsError { node_name } } else { GraphError::NodeDoesNotExistsError { node_name } });
            let mut part = String::from("\"");
            part.push_str(&name);
            part.push('"');
            holds(text(&o, start(&o), &part), 25);
        }
        // errors within errors
        _ => {
            let v = sx::sym(64) as usize;
            let w = sx::sym(64) as usize;
            let node_id = NodeId { node_ptr: v, node_pk: w };
            let same = |x: &NodeId| (x.node_ptr == v) & (x.node_pk == w);
            let ok = match sx::pick(9) {
                0 => matches!(ParserError::from(TreeError::NodeDoesNotExist { node_id }), ParserError::TreeError { err: TreeError::NodeDoesNotExist { node_id: x } } if same(&x)),
                1 => matches!(ParserError::from(TreeError::NodeWasRemoved { node_id }), ParserError::TreeError { err: TreeError::NodeWasRemoved { node_id: x } } if same(&x)),
                2 => matches!(ParserError::from(TreeError::ChildDoesNotExists { child_nth: v }), ParserError::TreeError { err: TreeError::ChildDoesNotExists { child_nth: x } } if x == v),
                3 => matches!(ParserError::from(GrammarError::MissingFollowSet { index: v }), ParserError::GramError { err: GrammarError::MissingFollowSet { index: x } } if x == v),
                4 => matches!(ParserError::from(GrammarError::MissingFirstSet { index: v }), ParserError::GramError { err: GrammarError::MissingFirstSet { index: x } } if x == v),
                5 => matches!(ParserError::from(GrammarError::MissingProduction { index: v }), ParserError::GramError { err: GrammarError::MissingProduction { index: x } } if x == v),
                6 => matches!(ParserError::from(GrammarError::LeftRecursion { index: v }), ParserError::GramError { err: GrammarError::LeftRecursion { index: x } } if x == v),
                7 => matches!(ParserError::from(GrammarError::MissingElementForIndex { index: v }), ParserError::GramError { err: GrammarError::MissingElementForIndex { index: x } } if x == v),
                _ => matches!(ParserError::from(GrammarError::UnexpectedElementError { reason: String::from("why"), pos: v }),
                    ParserError::GramError { err: GrammarError::UnexpectedElementError { reason, pos } } if pos == v && reason == "why"),
            };
            sx::check(ok, 23);
        }
    }
    sx::cover(1);
}

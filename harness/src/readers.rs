//! C17 and C18: readers and the lexical helpers on them.
use crate::gram::same_text;
use crate::sx;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parse_funcs::*;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use std::str::Chars;

fn nib(l: u64, i: u32) -> usize {
    (l >> (4 * i) & 15) as usize
}
fn chr(uni: bool) -> char {
    if !uni {
        return sx::ascii();
    }
    if sx::is_wide() {
        return sx::any_char();
    }
    match sx::choose(7) {
        0 => sx::ascii(),
        1 => 'ß',
        2 => '\u{2003}',
        3 => '\u{1F600}',
        4 => '\u{663}', // a digit, not of ASCII
        5 => '\u{a0}',
        _ => 'Ⅷ', // a letter-like number
    }
}
fn text(n: usize, uni: bool) -> Vec<char> {
    (0..n).map(|_| if uni { sx::scalar() } else { sx::ascii() }).collect()
}
fn leak(s: &[char]) -> &'static str {
    let mut t = String::new();
    for c in s {
        t.push(*c);
    }
    Box::leak(t.into_boxed_str())
}

/// Where reading from `from` ends: the first stop character that is not escaped, or `end`.
fn bound(s: &[char], from: usize, end: usize, stop: Option<char>, esc: Option<char>) -> usize {
    let Some(st) = stop else { return end };
    let mut i = from;
    while i < end {
        if sx::decide(s[i] == st) {
            return i;
        }
        if esc.is_some_and(|e| sx::decide(s[i] == e)) {
            i += 1; // whatever comes next is escaped
        }
        i += 1;
    }
    end
}

/// One operation on a reader that shall yield s[at..end]; returns the new place.
fn op<T: TPeekable<Item = char>>(r: &mut ParseProcess<T>, s: &[char], at: usize, end: usize, base: usize) -> usize {
    sx::check(r.cur_pos() == base.wrapping_add(at), 1);
    let want = if at < end { Some(s[at]) } else { None };
    let eq = |x: Option<char>| match (x, want) {
        (Some(a), Some(b)) => a == b,
        (None, None) => true,
        _ => false,
    };
    let mut took = false;
    match sx::pick(6) {
        0 => {
            let x = r.next();
            sx::check(eq(x), 2);
            took = true;
        }
        1 => {
            let x = r.peek().copied();
            sx::check(eq(x), 3);
        }
        2 => {
            let x = r.peek_mut().map(|c| *c);
            sx::check(eq(x), 4);
        }
        3 => {
            // taken exactly if the condition holds of the very next character
            let yes = sx::flag();
            let mut asked: Option<char> = None;
            let x = r.next_if(|c| {
                asked = Some(*c);
                yes
            });
            sx::check(eq(asked), 5);
            sx::check(if yes { eq(x) } else { x.is_none() }, 6);
            took = yes;
        }
        4 => {
            let e = sx::ascii();
            let hit = want.is_some_and(|w| sx::decide(w == e));
            let x = r.next_if_eq(&e);
            sx::check(if hit { eq(x) } else { x.is_none() }, 7);
            took = hit;
        }
        _ => {
            let x = r.next_if(|c| c.is_ascii_alphabetic());
            let hit = want.is_some_and(|w| sx::decide(w.is_ascii_alphabetic()));
            sx::check(if hit { eq(x) } else { x.is_none() }, 8);
            took = hit;
        }
    }
    let at = at + (took && at < end) as usize;
    sx::check(r.cur_pos() == base.wrapping_add(at), 9);
    at
}
fn marks(kind: usize) -> (Option<char>, Option<char>) {
    match kind {
        0 => (None, None),
        1 => (Some(sx::ascii()), None),
        2 => (None, Some(sx::ascii())),
        _ => {
            let (s, e) = (sx::ascii(), sx::ascii());
            sx::assume(s != e);
            (Some(s), Some(e))
        }
    }
}
/// A long text: letters, with the given marks and two symbolic characters at chosen places.
fn long(uni: bool) -> Vec<char> {
    let one = || if uni { sx::scalar() } else { sx::ascii() };
    let mut s: Vec<char> = (0..sx::long(400)).map(|i| char::from(b'a' + (i % 26) as u8)).collect();
    let few = sx::long(1) > 1;
    let i = if few { sx::long(300) } else { [0, 127, 128, 255, 256, 300][sx::pick(6)] };
    s[i] = one();
    s[i + 1] = one();
    s
}
/// nibbles: characters; operations before, within and after nesting; 1 = beyond ASCII; kinds of marks, outer and inner; 1 = an offset; 1 = a long text, most of it taken before the operations in the middle
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c17(l: u64) {
    sx::doubled(l);
    let big = nib(l, 8) == 1;
    let s = if big { long(nib(l, 4) == 1) } else { text(nib(l, 0), nib(l, 4) == 1) };
    let t = leak(&s);
    // in a long text the marks are given
    let marks = |k: usize| if big { [(None, None), (Some(';'), None), (Some('}'), Some('\\')), (Some('\\'), Some('}'))][k] } else { marks(k) };
    let outer = marks(if nib(l, 5) > 3 { sx::pick(4) } else { nib(l, 5) });
    let end = bound(&s, 0, s.len(), outer.0, outer.1);
    let mut pk: PeekableWrapper<Chars> = if sx::flag() { PeekableWrapper::from_str(t) } else { PeekableWrapper::new(t.chars().peekable()) };
    // a reader at the top starts at 0, one made with an offset at that
    let base = if nib(l, 7) == 1 { sx::sym(32) as usize } else { 0 };
    let mut r = if nib(l, 7) == 1 { ParseProcess::new_nested(&mut pk, outer.0, outer.1, base) } else { ParseProcess::new(&mut pk, outer.0, outer.1) };
    let mut at = 0;
    for _ in 0..nib(l, 1) {
        at = op(&mut r, &s, at, end, base);
    }
    if nib(l, 2) > 0 {
        let inner = marks(if nib(l, 6) > 3 { sx::pick(4) } else { nib(l, 6) });
        let iend = bound(&s, at, end, inner.0, inner.1);
        let off = sx::sym(32) as usize;
        let ibase = off.wrapping_sub(at);
        {
            let mut n = ParseProcess::new_nested(&mut r, inner.0, inner.1, off);
            if big {
                let far = if sx::long(1) > 1 { sx::long(300) - 1 } else { [0, 126, 254, 290][sx::pick(4)] };
                while at < far.min(iend) {
                    let x = n.next();
                    sx::check(x == Some(s[at]), 25);
                    at += 1;
                }
            }
            for _ in 0..nib(l, 2) {
                at = op(&mut n, &s, at, iend, ibase);
            }
        }
        if at == iend && iend < end {
            sx::cover(1);
        }
        sx::check(r.cur_pos() == base + at, 20);
        for _ in 0..nib(l, 3) {
            at = op(&mut r, &s, at, end, base);
        }
    }
    if end < s.len() && at == end {
        sx::cover(2);
    }
    // all the rest
    while at < end {
        let x = r.next();
        sx::check(x == Some(s[at]), 21);
        at += 1;
    }
    sx::check(r.next().is_none() && r.peek().is_none() && r.next().is_none(), 22);
    sx::check(r.cur_pos() == base + end, 23);
    sx::log(end as u64);
    // below, the text goes on behind what was taken
    let rest = pk.next();
    sx::check(rest == s.get(end).copied(), 24);
}

#[derive(Clone, Copy)]
enum Tok {
    None,
    Len(usize),
}
fn digit(c: char) -> bool {
    (c >= '0') & (c <= '9')
}
fn white(c: char) -> bool {
    ((c >= '\t') & (c <= '\r')) | (c == ' ') | (c == '\u{85}') | (c == '\u{a0}') | (c == '\u{2003}') | (c == '\u{2028}') | (c == '\u{3000}')
}
fn letter(c: char) -> bool {
    ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == 'ß') | (c == 'Ⅷ') | (c == 'Ж') | (c == '\u{1d4d0}')
}
fn run(s: &[char], from: usize, f: impl Fn(char) -> bool) -> usize {
    let mut i = from;
    while i < s.len() && sx::decide(f(s[i])) {
        i += 1;
    }
    i
}
/// value of decimal digits, or None if above the limit
fn value(s: &[char], limit: u128) -> Option<u128> {
    if s.len() < 19 {
        let v = s.iter().fold(0u64, |v, c| v.wrapping_mul(10).wrapping_add((*c as u32).wrapping_sub(48) as u64));
        return Some(v as u128);
    }
    let mut s = s;
    if s.len() > 30 {
        while s.len() > 20 {
            if !sx::decide(s[0] == '0') {
                return None;
            }
            s = &s[1..];
        }
    }
    let mut v: u128 = 0;
    let mut big = false;
    for c in s {
        v = v.wrapping_mul(10).wrapping_add((*c as u32).wrapping_sub(48) as u128);
        big |= v > limit;
    }
    if sx::decide(big) { None } else { Some(v) }
}
fn refused(e: &ParserError, s: &[char], pos: usize) -> bool {
    match e {
        ParserError::UnexpectedCharError { chr, pos: p, .. } => pos < s.len() && (*p == pos) & (*chr == s[pos]),
        ParserError::EndOfCharsError { pos: p } => pos == s.len() && *p == pos,
        _ => false,
    }
}
/// nibbles: characters; helper (7 = any); 1 = beyond ASCII; form of text (0 any, 1.. numbers near the limits); characters taken before; 1 = stop at a symbolic character; 1..5 = a long token instead of the form
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c18(l: u64) {
    sx::doubled(l);
    let uni = nib(l, 2) & 1 == 1;
    sx::wide(nib(l, 2) & 2 == 2);
    let mut s: Vec<char> = vec![];
    let lead = nib(l, 4);
    for _ in 0..lead {
        s.push('x');
    }
    match nib(l, 3) {
        0 => {}
        1 => s.extend("184467440737095516".chars()),
        2 => s.extend("92233720368547758".chars()),
        3 => s.extend("-92233720368547758".chars()),
        4 => s.extend("000000000000000000000".chars()),
        5 => s.extend("1844674407370955161".chars()),
        6 => s.extend("-922337203685477580".chars()),
        _ => s.extend("99999999999999999999".chars()),
    }
    let odd = [1, 64, 130, 256, sx::long(300) - 1][sx::pick(if nib(l, 6) > 0 { 5 } else { 1 })];
    let back = s.len();
    match nib(l, 6) {
        0 => {}
        1 => s.extend((0..sx::long(300) as u32).map(|i| char::from(b'0' + (i % 10) as u8))),
        2 => s.extend((0..sx::long(300) as u32).map(|i| char::from(if i % 27 == 26 { b'_' } else { b'A' + (i % 27) as u8 }))),
        3 => s.extend((0..sx::long(300)).map(|i| [' ', '\n', '\t', '\r'][i % 4])),
        4 => s.extend(std::iter::repeat_n('0', sx::long(300))),
        _ => {
            s.push('-');
            s.extend(std::iter::repeat_n('0', sx::long(300) - 1));
        }
    }
    if nib(l, 6) > 0 {
        s[back + odd] = chr(uni);
    }
    let full = nib(l, 0);
    let n = sx::pick(full + 1);
    for _ in 0..n {
        s.push(chr(uni));
    }
    let t = leak(&s);
    let mut pk = PeekableWrapper::from_str(t);
    let stop = if nib(l, 5) == 1 { Some(sx::ascii()) } else { None };
    if let Some(x) = stop {
        sx::assume((x != 'x') & !digit(x) & (x != '-'));
    }
    let end = bound(&s, 0, s.len(), stop, None);
    let mut r = ParseProcess::new(&mut pk, stop, None);
    for _ in 0..lead {
        let _ = r.next();
    }
    let vis = &s[..end];
    let which = if nib(l, 1) == 7 { sx::pick(7) } else { nib(l, 1) };
    let mut tok = Tok::None;
    match which {
        0 => {
            if sx::catch(|| parse_whitespace(&mut r)).is_none() {
                sx::fail(1);
            }
            let e = run(vis, lead, white);
            tok = Tok::Len(e);
            if e > lead + 1 {
                sx::cover(1);
            }
        }
        1 => {
            let Some(x) = sx::catch(|| parse_digits(&mut r)) else { sx::fail(2) };
            let e = run(vis, lead, digit);
            match x {
                Ok(d) => sx::check(same_text(&d, leak(&vis[lead..e])), 3),
                Err(_) => sx::check(e == lead, 4),
            }
            tok = Tok::Len(e);
            if e > lead + 1 {
                sx::cover(2);
            }
        }
        2 => {
            let Some(x) = sx::catch(|| parse_usize(&mut r)) else { sx::fail(5) };
            let e = run(vis, lead, digit);
            let want = if e > lead { value(&vis[lead..e], u64::MAX as u128) } else { None };
            match (x, want) {
                (Ok(v), Some(w)) => {
                    sx::check(v as u128 == w, 6);
                    sx::log(v as u64);
                    tok = Tok::Len(e);
                    sx::cover(3);
                }
                (Err(er), None) => {
                    if e == lead {
                        sx::check(refused(&er, vis, lead), 7);
                        tok = Tok::Len(lead);
                    } else {
                        sx::cover(4);
                    }
                }
                _ => sx::fail(8),
            }
        }
        3 => {
            let Some(x) = sx::catch(|| parse_isize(&mut r)) else { sx::fail(9) };
            let neg = vis.len() > lead && sx::decide(vis[lead] == '-');
            let b = lead + neg as usize;
            let e = run(vis, b, digit);
            let limit = if neg { 1u128 << 63 } else { (1u128 << 63) - 1 };
            let want = if e > b { value(&vis[b..e], limit) } else { None };
            match (x, want) {
                (Ok(v), Some(w)) => {
                    if neg && e - b < 19 {
                        let w = vis[b..e].iter().fold(0i64, |v, c| v.wrapping_mul(10).wrapping_sub((*c as u32).wrapping_sub(48) as i64));
                        sx::check(v as i64 == w, 10);
                    } else {
                        let w = w as i128;
                        sx::check(v as i128 == if neg { w.wrapping_neg() } else { w }, 10);
                    }
                    sx::log(v as u64);
                    tok = Tok::Len(e);
                    sx::cover(if neg { 6 } else { 5 });
                }
                (Err(_), None) => {
                    if e > b {
                        sx::cover(7);
                    }
                }
                _ => sx::fail(11),
            }
        }
        4 | 5 => {
            let c = chr(uni);
            let Some(x) = sx::catch(|| parse_symbol(&mut r, c)) else { sx::fail(12) };
            let hit = vis.len() > lead && sx::decide(vis[lead] == c);
            match x {
                Ok(()) => {
                    sx::check(hit, 13);
                    tok = Tok::Len(lead + 1);
                    sx::cover(8);
                }
                Err(er) => {
                    sx::check(!hit, 14);
                    sx::check(refused(&er, vis, lead), 15);
                    tok = Tok::Len(lead);
                }
            }
        }
        _ => {
            let Some(x) = sx::catch(|| parse_var_name(&mut r)) else { sx::fail(16) };
            let ok = vis.len() > lead && sx::decide(letter(vis[lead]));
            match x {
                Ok(name) => {
                    sx::check(ok, 17);
                    let e = run(vis, lead + 1, |c| letter(c) | digit(c) | (c == '_') | (c == '\u{663}'));
                    sx::check(same_text(&name, leak(&vis[lead..e])), 18);
                    tok = Tok::Len(e);
                    if e > lead + 1 {
                        sx::cover(9);
                    }
                }
                Err(er) => {
                    sx::check(!ok, 19);
                    sx::check(refused(&er, vis, lead), 20);
                    tok = Tok::Len(lead);
                }
            }
        }
    }
    if let Tok::Len(e) = tok {
        sx::log(e as u64);
        sx::check(r.cur_pos() == e, 21);
        for i in e..end {
            let x = r.next();
            sx::check(x == Some(s[i]), 22);
        }
        sx::check(r.next().is_none(), 23);
    }
}

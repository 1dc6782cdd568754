//! C26: readers of the parts of a grammar text, called one by one.
use crate::gram::{RecVm, chr, same_text, text_of};
use crate::sx;
use crate::texts::{El, Over, Read, reader_plain};
use henriks_parsing_project::parser_data::{ElementType, ElementVerbose, ParserData, Production};
use henriks_parsing_project::rule_parsing::{RuleParser, parse_terminal};
use std::rc::Rc;

type Rp = RuleParser<'static, 'static, RecVm>;

/// The reader stands at p: it says so, and what is left is what is left.
fn stands(rp: &mut Rp, s: &[char], p: usize, code: u32) {
    sx::check(rp.parse_process.cur_pos() == p, code);
    let mut ok = true;
    for c in &s[p..] {
        match rp.parse_process.next() {
            Some(x) => ok &= x == *c,
            None => sx::fail(code + 1),
        }
    }
    sx::check(ok, code + 2);
    sx::check(rp.parse_process.next().is_none(), code + 3);
}
fn same_el(e: &El, y: &ElementVerbose) -> bool {
    match e {
        El::T(t) => (y.et == ElementType::Terminal) & same_text(&y.name, &text_of(t)),
        El::N(t) => (y.et == ElementType::NonTerminal) & same_text(&y.name, &text_of(t)),
    }
}
fn same_prod(pd: &ParserData<RecVm>, p: &Rc<Production>, a: &[El], code: u32) {
    match &**p {
        Production::Empty => sx::check(a.is_empty(), code),
        Production::NotEmpty(v) => {
            sx::check(!a.is_empty() & (v.len() == a.len()), code);
            for (ix, e) in v.iter().zip(a) {
                let Some(y) = pd.get_element_verbose(*ix) else { sx::fail(code + 1) };
                sx::check(same_el(e, &y), code + 2);
            }
        }
    }
}
fn letter(c: char) -> bool {
    ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == 'ß') | (c == 'Ж') | (c == '\u{1d4d0}') | (c == '\u{2167}')
}
/// The next element, if the text has one. Err: a terminal that does not end.
fn element(r: &mut Read) -> Result<Option<Option<El>>, ()> {
    if r.at(|c| c == '#') {
        r.p += 1;
        return Ok(Some(None));
    }
    if r.at(|c| c == '"') {
        r.p += 1;
        return r.verbatim('"').map(|t| Some(Some(El::T(t)))).map_err(|_| ());
    }
    if r.at(letter) {
        return r.ident().map(|t| Some(Some(El::N(t)))).map_err(|_| ());
    }
    Ok(None)
}
/// None: the text does not have to be read (an open terminal), Some(None): refused
fn production(r: &mut Read) -> Option<Option<Vec<El>>> {
    let mut a = vec![];
    loop {
        r.ws();
        match element(r) {
            Err(()) => return None,
            Ok(None) => return Some(if a.is_empty() { None } else { Some(a) }),
            Ok(Some(None)) => return Some(if a.is_empty() { Some(a) } else { None }),
            Ok(Some(Some(e))) => a.push(e),
        }
    }
}
fn alternatives(r: &mut Read) -> Option<Option<Vec<Vec<El>>>> {
    let mut v = vec![];
    loop {
        match production(r)? {
            None => return Some(None),
            Some(a) => v.push(a),
        }
        r.ws();
        if r.eat('|').is_err() {
            return Some(Some(v));
        }
    }
}

/// nibbles: what is read (0 a terminal, 1 an element, 2 an alternative, 3 the alternatives, 4 a rule and another, 5 alternatives of given form, 6 rules of given form); symbolic characters; 1 = beyond ASCII
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c26(l: u64) {
    let nib = |i: u32| (l >> (4 * i) & 15) as usize;
    let (kind, n, uni) = (nib(0), nib(1), nib(2) & 1 == 1);
    sx::wide(nib(2) & 2 == 2);
    let mut s: Vec<char> = vec![];
    for _ in 0..n {
        s.push(chr(uni));
    }
    if kind >= 5 {
        // symbolic characters at places of a sample
        let sample: Vec<char> = if kind == 5 { "\"x\\\"\" a|#| b1 \"\"c;" } else { "a->\"b\" c|#{d\\}};b ->$[IGNORE:a] a \"q\";x" }.chars().collect();
        let b = sx::pick(sample.len() - n + 1);
        let mut t = sample.clone();
        t[b..b + n].copy_from_slice(&s);
        s = t;
    } else {
        let m = sx::pick(n + 1);
        s.truncate(m);
    }
    let kind = [0, 1, 2, 3, 4, 3, 4][kind];
    let mut rp = reader_plain(&s);
    let mut r = Read { s: &s, p: 0 };
    match kind {
        0 => {
            let want = if r.eat('"').is_ok() { r.verbatim('"').ok() } else { None };
            let Some(x) = sx::catch(|| parse_terminal(&mut rp.parse_process)) else { sx::fail(1) };
            match (x, want) {
                (Ok(t), Some(w)) => {
                    sx::cover(1);
                    sx::check(same_text(&t, &text_of(&w)), 2);
                    stands(&mut rp, &s, r.p, 3);
                }
                (Err(_), None) => sx::cover(2),
                _ => sx::fail(7),
            }
        }
        1 => {
            let want = element(&mut r);
            let Some(x) = sx::catch(|| Rp::parse_element(&mut rp.parse_process)) else { sx::fail(1) };
            match (x, want) {
                (Ok(t), Ok(Some(w))) => {
                    sx::cover(1);
                    match (t, w) {
                        (None, None) => {}
                        (Some(t), Some(w)) => sx::check(same_el(&w, &t), 2),
                        _ => sx::fail(8),
                    }
                    stands(&mut rp, &s, r.p, 3);
                }
                (Err(_), Err(())) => sx::cover(2),
                // nothing is taken where there is no element
                (Err(_), Ok(None)) => stands(&mut rp, &s, 0, 9),
                _ => sx::fail(7),
            }
        }
        2 => {
            let want = production(&mut r);
            let Some(x) = sx::catch(|| rp.parse_production()) else { sx::fail(1) };
            match (x, want) {
                (_, None) => {}
                (Ok(p), Some(Some(a))) => {
                    sx::cover(1);
                    same_prod(&rp.parser_data, &p, &a, 20);
                    stands(&mut rp, &s, r.p, 3);
                }
                (Err(_), Some(None)) => sx::cover(2),
                _ => sx::fail(7),
            }
        }
        3 => {
            let want = alternatives(&mut r);
            let Some(x) = sx::catch(|| rp.parse_possible_productions()) else { sx::fail(1) };
            match (x, want) {
                (_, None) => {}
                (Ok(ps), Some(Some(v))) => {
                    sx::cover(1);
                    sx::check(ps.len() == v.len(), 19);
                    for (p, a) in ps.iter().zip(&v) {
                        same_prod(&rp.parser_data, p, a, 20);
                    }
                    stands(&mut rp, &s, r.p, 3);
                }
                (Err(_), Some(None)) => sx::cover(2),
                _ => sx::fail(7),
            }
        }
        _ => {
            let mut rules = 0;
            loop {
                let want = r.rule();
                let Some(x) = sx::catch(|| rp.parse_rule()) else { sx::fail(1) };
                match (x, want) {
                    (Ok((ix, x)), Ok(w)) => {
                        rules += 1;
                        let Some(y) = rp.parser_data.get_element_verbose(ix) else { sx::fail(10) };
                        sx::check(same_el(&El::N(w.name.clone()), &y), 11);
                        sx::check(x.possible_productions.len() == w.alts.len(), 19);
                        for (p, a) in x.possible_productions.iter().zip(&w.alts) {
                            same_prod(&rp.parser_data, p, a, 20);
                        }
                        match (&w.over, x.ignore) {
                            (Over::Name(n), Some(ix)) => {
                                let Some(y) = rp.parser_data.get_element_verbose(ix) else { sx::fail(12) };
                                sx::check(same_el(&El::N(n.clone()), &y), 13);
                            }
                            (Over::Default | Over::Off, None) => {}
                            _ => sx::fail(14),
                        }
                        let sec = w.section.map(|x| x.1).unwrap_or_default();
                        sx::check(x.instruction.len() == sec.len(), 15);
                        let mut ok = true;
                        for (a, b) in x.instruction.iter().zip(&sec) {
                            ok &= *a == *b as usize;
                        }
                        sx::check(ok, 16);
                    }
                    (Err(_), Err(e)) => {
                        let _ = e;
                        break;
                    }
                    // not documented
                    (Ok(_), Err(e)) => {
                        sx::check(e.0, 17);
                        return;
                    }
                    (Err(_), Ok(_)) => sx::fail(18),
                }
                if sx::decide(r.p == s.len()) || rules == 2 {
                    stands(&mut rp, &s, r.p, 3);
                    break;
                }
            }
            if rules > 0 {
                sx::cover(1);
            } else {
                sx::cover(2);
            }
            sx::log(rules);
        }
    }
    sx::log(r.p as u64);
}

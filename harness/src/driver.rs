//! C25: a parser made from given prediction tables.
use crate::gram::*;
use crate::scripts::{code, leak};
use crate::sx;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parser_data::{ElementIndex, ElementVerbose, Production};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::sets::SetMember;
use henriks_parsing_project::steuer_map::{NTRules, Steuermap};
use henriks_parsing_project::vms::VM;
use std::collections::HashMap;
use std::rc::Rc;

enum No {
    /// nothing applies here
    At(usize),
    /// something that is needed is missing
    Missing,
}
type Shape = Vec<(usize, String)>;
struct Given<'a> {
    g: &'a Gram,
    /// under which characters, and whether under the end, each alternative is entered
    keys: Vec<Vec<(Vec<char>, bool)>>,
    table: Vec<bool>,
    s: &'a [char],
    pos: usize,
    busy: Vec<(usize, usize)>,
    done: Vec<(usize, Shape)>,
    keep: bool,
}
impl Given<'_> {
    fn nt(&mut self, n: usize) -> Result<Shape, No> {
        let g = self.g;
        if n >= g.k() || !self.table[n] {
            return Err(No::Missing);
        }
        // tables that go round without taking a character
        sx::assume(!self.busy.contains(&(n, self.pos)));
        let mut alt = None;
        for (j, (cs, end)) in self.keys[n].iter().enumerate() {
            let mut fits = *end;
            if self.pos < self.s.len() {
                let mut r = false;
                for c in cs {
                    r |= *c == self.s[self.pos];
                }
                fits = sx::decide(r);
            }
            if fits {
                alt = Some(&g.nt[n][j]);
                break;
            }
        }
        let Some(a) = alt else { return Err(No::At(self.pos)) };
        self.busy.push((n, self.pos));
        let mut shape = vec![(0, String::new())];
        for x in a {
            match x {
                S::T(t) => {
                    for c in &g.ts[*t] {
                        if self.pos >= self.s.len() || !sx::decide(self.s[self.pos] == *c) {
                            return Err(No::At(self.pos));
                        }
                        self.pos += 1;
                    }
                    shape.push((1, text_of(&g.ts[*t])));
                }
                S::N(y) => {
                    let sub = self.nt(*y)?;
                    if self.keep {
                        for (d, s) in sub {
                            shape.push((d + 1, s));
                        }
                    }
                }
            }
        }
        self.busy.pop();
        self.done.push((n, if self.keep { shape.clone() } else { vec![] }));
        Ok(shape)
    }
}

/// bits 40..43: 1 = something may be missing; 44..47: ways of arranging the elements; 48..51: characters an alternative is entered under at most
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c25(l: u64) {
    let c = Cfg::new(l & (1 << 40) - 1);
    let (gaps, ways, most) = (l >> 40 & 15 == 1, (l >> 44 & 15) as usize, (l >> 48 & 15) as usize);
    let mut pool = vec![];
    for _ in 0..c.slen {
        pool.push(schr(c.o(O_UNI)));
    }
    let mut g = gen_family(&c);
    if c.fam == 15 {
        pool.truncate(0);
    }
    let k = g.k();
    // the tables
    let mut keys: Vec<Vec<(Vec<char>, bool)>> = vec![];
    for alts in &g.nt {
        let mut v: Vec<(Vec<char>, bool)> = vec![];
        let at_end = sx::pick(alts.len() + 1);
        let mut all: Vec<char> = vec![];
        for j in 0..alts.len() {
            let mut cs = vec![];
            let n = if c.fam == 0 { sx::pick(most + 1) } else { most };
            for _ in 0..n {
                let x = schr(c.o(O_UNI));
                for y in &all {
                    sx::assume(*y != x);
                }
                all.push(x);
                cs.push(x);
            }
            v.push((cs, at_end == j + 1));
        }
        keys.push(v);
    }
    let mut table = vec![true; k];
    let mut called = true;
    let mut bad = None;
    if gaps {
        match sx::pick(4) {
            0 => {}
            1 => table[sx::pick(k)] = false,
            2 => called = false,
            // an element that is none, in place of the one without a rule
            _ => bad = Some(if sx::flag() { usize::MAX } else { 0 }),
        }
    }
    let n = sx::pick(pool.len() + 1);
    pool.truncate(n);
    let script = pool;
    // what it has to come to
    let mut rf = Given { g: &g, keys: keys.clone(), table: table.clone(), s: &script, pos: 0, busy: vec![], done: vec![], keep: true };
    let mut want = if called { rf.nt(0) } else { Err(No::Missing) };
    if want.is_ok() && rf.pos < script.len() {
        want = Err(No::At(rf.pos));
    }
    let done = std::mem::take(&mut rf.done);
    // the elements
    let way = sx::pick(ways.max(1));
    let mut el: Vec<ElementVerbose> = vec![];
    let mut nt = vec![0; k + 1];
    let mut ts = vec![0; g.ts.len()];
    if way > 1 {
        el.push(ElementVerbose::new_t(String::from("start")));
    }
    let put_t = |el: &mut Vec<ElementVerbose>, ts: &mut Vec<usize>| {
        for (i, t) in g.ts.iter().enumerate() {
            ts[i] = el.len();
            el.push(ElementVerbose::new_t(text_of(t)));
        }
    };
    if way == 1 {
        put_t(&mut el, &mut ts);
    }
    for j in 0..=k {
        let i = if way == 1 { k - j } else { j };
        nt[i] = el.len();
        el.push(ElementVerbose::new_nt(String::from(if i == 0 && !called { "Start" } else { name(&c, i) })));
    }
    if way != 1 {
        put_t(&mut el, &mut ts);
    }
    if let Some(b) = bad {
        nt[k] = if b == 0 { el.len() } else { b };
    }
    let many = |i: usize| if i == 0 { 2 } else { i % 3 };
    let mut tab: HashMap<ElementIndex, NTRules<RecVm>> = HashMap::new();
    for (i, alts) in g.nt.iter().enumerate() {
        if !table[i] {
            continue;
        }
        let mut m = Steuermap::new();
        for (j, a) in alts.iter().enumerate() {
            let v: Vec<usize> = a.iter().map(|x| match x { S::T(t) => ts[*t], S::N(n) => nt[*n] }).collect();
            let p = Rc::new(if v.is_empty() { Production::Empty } else { Production::NotEmpty(v) });
            for x in &keys[i][j].0 {
                m.insert(SetMember::Char(*x), p.clone());
            }
            if keys[i][j].1 {
                m.insert(SetMember::Terminate, p);
            }
        }
        let instruction = (0..many(i)).map(|j| code(i, j)).collect();
        tab.insert(nt[i], NTRules { steuermap: m, ignore: if i % 2 == 1 { Some(nt[0]) } else { None }, instruction });
    }
    g.nt.truncate(k);
    let vm = RecVm {};
    let text = leak(&script);
    let Some(mut p) = sx::catch(|| Parser::new(tab, el, &vm)) else { sx::fail(1) };
    let mut st = RecVm::create_new_state();
    st.shapes = true;
    let Some(r) = sx::catch(|| p.parse(text, &mut st)) else { sx::fail(2) };
    let same = |a: &Shape, b: &Shape| {
        let mut ok = a.len() == b.len();
        for (x, y) in a.iter().zip(b) {
            ok &= (x.0 == y.0) & same_text(&x.1, &y.1);
        }
        ok
    };
    match (&r, &want) {
        (Ok(tree), Ok(shape)) => {
            sx::cover(1);
            sx::check(same(&shape_of(tree, ROOT), shape), 3);
            if shape.len() > 3 {
                sx::cover(2);
            }
        }
        (Err(e), Err(No::At(at))) => {
            sx::cover(3);
            let n = script.len();
            match e {
                ParserError::UnexpectedCharError { chr, pos, .. } => sx::check((*pos == *at) & (*chr == if *at < n { script[*at] } else { '#' }), 4),
                ParserError::EndOfCharsError { pos } => sx::check((*pos == *at) & (*at == n), 5),
                _ => sx::fail(6),
            }
        }
        (Err(_), Err(No::Missing)) => sx::cover(4),
        _ => sx::fail(7),
    }
    // what was executed: on finished nodes, in their order
    let mut at = 0;
    for (n, shape) in &done {
        for j in 0..many(*n) {
            if at >= st.ev.len() {
                sx::fail(8);
            }
            sx::check(st.ev[at].ins == code(*n, j), 9);
            sx::check(same(&st.ev[at].shape, shape), 10);
            at += 1;
        }
    }
    sx::check(at == st.ev.len(), 11);
    sx::log(at as u64);
    sx::log(r.is_ok() as u64);
}

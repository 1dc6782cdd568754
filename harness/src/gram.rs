//! Abstract grammars over symbolic terminals, the textbook LL(1) notions computed on them
//! (independently of the code under test), and builders that hand them to the code under test.
use crate::sx;
use henriks_parsing_project::errors::{GrammarError, ParserError};
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::parser_data::{ElementIndex, ParserData};
use henriks_parsing_project::peekables::{ParseProcess, TPeekable};
use henriks_parsing_project::steuer_map::{NTRules, get_steuermaps};
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum S {
    T(usize),
    N(usize),
}
pub const END: u64 = 1 << 63;

#[derive(Clone)]
pub struct Gram {
    /// alternatives of each non-terminal; an empty alternative is '#'. Number 0 is the start.
    pub nt: Vec<Vec<Vec<S>>>,
    pub ts: Vec<Vec<char>>,
}

/// Fields of the level argument.
#[derive(Clone, Copy)]
pub struct Cfg {
    pub fam: usize,
    pub k: usize,
    pub alts: usize,
    pub len: usize,
    pub terms: usize,
    pub tlen: usize,
    pub slen: usize,
    pub opts: usize,
}
impl Cfg {
    pub fn new(l: u64) -> Cfg {
        let n = |i: u32| ((l >> (4 * i)) & 15) as usize;
        Cfg { fam: n(0), k: n(1), alts: n(2), len: n(3), terms: n(4), tlen: n(5), slen: n(6), opts: ((l >> 28) & 0xfff) as usize }
    }
    pub fn o(&self, bit: usize) -> bool {
        self.opts >> bit & 1 == 1
    }
}
/// one extra non-terminal without a rule may be used
pub const O_UNDEF: usize = 0;
/// hash tables iterate in insertion or in reverse order
pub const O_HASH: usize = 1;
/// alternatives after the first are '#' or one symbol
pub const O_SHORT: usize = 2;
/// terminals may be empty
pub const O_EMPTYT: usize = 3;
/// characters beyond ASCII
pub const O_UNI: usize = 4;
/// the start rule is defined last
pub const O_REV: usize = 5;
/// all terminals begin differently
pub const O_DIST: usize = 6;
/// read the grammar from text
pub const O_TEXT: usize = 7;
/// only grammars all of whose rules can be reached from the start
pub const O_REACH: usize = 8;
/// any non-terminal as start symbol
pub const O_START: usize = 9;
/// no left recursion
pub const O_NOLR: usize = 10;
/// names of non-terminals that may be equal to those of terminals
pub const O_NAMES: usize = 11;

pub fn chr(uni: bool) -> char {
    if uni { sx::any_char() } else { sx::ascii() }
}
/// Characters of terminals and scripts: only compared, never classified, hence fully symbolic.
pub fn schr(uni: bool) -> char {
    if uni { sx::scalar() } else { sx::ascii() }
}

/// The characters are made first, so that they have the same names on every path.
pub fn term_pool(c: &Cfg) -> Vec<Vec<char>> {
    let mut ts: Vec<Vec<char>> = vec![];
    let l = c.tlen.max(1);
    for _ in 0..c.terms {
        let mut t = vec![];
        for _ in 0..l {
            t.push(schr(c.o(O_UNI)));
        }
        ts.push(t);
    }
    if c.o(O_DIST) {
        for i in 1..c.terms {
            sx::assume(ts[i - 1][0] < ts[i][0]);
        }
    }
    ts
}

/// Symbols: a fresh terminal while there are any, or a non-terminal.
fn gen_alt(c: &Cfg, maxlen: usize, used: &mut usize, seen: &mut usize) -> Vec<S> {
    let n = sx::pick(maxlen + 1);
    let mut a = vec![];
    for _ in 0..n {
        let mut nn = c.k + c.o(O_UNDEF) as usize;
        if c.o(O_REACH) {
            // rules are numbered in the order in which they are first mentioned
            nn = nn.min(*seen + 1);
        }
        let t = (*used < c.terms) as usize;
        let x = sx::pick(nn + t);
        if x < nn {
            *seen = (*seen).max(x + 1);
            a.push(S::N(x));
        } else {
            a.push(S::T(*used));
            *used += 1;
        }
    }
    a
}

/// Every grammar with k rules of at most `alts` alternatives of at most `len` symbols and
/// at most `terms` occurrences of terminals.
pub fn gen_any(c: &Cfg) -> Gram {
    let mut ts = term_pool(c);
    let mut used = 0;
    let mut seen = 1;
    let mut nt = vec![];
    for i in 0..c.k {
        if c.o(O_REACH) {
            sx::assume(i < seen);
        }
        let na = 1 + sx::pick(c.alts);
        let mut alts = vec![];
        for a in 0..na {
            let m = if c.o(O_SHORT) && a > 0 { 1 } else { c.len };
            alts.push(gen_alt(c, m, &mut used, &mut seen));
        }
        nt.push(alts);
        if c.o(O_NOLR) {
            // whatever the rules to come: they can only add to this
            let mut part = Gram { nt: nt.clone(), ts: ts.clone() };
            part.nt.resize(c.k, vec![]);
            sx::assume(!part.left_recursive(&part.nullable()));
        }
    }
    ts.truncate(used);
    let lo = if c.o(O_EMPTYT) { 0 } else { 1 };
    for t in ts.iter_mut() {
        let n = lo + sx::pick(t.len() - lo + 1);
        t.truncate(n);
    }
    let g = Gram { nt, ts };
    if c.o(O_REACH) {
        sx::assume(g.all_reachable());
    }
    g
}

fn t(i: usize) -> S {
    S::T(i)
}
fn n(i: usize) -> S {
    S::N(i)
}
pub const TEMPLATES: usize = 12;
/// Grammars of the kinds users write, with symbolic terminals.
pub fn template(ix: usize, c: &Cfg) -> Gram {
    let nt: Vec<Vec<Vec<S>>> = match ix {
        // list with separator
        0 => vec![vec![vec![n(1), n(2)]], vec![vec![t(0)], vec![t(1)]], vec![vec![t(2), n(1), n(2)], vec![]]],
        // nested parentheses
        1 => vec![vec![vec![t(0), n(0), t(1), n(0)], vec![]]],
        // expression grammar
        2 => vec![
            vec![vec![n(1), n(2)]],
            vec![vec![t(0)], vec![t(1), n(0), t(2)]],
            vec![vec![t(3), n(1), n(2)], vec![]],
        ],
        // optional parts in a row
        3 => vec![vec![vec![n(1), n(2), n(3), t(3)]], vec![vec![t(0)], vec![]], vec![vec![t(1)], vec![]], vec![vec![t(2)], vec![]]],
        // nullable through several levels, at the end
        4 => vec![vec![vec![t(0), n(1)]], vec![vec![n(2), n(3)]], vec![vec![t(1)], vec![]], vec![vec![t(2), n(1)], vec![]]],
        // alternatives that begin with nullable non-terminals
        5 => vec![vec![vec![n(1), t(0)], vec![n(2), t(1)]], vec![vec![t(2), n(1)], vec![]], vec![vec![t(3)]]],
        // statement list with blocks
        6 => vec![vec![vec![n(1), n(0)], vec![]], vec![vec![t(0), t(1)], vec![t(2), n(0), t(3)]]],
        // mutual recursion
        7 => vec![vec![vec![t(0), n(1)], vec![]], vec![vec![t(1), n(0)], vec![t(2)]]],
        // long right side with repeated non-terminal
        8 => vec![vec![vec![n(1), t(0), n(1), t(0), n(1)]], vec![vec![t(1)], vec![]]],
        // two start-level choices, the longer one with several terminals in a row
        9 => vec![vec![vec![t(0), t(1), t(2), n(1)], vec![t(3)]], vec![vec![], vec![n(0)]]],
        // optional start that is used inside
        10 => vec![vec![vec![n(1), t(0)], vec![]], vec![vec![t(1), n(0), t(2)]]],
        // unit chains
        _ => vec![vec![vec![n(1)]], vec![vec![n(2)], vec![]], vec![vec![n(3), n(1)]], vec![vec![t(0)], vec![t(1)]]],
    };
    let mut m = 0;
    for r in &nt {
        for a in r {
            for s in a {
                if let S::T(i) = s {
                    m = m.max(i + 1);
                }
            }
        }
    }
    let mut c2 = *c;
    c2.terms = m;
    let mut ts = term_pool(&c2);
    for t in ts.iter_mut() {
        let n = 1 + sx::pick(t.len());
        t.truncate(n);
    }
    Gram { nt, ts }
}

/// k rules in a row, each of one of a few forms that pass FIRST and FOLLOW along.
pub fn gen_chain(c: &Cfg) -> Gram {
    let mut ts = term_pool(c);
    let mut used = 0;
    let mut nt = vec![];
    for i in 0..c.k {
        let next = (i + 1) % c.k;
        let mut fresh = || {
            let x = used % c.terms.max(1);
            used += 1;
            S::T(x)
        };
        let r = match sx::pick(c.alts.max(1)) {
            0 => vec![vec![fresh(), n(next)], vec![]],
            1 => vec![vec![n(next)], vec![]],
            2 => vec![vec![fresh()], vec![n(next)]],
            3 => vec![vec![n(next), fresh()]],
            4 => vec![vec![n(next), n((i + 2) % c.k)], vec![fresh()]],
            _ => vec![vec![fresh(), n(next), n((i + 2) % c.k)], vec![]],
        };
        nt.push(r);
    }
    let m = used.min(c.terms);
    ts.truncate(m.max(1));
    Gram { nt, ts }
}

pub fn gen_family(c: &Cfg) -> Gram {
    match c.fam {
        0 => gen_any(c),
        1 => {
            let ix = sx::pick(TEMPLATES);
            template(ix, c)
        }
        2 => gen_chain(c),
        15 => large(c).0,
        f => template(f - 3, c),
    }
}

pub const SIZES: [usize; 16] = [3, 6, 10, 14, 20, 30, 40, 50, 60, 70, 100, 130, 200, 260, 300, 520];
/// Big grammars of a few shapes (c.k) and sizes (c.alts), all terminals given but for c.terms symbolic
/// characters, and a long sentence of each. c.slen: how often the size is doubled.
pub fn large(c: &Cfg) -> (Gram, Vec<char>) {
    let size = SIZES[c.alts] << c.slen;
    let m = size.min(56); // rules and terminals
    let given = |i: usize| char::from(if 48 + i < 92 { 48 + i as u8 } else { 49 + i as u8 });
    let mut ts: Vec<Vec<char>> = (0..m + 2).map(|i| vec![given(i)]).collect();
    let mut s = vec![]; // the sentence, as terminals
    let nt: Vec<Vec<Vec<S>>> = match c.k {
        // each rule ends in the next
        0 => {
            let mut r = vec![vec![vec![n(1), t(0)]]];
            for i in 1..m {
                r.push(vec![vec![t(i), n(i + 1)]]);
                s.push(i);
            }
            r.push(vec![vec![t(m)], vec![]]);
            s.extend([m, 0]);
            r
        }
        // a row of optional parts
        1 => {
            let mut a: Vec<S> = (1..m).map(n).collect();
            a.push(t(0));
            let mut r = vec![vec![a]];
            for i in 1..m {
                r.push(vec![vec![t(i)], vec![]]);
                if i % 3 > 0 {
                    s.push(i);
                }
            }
            s.push(0);
            r
        }
        // each rule is the next
        2 => {
            let mut r = vec![vec![vec![n(1), t(0)]]];
            for i in 1..m {
                r.push(vec![vec![n(i + 1)]]);
            }
            r.push(vec![vec![t(1)], vec![]]);
            s.extend([1, 0]);
            r
        }
        // many alternatives
        3 => {
            let r = vec![(1..m).map(|i| vec![t(i), n(1)]).collect(), vec![vec![t(0)], vec![]]];
            s.extend([m - 1, 0]);
            r
        }
        // one long alternative
        4 => {
            let mut a = vec![];
            for i in 1..m {
                a.extend([n(1), t(i)]);
                if i % 2 > 0 {
                    s.push(0);
                }
                s.push(i);
            }
            vec![vec![a], vec![vec![t(0)], vec![]]]
        }
        // a long terminal
        5 => {
            ts[0] = (0..size).map(|i| given(i % 50)).collect();
            s.extend([1, 0]);
            vec![vec![vec![t(1), t(0), n(1)]], vec![vec![t(1)], vec![]]]
        }
        // nested brackets
        6 => {
            for i in 0..2 * size {
                s.push((i >= size) as usize);
            }
            vec![vec![vec![t(0), n(0), t(1)], vec![]]]
        }
        // list
        7 => {
            s.push(0);
            for _ in 0..size {
                s.extend([1, 0]);
            }
            vec![vec![vec![n(1), n(2)]], vec![vec![t(0)]], vec![vec![t(1), n(1), n(2)], vec![]]]
        }
        // each rule begins with the next
        8 => {
            let mut r = vec![];
            for i in 0..m {
                r.push(vec![vec![n(i + 1), t(i)]]);
            }
            r.push(vec![vec![t(m)], vec![]]);
            for i in (0..=m).rev() {
                s.push(i);
            }
            r
        }
        // alternatives that begin with the next rule or can be empty
        _ => {
            let mut r = vec![];
            for i in 0..m {
                r.push(vec![vec![n(i + 1), t(i)], vec![]]);
            }
            r.push(vec![vec![t(m)]]);
            for i in (0..=m).rev() {
                s.push(i);
            }
            r
        }
    };
    // symbolic characters: of the last terminal, of the first, in the middle
    let last = nt.iter().flatten().flatten().map(|x| if let S::T(i) = x { *i } else { 0 }).max().unwrap_or(0);
    ts.truncate(last + 1);
    for i in 0..c.terms {
        let (x, y) = match i {
            0 => (last, 0),
            1 => (0, ts[0].len() - 1),
            _ => (last / 2, ts[last / 2].len() / 2),
        };
        ts[x][y] = schr(c.o(O_UNI));
    }
    let mut text = vec![];
    for x in s {
        text.extend(ts[x].iter());
    }
    (Gram { nt, ts }, text)
}
/// A script near the sentence: itself, cut, with a symbolic character in place of one, or behind it.
/// c.len: 1 = at every place, not only at the ends and in the middle
pub fn near(c: &Cfg, mut s: Vec<char>) -> Vec<char> {
    let x = schr(c.o(O_UNI));
    let l = s.len();
    let place = || if c.len & 1 == 1 { sx::pick(l) } else { [0, 1, l / 2, l - 2, l - 1][sx::pick(5)] };
    match sx::pick(4) {
        0 => {}
        1 => s.truncate(place()),
        2 => s[place()] = x,
        _ => s.push(x),
    }
    s
}

impl Gram {
    pub fn k(&self) -> usize {
        self.nt.len()
    }
    pub fn all_defined(&self) -> bool {
        self.nt.iter().flatten().flatten().all(|s| match s {
            S::N(x) => *x < self.k(),
            _ => true,
        })
    }
    pub fn all_reachable(&self) -> bool {
        let mut seen = vec![false; self.k() + 1];
        let mut todo = vec![0];
        seen[0] = true;
        while let Some(x) = todo.pop() {
            if x >= self.k() {
                continue;
            }
            for s in self.nt[x].iter().flatten() {
                if let S::N(y) = s {
                    if !seen[*y] {
                        seen[*y] = true;
                        todo.push(*y);
                    }
                }
            }
        }
        seen[..self.k()].iter().all(|x| *x)
    }
    pub fn nullable(&self) -> Vec<bool> {
        let mut e = vec![false; self.k() + 1];
        loop {
            let mut ch = false;
            for (i, alts) in self.nt.iter().enumerate() {
                if !e[i] && alts.iter().any(|a| self.seq_nullable(&e, a)) {
                    e[i] = true;
                    ch = true;
                }
            }
            if !ch {
                return e;
            }
        }
    }
    pub fn seq_nullable(&self, e: &[bool], a: &[S]) -> bool {
        a.iter().all(|s| match s {
            S::T(t) => self.ts[*t].is_empty(),
            S::N(x) => e[*x],
        })
    }
    /// FIRST as a set of terminal numbers, without the empty marker
    pub fn first(&self, e: &[bool]) -> Vec<u64> {
        let mut f = vec![0u64; self.k() + 1];
        loop {
            let mut ch = false;
            for (i, alts) in self.nt.iter().enumerate() {
                let mut m = f[i];
                for a in alts {
                    m |= self.seq_first(e, &f, a);
                }
                if m != f[i] {
                    f[i] = m;
                    ch = true;
                }
            }
            if !ch {
                return f;
            }
        }
    }
    pub fn seq_first(&self, e: &[bool], f: &[u64], a: &[S]) -> u64 {
        let mut m = 0;
        for s in a {
            match s {
                S::T(t) => {
                    if !self.ts[*t].is_empty() {
                        return m | 1 << t;
                    }
                }
                S::N(x) => {
                    m |= f[*x];
                    if !e[*x] {
                        return m;
                    }
                }
            }
        }
        m
    }
    pub fn follow(&self, e: &[bool], f: &[u64]) -> Vec<u64> {
        let mut w = vec![0u64; self.k() + 1];
        w[0] = END;
        loop {
            let mut ch = false;
            for (i, alts) in self.nt.iter().enumerate() {
                for a in alts {
                    for (p, s) in a.iter().enumerate() {
                        if let S::N(x) = s {
                            let mut m = w[*x] | self.seq_first(e, f, &a[p + 1..]);
                            if self.seq_nullable(e, &a[p + 1..]) {
                                m |= w[i];
                            }
                            if m != w[*x] {
                                w[*x] = m;
                                ch = true;
                            }
                        }
                    }
                }
            }
            if !ch {
                return w;
            }
        }
    }
    pub fn left_recursive(&self, e: &[bool]) -> bool {
        let k = self.k();
        let mut r = vec![0u64; k];
        for (i, alts) in self.nt.iter().enumerate() {
            for a in alts {
                for s in a {
                    match s {
                        S::T(t) => {
                            if !self.ts[*t].is_empty() {
                                break;
                            }
                        }
                        S::N(x) => {
                            if *x < k {
                                r[i] |= 1 << x;
                            }
                            if !e[*x] {
                                break;
                            }
                        }
                    }
                }
            }
        }
        for m in 0..k {
            for i in 0..k {
                if r[i] >> m & 1 == 1 {
                    r[i] |= r[m];
                }
            }
        }
        (0..k).any(|i| r[i] >> i & 1 == 1)
    }
    pub fn min_len(&self) -> Vec<usize> {
        let mut m = vec![usize::MAX; self.k() + 1];
        loop {
            let mut ch = false;
            for (i, alts) in self.nt.iter().enumerate() {
                for a in alts {
                    let mut l = 0usize;
                    for s in a {
                        l = l.saturating_add(match s {
                            S::T(t) => self.ts[*t].len(),
                            S::N(x) => m[*x],
                        });
                    }
                    if l < m[i] {
                        m[i] = l;
                        ch = true;
                    }
                }
            }
            if !ch {
                return m;
            }
        }
    }
    /// does c begin one of the terminals of the set? (no branching on c)
    #[inline(always)]
    pub fn in_set(&self, c: char, m: u64) -> bool {
        let mut r = false;
        for (i, t) in self.ts.iter().enumerate() {
            if m >> i & 1 == 1 {
                r |= t[0] == c;
            }
        }
        r
    }
    /// the characters and the end marker are exactly the set (no branching on characters)
    pub fn same_set(&self, chars: &[char], end: bool, m: u64) -> bool {
        let mut ok = end == (m & END != 0);
        for c in chars {
            ok &= self.in_set(*c, m);
        }
        for (i, t) in self.ts.iter().enumerate() {
            if m >> i & 1 == 1 {
                let mut some = false;
                for c in chars {
                    some |= *c == t[0];
                }
                ok &= some;
            }
        }
        ok
    }
    /// some character (or the end) is in both sets
    pub fn overlap(&self, a: u64, b: u64) -> bool {
        let mut r = a & b != 0;
        for i in 0..self.ts.len() {
            if a >> i & 1 == 1 {
                r |= self.in_set(self.ts[i][0], b & !END);
            }
        }
        r
    }
}

pub struct Sets {
    pub e: Vec<bool>,
    pub f: Vec<u64>,
    pub w: Vec<u64>,
    pub leftrec: bool,
    pub defined: bool,
}
impl Sets {
    pub fn new(g: &Gram) -> Sets {
        let e = g.nullable();
        let f = g.first(&e);
        let w = g.follow(&e, &f);
        Sets { leftrec: g.left_recursive(&e), defined: g.all_defined(), e, f, w }
    }
    pub fn predict(&self, g: &Gram, nt: usize, a: &[S]) -> u64 {
        let mut m = g.seq_first(&self.e, &self.f, a);
        if g.seq_nullable(&self.e, a) {
            m |= self.w[nt];
        }
        m
    }
    /// some two alternatives cannot be told apart (no branching)
    pub fn conflict(&self, g: &Gram) -> bool {
        let mut r = false;
        for (i, alts) in g.nt.iter().enumerate() {
            let p: Vec<u64> = alts.iter().map(|a| self.predict(g, i, a)).collect();
            for x in 0..p.len() {
                for y in 0..x {
                    r |= g.overlap(p[x], p[y]);
                }
            }
        }
        r
    }
}

const LONG: [&str; 16] =
    ["start", "nt1", "nt2", "nt3", "nt4", "nt5", "nt6", "nt7", "nt8", "nt9", "ntA", "ntB", "ntC", "ntD", "ntE", "ntF"];
const BRIEF: [&str; 16] = ["start", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"];
pub fn name(c: &Cfg, i: usize) -> &'static str {
    if i >= 16 {
        let mut s = String::from("number_");
        s.push(char::from(b'0' + (i / 10) as u8));
        s.push(char::from(b'0' + (i % 10) as u8));
        return Box::leak(s.into_boxed_str());
    }
    if c.o(O_NAMES) { BRIEF[i] } else { LONG[i] }
}

/// A grammar in the data structure of the code under test.
pub struct Built<T: VM> {
    pub pd: ParserData<T>,
    pub nt: Vec<ElementIndex>,
    pub t: Vec<ElementIndex>,
}

pub fn text_of(t: &[char]) -> String {
    let mut s = String::new();
    for c in t {
        s.push(*c);
    }
    s
}

pub fn build<T: VM>(g: &Gram, c: &Cfg) -> Built<T> {
    let mut pd = ParserData::<T>::new();
    let mut nt = vec![usize::MAX; g.k() + 1];
    let order: Vec<usize> = if c.o(O_REV) { (0..g.k()).rev().collect() } else { (0..g.k()).collect() };
    let mut ts = vec![usize::MAX; g.ts.len()];
    for &i in &order {
        nt[i] = pd.get_or_add_non_terminal(name(c, i));
        for a in &g.nt[i] {
            let mut v = vec![];
            for s in a {
                match s {
                    S::T(t) => {
                        ts[*t] = pd.get_or_add_terminal(&text_of(&g.ts[*t]));
                        v.push(ts[*t]);
                    }
                    S::N(x) => {
                        nt[*x] = pd.get_or_add_non_terminal(name(c, *x));
                        v.push(nt[*x]);
                    }
                }
            }
            pd.add_production(nt[i], v);
        }
    }
    Built { pd, nt, t: ts }
}

pub fn to_text(g: &Gram, c: &Cfg, instr: &dyn Fn(usize) -> Vec<usize>) -> String {
    let mut s = String::new();
    let order: Vec<usize> = if c.o(O_REV) { (0..g.k()).rev().collect() } else { (0..g.k()).collect() };
    for &i in &order {
        let alts = &g.nt[i];
        s.push_str(name(c, i));
        s.push_str("->");
        for (j, a) in alts.iter().enumerate() {
            if j > 0 {
                s.push('|');
            }
            if a.is_empty() {
                s.push('#');
            }
            for x in a {
                match x {
                    S::T(t) => {
                        s.push('"');
                        for c in &g.ts[*t] {
                            s.push(*c);
                        }
                        s.push('"');
                    }
                    S::N(x) => {
                        s.push_str(name(c, *x));
                        s.push(' ');
                    }
                }
            }
        }
        let ins = instr(i);
        if !ins.is_empty() {
            s.push('{');
            for x in ins {
                s.push(char::from_u32(x as u32).unwrap());
            }
            s.push('}');
        }
        s.push(';');
    }
    s
}
/// Characters that stand for themselves between quotes.
pub fn assume_plain(g: &Gram) {
    for t in &g.ts {
        for c in t {
            sx::assume((*c != '"') & (*c != '\\'));
        }
    }
}

pub fn tables<T: VM>(pd: ParserData<T>, start: ElementIndex) -> Result<HashMap<ElementIndex, NTRules<T>>, GrammarError> {
    let f = get_first_sets(&pd)?;
    let w = get_follow_sets(start, &f, &pd)?;
    get_steuermaps(&f, &w, pd)
}

/// Spans and prefixes: which parts of a script a non-terminal derives, as formulas over the characters.
pub struct Spans<'a> {
    g: &'a Gram,
    s: &'a [char],
    e: Vec<bool>,
    min: Vec<usize>,
    d: Vec<Option<bool>>,
    p: Vec<Option<bool>>,
}
impl<'a> Spans<'a> {
    /// For grammars without left recursion.
    pub fn new(g: &'a Gram, s: &'a [char]) -> Spans<'a> {
        let n = g.k() * (s.len() + 1) * (s.len() + 1);
        Spans { g, s, e: g.nullable(), min: g.min_len(), d: vec![None; n], p: vec![None; n] }
    }
    pub fn productive(&self) -> bool {
        (0..self.g.k()).all(|i| self.min[i] != usize::MAX)
    }
    fn ix(&self, n: usize, i: usize, j: usize) -> usize {
        (n * (self.s.len() + 1) + i) * (self.s.len() + 1) + j
    }
    fn text(&self, t: usize, i: usize, n: usize) -> bool {
        let mut r = true;
        for k in 0..n {
            r &= self.g.ts[t][k] == self.s[i + k];
        }
        r
    }
    /// non-terminal n derives s[i..j]
    pub fn derives(&mut self, n: usize, i: usize, j: usize) -> bool {
        if n >= self.g.k() || self.min[n] > j - i {
            return false;
        }
        let ix = self.ix(n, i, j);
        if let Some(x) = self.d[ix] {
            return x;
        }
        let g = self.g;
        let mut r = false;
        for a in &g.nt[n] {
            r |= self.seq(a, i, j);
        }
        self.d[ix] = Some(r);
        r
    }
    fn seq(&mut self, a: &[S], i: usize, j: usize) -> bool {
        let Some(s) = a.first() else { return i == j };
        match s {
            S::T(t) => {
                let l = self.g.ts[*t].len();
                if i + l > j {
                    return false;
                }
                self.text(*t, i, l) & self.seq(&a[1..], i + l, j)
            }
            S::N(x) => {
                let mut r = false;
                for m in i..=j {
                    if m == i && !self.e[*x] {
                        continue;
                    }
                    if self.min[*x] > m - i {
                        continue;
                    }
                    r |= self.derives(*x, i, m) & self.seq(&a[1..], m, j);
                }
                r
            }
        }
    }
    /// non-terminal n derives some text that s[i..q] begins (for grammars all of whose rules are productive)
    pub fn begins(&mut self, n: usize, i: usize, q: usize) -> bool {
        if i == q {
            return true;
        }
        let ix = self.ix(n, i, q);
        if let Some(x) = self.p[ix] {
            return x;
        }
        let g = self.g;
        let mut r = false;
        for a in &g.nt[n] {
            r |= self.seq_begins(a, i, q);
        }
        self.p[ix] = Some(r);
        r
    }
    fn seq_begins(&mut self, a: &[S], i: usize, q: usize) -> bool {
        if i == q {
            return true;
        }
        let Some(s) = a.first() else { return false };
        match s {
            S::T(t) => {
                let l = self.g.ts[*t].len();
                if q - i <= l {
                    return self.text(*t, i, q - i);
                }
                self.text(*t, i, l) & self.seq_begins(&a[1..], i + l, q)
            }
            S::N(x) => {
                let mut r = self.begins(*x, i, q);
                for m in i..=q {
                    if m == i && !self.e[*x] {
                        continue;
                    }
                    if self.min[*x] > m - i {
                        continue;
                    }
                    r |= self.derives(*x, i, m) & self.seq_begins(&a[1..], m, q);
                }
                r
            }
        }
    }
}

/// A finished node of the reference parse: the non-terminal, where it is in the tree, what it covers.
pub struct Done {
    pub nt: usize,
    pub path: Vec<usize>,
    pub shape: Vec<(usize, String)>,
}
/// Predictive parse by the textbook prediction sets.
pub struct Ref<'a> {
    pub g: &'a Gram,
    pub sets: &'a Sets,
    pub s: &'a [char],
    pub pos: usize,
    pub done: Vec<Done>,
    /// note the finished nodes
    pub keep: bool,
}
impl<'a> Ref<'a> {
    /// The subtree (depth, text of leaf) in preorder, or None where the script does not fit.
    pub fn nt(&mut self, n: usize, path: &mut Vec<usize>) -> Option<Vec<(usize, String)>> {
        let g = self.g;
        let mut alt = None;
        for a in &g.nt[n] {
            let m = self.sets.predict(g, n, a);
            let fits = if self.pos < self.s.len() { sx::decide(g.in_set(self.s[self.pos], m & !END)) } else { m & END != 0 };
            if fits {
                alt = Some(a);
                break;
            }
        }
        let a = alt?;
        let mut shape = vec![(0, String::new())];
        for (i, x) in a.iter().enumerate() {
            match x {
                S::T(t) => {
                    for c in &g.ts[*t] {
                        if self.pos >= self.s.len() || !sx::decide(self.s[self.pos] == *c) {
                            return None;
                        }
                        self.pos += 1;
                    }
                    shape.push((1, text_of(&g.ts[*t])));
                }
                S::N(y) => {
                    path.push(i);
                    let sub = self.nt(*y, path)?;
                    path.pop();
                    if self.keep {
                        for (d, s) in sub {
                            shape.push((d + 1, s));
                        }
                    }
                }
            }
        }
        if self.keep {
            self.done.push(Done { nt: n, path: path.clone(), shape: shape.clone() });
        }
        Some(shape)
    }
}

/// preorder (depth, data) of the subtree
pub fn shape_of(tree: &Tree<String>, id: NodeId) -> Vec<(usize, String)> {
    let mut v = vec![];
    fn go(tree: &Tree<String>, id: NodeId, d: usize, v: &mut Vec<(usize, String)>) {
        let Ok(n) = tree.get_node(id) else { sx::fail(90) };
        v.push((d, n.data.clone()));
        for c in tree.get_children(id) {
            go(tree, c, d + 1, v);
        }
    }
    go(tree, id, 0, &mut v);
    v
}

/// equality of texts without branching on characters
pub fn same_text(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}

pub const ROOT: NodeId = NodeId { node_ptr: 0, node_pk: 0 };

/// A VM that notes what it is asked to do.
pub struct RecVm {}
pub struct Exec {
    pub ins: usize,
    pub node: NodeId,
    pub shape: Vec<(usize, String)>,
}
#[derive(Default)]
pub struct RecState {
    pub ev: Vec<Exec>,
    pub shapes: bool,
}
impl VM for RecVm {
    type Tstate = RecState;
    type Tinstrution = usize;
    fn parse_instructions<'a, T>(&'a self, _p: &str, to_parse: &mut ParseProcess<T>) -> Result<Vec<usize>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let mut v = vec![];
        while let Some(c) = to_parse.next() {
            v.push(c as usize);
        }
        Ok(v)
    }
    fn execute_instruction(&self, tree: &mut Tree<String>, cur_node: NodeId, ins: &usize, state: &mut RecState) {
        let shape = if state.shapes { shape_of(tree, cur_node) } else { vec![] };
        state.ev.push(Exec { ins: *ins, node: cur_node, shape });
    }
    fn create_new_state() -> RecState {
        RecState::default()
    }
}

pub fn log_err(e: &ParserError) {
    match e {
        ParserError::UnexpectedCharError { chr, pos, .. } => {
            sx::log(1);
            sx::log(*chr as u64);
            sx::log(*pos as u64);
        }
        ParserError::EndOfCharsError { pos } => {
            sx::log(2);
            sx::log(*pos as u64);
        }
        _ => sx::log(3),
    }
}
pub fn log_text(s: &str) {
    sx::log(s.len() as u64);
    for b in s.bytes() {
        sx::log(b as u64);
    }
}

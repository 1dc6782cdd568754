//! C08, C09, C10, C12: reading grammar texts.
use crate::gram::{chr, log_err, same_text, text_of};
use crate::scripts::leak;
use crate::sx;
use henriks_parsing_project::errors::{GrammarError, ParserError};
use henriks_parsing_project::parser_data::{ElementType, ParserData, Production};
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;
use std::cell::RefCell;

fn nib(l: u64, i: u32) -> usize {
    (l >> (4 * i) & 15) as usize
}
fn white(c: char) -> bool {
    (c == ' ') | ((c >= '\t') & (c <= '\r')) | (c == '\u{2003}') | (c == '\u{85}') | (c == '\u{a0}') | (c == '\u{2028}') | (c == '\u{3000}')
}
fn letter(c: char) -> bool {
    ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == 'ß') | (c == 'Ж') | (c == '\u{1d4d0}') | (c == '\u{2167}')
}
fn digit(c: char) -> bool {
    (c >= '0') & (c <= '9')
}
fn inname(c: char) -> bool {
    letter(c) | digit(c) | (c == '_') | (c == '\u{663}')
}

// ---------------------------------------------------------------- what a text says

#[derive(Clone)]
pub enum El {
    T(Vec<char>),
    N(Vec<char>),
}
#[derive(Clone)]
pub enum Over {
    Default,
    Off,
    Name(Vec<char>),
}
#[derive(Clone)]
pub struct Rule {
    pub name: Vec<char>,
    pub over: Over,
    pub alts: Vec<Vec<El>>,
    /// first position and characters of the section
    pub section: Option<(usize, Vec<char>)>,
}
pub enum Said {
    Rules(Vec<Rule>),
    Bad,
    /// the documentation does not say
    Open,
}
pub struct Read<'a> {
    pub s: &'a [char],
    pub p: usize,
}
pub struct Stop(pub bool); // true: not documented
impl<'a> Read<'a> {
    pub fn at(&self, f: impl Fn(char) -> bool) -> bool {
        self.p < self.s.len() && sx::decide(f(self.s[self.p]))
    }
    pub fn ws(&mut self) -> bool {
        let b = self.p;
        while self.at(white) {
            self.p += 1;
        }
        self.p > b
    }
    pub fn eat(&mut self, c: char) -> Result<(), Stop> {
        if self.at(|x| x == c) {
            self.p += 1;
            Ok(())
        } else {
            Err(Stop(false))
        }
    }
    pub fn ident(&mut self) -> Result<Vec<char>, Stop> {
        if !self.at(letter) {
            return Err(Stop(false));
        }
        let b = self.p;
        while self.at(inname) {
            self.p += 1;
        }
        Ok(self.s[b..self.p].to_vec())
    }
    /// up to the closing character, which is taken
    pub fn verbatim(&mut self, close: char) -> Result<Vec<char>, Stop> {
        let b = self.p;
        let mut esc = false;
        loop {
            if self.p == self.s.len() {
                return Err(Stop(false));
            }
            if !esc && self.at(|x| x == close) {
                self.p += 1;
                return Ok(self.s[b..self.p - 1].to_vec());
            }
            esc = !esc && self.at(|x| x == '\\');
            self.p += 1;
        }
    }
    fn nogap(&mut self) -> Result<(), Stop> {
        if self.at(white) { Err(Stop(true)) } else { Ok(()) }
    }
    pub fn rule(&mut self) -> Result<Rule, Stop> {
        if self.at(|c| c == '$') {
            return Err(Stop(true));
        }
        let name = self.ident()?;
        self.ws();
        self.eat('-')?;
        self.eat('>')?;
        self.ws();
        let mut over = Over::Default;
        if self.eat('$').is_ok() {
            self.nogap()?;
            self.eat('[')?;
            self.nogap()?;
            let what = self.ident()?;
            self.ws();
            self.eat(':')?;
            if what.len() != 6 || !sx::decide(same_text(&text_of(&what), "IGNORE")) {
                return Err(Stop(true));
            }
            self.nogap()?;
            if self.eat('#').is_ok() {
                over = Over::Off;
            } else {
                over = Over::Name(self.ident()?);
            }
            self.nogap()?;
            self.eat(']')?;
        }
        let mut alts = vec![];
        loop {
            let mut a = vec![];
            loop {
                self.ws();
                if self.at(|c| c == '#') {
                    if !a.is_empty() {
                        return Err(Stop(false));
                    }
                    self.p += 1;
                    break;
                } else if self.at(|c| c == '"') {
                    self.p += 1;
                    a.push(El::T(self.verbatim('"')?));
                } else if self.at(letter) {
                    a.push(El::N(self.ident()?));
                } else if a.is_empty() {
                    return Err(Stop(false));
                } else {
                    break;
                }
            }
            alts.push(a);
            self.ws();
            if self.eat('|').is_err() {
                break;
            }
        }
        let mut section = None;
        if self.eat('{').is_ok() {
            self.ws();
            let b = self.p;
            section = Some((b, self.verbatim('}')?));
        }
        self.ws();
        self.eat(';')?;
        Ok(Rule { name, over, alts, section })
    }
}
fn same(a: &[char], b: &[char]) -> bool {
    a.len() == b.len() && sx::decide(same_text(&text_of(a), &text_of(b)))
}
/// Rules of one name are joined.
fn joined(rules: &[Rule]) -> Vec<Rule> {
    let mut v: Vec<Rule> = vec![];
    for r in rules {
        match v.iter_mut().find(|x| same(&x.name, &r.name)) {
            Some(x) => x.alts.extend(r.alts.iter().cloned()),
            None => v.push(r.clone()),
        }
    }
    v
}
pub fn said(s: &[char]) -> Said {
    let mut r = Read { s, p: 0 };
    let mut v: Vec<Rule> = vec![];
    loop {
        r.ws();
        if r.p == s.len() {
            break;
        }
        match r.rule() {
            Ok(x) => v.push(x),
            Err(Stop(false)) => return Said::Bad,
            Err(Stop(true)) => return Said::Open,
        }
    }
    Said::Rules(v)
}
fn find(j: &[Rule], n: &[char]) -> Option<usize> {
    j.iter().position(|x| same(&x.name, n))
}
/// Which rules (by number) the rule uses directly; None: one that has no rule.
fn uses(j: &[Rule], i: usize) -> Option<Vec<usize>> {
    let mut v = vec![];
    for a in &j[i].alts {
        for e in a {
            if let El::N(n) = e {
                v.push(find(j, n)?);
            }
        }
    }
    Some(v)
}
/// The rules as they have to be read, woven. Err(true): not documented.
fn woven(j: &[Rule]) -> Result<Vec<Rule>, bool> {
    let mut out = vec![];
    let mut missing = false;
    let mut open = false;
    for (i, r) in j.iter().enumerate() {
        let mut r = r.clone();
        if let Over::Name(n) = &r.over {
            match find(j, n) {
                None => missing = true,
                Some(x) => {
                    let mut reach = vec![x];
                    let mut k = 0;
                    while k < reach.len() {
                        match uses(j, reach[k]) {
                            None => open = true,
                            Some(u) => {
                                for y in u {
                                    if !reach.contains(&y) {
                                        reach.push(y);
                                    }
                                }
                            }
                        }
                        k += 1;
                    }
                    if !reach.contains(&i) {
                        for a in r.alts.iter_mut() {
                            let mut w = vec![];
                            for (p, e) in a.iter().enumerate() {
                                if p > 0 {
                                    w.push(El::N(n.clone()));
                                }
                                w.push(e.clone());
                            }
                            *a = w;
                        }
                    }
                }
            }
        }
        out.push(r);
    }
    if open { Err(true) } else if missing { Err(false) } else { Ok(out) }
}
/// Are these the rules that were read?
fn compare<T: VM>(pd: &ParserData<T>, j: &[Rule], code: u32) {
    sx::check(pd.parse_rules.rules.len() == j.len(), code);
    for r in j {
        let Some(x) = pd.get_rule_by_element_verbose(&text_of(&r.name)) else { sx::fail(code + 1) };
        sx::check(x.possible_productions.len() == r.alts.len(), code + 2);
        for (p, a) in x.possible_productions.iter().zip(&r.alts) {
            match &**p {
                Production::Empty => sx::check(a.is_empty(), code + 3),
                Production::NotEmpty(v) => {
                    sx::check(!a.is_empty() & (v.len() == a.len()), code + 4);
                    for (ix, e) in v.iter().zip(a) {
                        let Some(y) = pd.get_element_verbose(*ix) else { sx::fail(code + 5) };
                        let ok = match e {
                            El::T(t) => (y.et == ElementType::Terminal) & same_text(&y.name, &text_of(t)),
                            El::N(t) => (y.et == ElementType::NonTerminal) & same_text(&y.name, &text_of(t)),
                        };
                        sx::check(ok, code + 6);
                    }
                }
            }
        }
        sx::log(r.alts.len() as u64);
    }
}

// ---------------------------------------------------------------- a VM that reads sections in many ways

pub struct Call {
    pub name: String,
    pub at: usize,
    pub text: Vec<char>,
}
pub struct SecVm {
    pub mode: usize,
    /// refuse the section after so many characters
    pub fail: Option<usize>,
    pub calls: RefCell<Vec<Call>>,
}
fn take<P: TPeekable<Item = char>>(r: &mut P, mode: usize) -> Option<char> {
    match mode {
        0 => r.next(),
        1 => {
            let p = r.peek().copied();
            let x = r.next();
            sx::check(p == x, 70);
            x
        }
        2 => {
            let p = r.peek().copied();
            sx::check(r.next_if(|_| false).is_none(), 71);
            let q = r.peek().copied();
            let x = r.next();
            sx::check((p == x) & (q == x), 72);
            x
        }
        3 => r.next_if(|_| true),
        4 => {
            let p = r.peek().copied()?;
            let x = r.next_if_eq(&p);
            sx::check(x == Some(p), 73);
            x
        }
        5 => {
            // the refused character is not one that is tried for
            let c = sx::ascii();
            let p = r.peek().copied();
            sx::assume(p != Some(c));
            sx::check(r.next_if_eq(&c).is_none(), 74);
            let x = r.next();
            sx::check(p == x, 75);
            x
        }
        _ => {
            let p = r.peek_mut().map(|c| *c);
            let x = r.next();
            sx::check(p == x, 76);
            x
        }
    }
}
impl VM for SecVm {
    type Tstate = ();
    type Tinstrution = usize;
    fn parse_instructions<'a, T>(&'a self, p: &str, r: &mut ParseProcess<T>) -> Result<Vec<usize>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let at = r.cur_pos();
        let ix = self.calls.borrow().len();
        self.calls.borrow_mut().push(Call { name: String::from(p), at, text: vec![] });
        let mut v: Vec<usize> = vec![];
        let note = |c: char| self.calls.borrow_mut()[ix].text.push(c);
        loop {
            if self.fail == Some(v.len()) {
                return Err(ParserError::VmError { message: String::from("no") });
            }
            if self.mode == 9 {
                // through a reader of the VM's own, up to a comma
                let pos = r.cur_pos();
                let mut n = ParseProcess::new_nested(r, Some(','), None, pos);
                while let Some(c) = n.next() {
                    note(c);
                    v.push(c as usize);
                    sx::check(n.cur_pos() == at + v.len(), 77);
                }
                sx::check(n.peek().is_none(), 78);
            }
            let m = match self.mode {
                8 => sx::pick(7),
                9 => 1,
                m => m,
            };
            let Some(c) = take(r, m) else { break };
            note(c);
            v.push(c as usize);
            sx::check(r.cur_pos() == at + v.len(), 79);
        }
        // nothing more, in any way
        sx::check(r.peek().is_none() & r.next_if(|_| true).is_none() & r.next().is_none() & r.peek_mut().is_none(), 80);
        sx::check(r.cur_pos() == at + v.len(), 81);
        Ok(v)
    }
    fn execute_instruction(&self, _: &mut Tree<String>, _: NodeId, _: &usize, _: &mut ()) {}
    fn create_new_state() {}
}
fn vm(mode: usize) -> &'static SecVm {
    Box::leak(Box::new(SecVm { mode, fail: None, calls: RefCell::new(vec![]) }))
}
fn reader(s: &[char], vm: &'static SecVm) -> RuleParser<'static, 'static, SecVm> {
    RuleParser::new(Box::leak(Box::new(PeekableWrapper::from_str(leak(s)))), vm)
}
/// each VM call is one of a section, in order, with its text
fn sections(vm: &SecVm, rules: &[Rule]) {
    let c = vm.calls.borrow();
    let mut at = 0;
    for r in rules {
        let Some((b, t)) = &r.section else { continue };
        if at == c.len() {
            sx::fail(60);
        }
        sx::check(same_text(&c[at].name, &text_of(&r.name)), 61);
        sx::check(c[at].at == *b, 62);
        sx::check(c[at].text.len() == t.len(), 63);
        sx::check(same_text(&text_of(&c[at].text), &text_of(t)), 64);
        at += 1;
    }
    sx::check(at == c.len(), 65);
}
fn instructions(pd: &ParserData<SecVm>, rules: &[Rule]) {
    for (i, r) in rules.iter().enumerate() {
        // the instructions are those of the first definition
        if rules[..i].iter().any(|x| same(&x.name, &r.name)) {
            continue;
        }
        let Some(x) = pd.get_rule_by_element_verbose(&text_of(&r.name)) else { sx::fail(66) };
        let none = vec![];
        let t = match &r.section {
            Some((_, t)) => t,
            None => &none,
        };
        sx::check(x.instruction.len() == t.len(), 67);
        for (a, b) in x.instruction.iter().zip(t) {
            sx::check(*a == *b as usize, 68);
        }
    }
}
/// the error points into the text
fn points(e: &ParserError, s: &[char]) {
    log_err(e);
    match e {
        ParserError::UnexpectedCharError { chr, pos, .. } => {
            sx::check(*pos < s.len(), 40);
            sx::check(*chr == s[*pos], 41);
            sx::cover(4);
        }
        ParserError::EndOfCharsError { pos } | ParserError::UnknownSpecialOperation { pos, .. } => {
            sx::check(*pos <= s.len(), 42);
            sx::cover(5);
        }
        ParserError::GramError { err: GrammarError::UnexpectedElementError { pos, .. } } => {
            sx::check(*pos <= s.len(), 43);
            sx::cover(6);
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- C08

struct Writer {
    s: Vec<char>,
    /// gaps that may still be widened, and by how many characters
    gaps: usize,
    wide: usize,
    uni: bool,
}
impl Writer {
    fn space(&mut self) {
        let c = if self.uni { ['\u{2003}', '\u{85}', '\u{a0}', ' '][sx::pick(4)] } else { sx::ascii() };
        sx::assume(white(c));
        self.s.push(c);
    }
    fn gap(&mut self, need: bool) {
        if self.gaps > 0 && sx::flag() {
            self.gaps -= 1;
            for _ in 0..1 + sx::pick(self.wide) {
                self.space();
            }
        } else if need {
            self.s.push(' ');
        }
    }
    fn put(&mut self, t: &str) {
        self.s.extend(t.chars());
    }
}
/// `beyond`: also letters, and behind the first place digits, that are not ASCII
fn sym_name(n: usize, beyond: bool) -> Vec<char> {
    let k = 1 + sx::pick(n);
    let mut v = vec![];
    for i in 0..k {
        if beyond && sx::flag() {
            let c = ['ß', 'Ж', '日', 'ǅ', '\u{1d4d0}', '\u{663}', '\u{2167}', '½'];
            v.push(c[sx::pick(if i == 0 { 5 } else { 8 })]);
            continue;
        }
        let c = sx::ascii();
        sx::assume(if i == 0 { letter(c) } else { inname(c) });
        v.push(c);
    }
    v
}
/// contents of a terminal: characters, or a backslash and any character
fn contents(n: usize, uni: bool) -> Vec<char> {
    let mut v = vec![];
    for _ in 0..sx::pick(n + 1) {
        if sx::flag() {
            v.push('\\');
            v.push(chr(uni));
        } else {
            let c = chr(uni);
            sx::assume((c != '"') & (c != '\\'));
            v.push(c);
        }
    }
    v
}
/// A long text of one of a few forms, with what it says. Some characters are symbolic.
fn big_text(form: usize, uni: bool) -> Writer {
    let mut w = Writer { s: vec![], gaps: 0, wide: 0, uni };
    let two = |i: usize| [char::from(b'0' + (i / 10) as u8), char::from(b'0' + (i % 10) as u8)];
    let plain = || {
        let c = chr(uni);
        sx::assume((c != '"') & (c != '\\'));
        c
    };
    match form {
        // many rules, one with a symbolic character in its name
        1 => {
            let odd = [0, 22, 44][sx::pick(3)];
            for i in 0..45 {
                w.put("name_");
                w.s.extend(two(i));
                if i == odd {
                    let c = sx::ascii();
                    sx::assume(inname(c));
                    let k = w.s.len() - 1;
                    w.s[k] = c;
                }
                w.put("->\"t");
                w.s.extend(two(i));
                w.put("\" name_");
                w.s.extend(two((i + 7) % 45));
                w.put(" | #;\n");
            }
        }
        // one long alternative
        2 => {
            w.put("start->");
            let odd = [0, 31, 59][sx::pick(3)];
            for i in 0..60 {
                w.put(if i % 3 > 0 { " n" } else { "\"" });
                w.s.extend(two(i));
                if i == odd {
                    let c = if i % 3 > 0 { sx::ascii() } else { plain() };
                    sx::assume(i % 3 == 0 || inname(c));
                    w.s.push(c);
                }
                if i % 3 == 0 {
                    w.put("\"");
                }
            }
            w.put(";");
        }
        // many alternatives
        3 => {
            w.put("start->\"0\"");
            let odd = [1, 31, 59][sx::pick(3)];
            for i in 1..60 {
                w.put("|");
                if i % 4 == 0 {
                    w.put("#");
                    continue;
                }
                w.put("n");
                w.s.extend(two(i));
                w.put(" \"");
                w.s.extend(two(i));
                if i == odd {
                    w.s.push(plain());
                }
                w.put("\"");
            }
            w.put(";");
        }
        // long names that differ in one place
        4 => {
            let c = sx::ascii();
            sx::assume(inname(c));
            let name = |at: usize, c: char| -> Vec<char> { (0..150).map(|i| if i == at { c } else { char::from(b'a' + (i % 26) as u8) }).collect() };
            let at = [1, 63, 64, 127, 128, 149][sx::pick(6)];
            w.s.extend(name(200, 'x'));
            w.put("->");
            w.s.extend(name(at, c));
            w.put(";");
            w.s.extend(name(at, c));
            w.put(" -> ");
            w.s.extend(name(at, '_'));
            w.put("|#;");
            w.s.extend(name(at, '_'));
            w.put(" -> ");
            w.s.extend(name(200, 'x'));
            w.put("|#;");
        }
        // a long terminal
        5 => {
            let c = plain();
            let all = sx::long(300);
            let at = [0, 63, 64, 128, 254, 255, 256, all - 1][sx::pick(8)];
            w.put("s->\"");
            for i in 0..all {
                if i == at {
                    w.s.push(c);
                } else if i % 37 == 5 {
                    w.put("\\\"");
                } else {
                    w.s.push(char::from(b'a' + (i % 26) as u8));
                }
            }
            w.put("\"s|\"b\";");
        }
        // wide gaps
        6 => {
            let at = sx::pick(9);
            let all = sx::long(300);
            let far = [0, 130, all - 1][sx::pick(3)];
            for (i, t) in ["", "start", "->", "a", "\"x\"", "|", "#", ";", "a->#;"].iter().enumerate() {
                w.put(t);
                for j in 0..all {
                    if i == at && j == far {
                        w.space();
                    } else if i == at {
                        w.s.push([' ', '\n', '\t', '\r'][j % 4]);
                    }
                }
            }
        }
        // one name again and again
        7 => {
            for i in 0..50 {
                w.put("start->\"");
                w.s.extend(two(i));
                if i == 33 {
                    w.s.push(plain());
                }
                w.put(if i % 2 > 0 { "\"|start;" } else { "\";" });
            }
        }
        // a long section and rules behind it
        _ => {
            w.put("a->#{");
            let c = chr(uni);
            sx::assume((c != '}') & (c != '\\') & !white(c));
            let all = sx::long(300);
            let at = [0, 128, 256, all - 1][sx::pick(4)];
            for i in 0..all {
                if i == at {
                    w.s.push(c);
                } else if i % 41 == 7 {
                    w.put("\\}");
                } else {
                    w.s.push([';', '"', 'x', '\n', ' ', '{'][i % 6]);
                }
            }
            w.put("};b->a|c{x};c->#{");
            w.s.push(c);
            w.put("};");
        }
    }
    w
}
/// A long text is read for what it says.
fn big_c08(l: u64) {
    let w = big_text(nib(l, 9), nib(l, 7) & 1 == 1);
    let m = vm(0);
    let mut rp = reader(&w.s, m);
    let Some(r) = sx::catch(|| rp.parse_rules().map(|_| ())) else { sx::fail(1) };
    if let Err(e) = r {
        log_err(&e);
        sx::fail(2);
    }
    let Said::Rules(rules) = said(&w.s) else { sx::fail(3) };
    sx::cover(3);
    compare(&rp.parser_data, &joined(&rules), 10);
    sections(m, &rules);
    instructions(&rp.parser_data, &rules);
}
/// nibbles: rules, alternatives, elements; parts of a terminal; name length (0: fixed names); widened gaps, their width; 1 = beyond ASCII; 1 = overrides and sections; form of a long text instead
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c08(l: u64) {
    sx::doubled(l);
    if nib(l, 9) > 0 {
        return big_c08(l);
    }
    let (k, na, ne, tl, nl) = (nib(l, 0), nib(l, 1), nib(l, 2), nib(l, 3), nib(l, 4));
    let uni = nib(l, 7) & 1 == 1;
    sx::wide(nib(l, 7) & 2 == 2);
    let mut w = Writer { s: vec![], gaps: nib(l, 5), wide: nib(l, 6), uni };
    let fixed = ["start", "b_1", "C2"];
    let names: Vec<Vec<char>> = (0..k).map(|i| if nl > 0 { sym_name(nl, uni) } else { fixed[i].chars().collect() }).collect();
    let mut rules = vec![];
    for i in 0..k {
        w.gap(false);
        let name = names[i].clone();
        w.put(&text_of(&name));
        w.gap(false);
        w.put("->");
        w.gap(false);
        if nib(l, 8) & 1 == 1 && sx::flag() {
            w.put("$[IGNORE:#]");
            w.gap(false);
        }
        let mut alts = vec![];
        for a in 0..1 + sx::pick(na) {
            if a > 0 {
                w.gap(false);
                w.put("|");
                w.gap(false);
            }
            let mut alt = vec![];
            let n = sx::pick(ne + 1);
            if n == 0 {
                w.put("#");
            }
            for e in 0..n {
                let term = sx::flag();
                if e > 0 {
                    w.gap(!term && matches!(alt[e - 1], El::N(_)));
                }
                if term {
                    let c = contents(tl, uni);
                    w.put("\"");
                    w.put(&text_of(&c));
                    w.put("\"");
                    alt.push(El::T(c));
                } else {
                    let c = names[sx::pick(k)].clone();
                    w.put(&text_of(&c));
                    alt.push(El::N(c));
                }
            }
            alts.push(alt);
        }
        let mut section = None;
        w.gap(false);
        if nib(l, 8) & 1 == 1 && sx::flag() {
            w.put("{");
            w.gap(false);
            section = Some((w.s.len(), vec!['x', '\\', '}', ' ']));
            w.put("x\\} }");
            w.gap(false);
        }
        w.put(";");
        rules.push(Rule { name, over: Over::Default, alts, section });
    }
    w.gap(false);
    let m = vm(0);
    let mut rp = reader(&w.s, m);
    let Some(r) = sx::catch(|| rp.parse_rules().map(|_| ())) else { sx::fail(1) };
    if let Err(e) = r {
        log_err(&e);
        sx::fail(2);
    }
    let j = joined(&rules);
    if j.len() < k {
        sx::cover(2);
    }
    if w.gaps < nib(l, 5) {
        sx::cover(1);
    }
    compare(&rp.parser_data, &j, 10);
    sections(m, &rules);
    instructions(&rp.parser_data, &rules);
}

// ---------------------------------------------------------------- C09

const SAMPLES: [&str; 8] = [
    "a->\"x\";",
    "ab -> c \"d\" | # ;",
    "a->$[IGNORE:b]\"x\" c;b->\" \";c->#;",
    "a->b{q\\}w};b->\"\\\"\"|#{};",
    "s->$[IGNORE:#]#;s->s;",
    "a\n->\n\"\\\\\"b|b\"\"a;b->#",
    "a->$[IGNORE:a]a a;",
    "ß->\"ß\u{2003}\u{1F600}\" ß;",
];
/// nibbles: form (0 any text, 1 replaced, 2 inserted, 3 deleted and cut, 4 swapped or doubled, 5 a long text of form (third nibble), one character replaced, inserted, deleted, or cut), symbolic characters; sample (15 = any); 1 = beyond ASCII
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c09(l: u64) {
    sx::doubled(l);
    let (form, n) = (nib(l, 0), nib(l, 1));
    let uni = nib(l, 3) & 1 == 1;
    sx::wide(nib(l, 3) & 2 == 2);
    let mut s: Vec<char> = vec![];
    if form == 5 {
        s = big_text(nib(l, 2), uni).s;
        let x = chr(uni);
        // up to 32 places all over the text, and its end
        let len = s.len();
        let at = |i: usize| if i < 4 { i } else if i < 28 { 4 + (len - 8) * (i - 4) / 24 } else { len - 32 + i };
        let i = at(sx::pick(32));
        match sx::pick(4) {
            0 => s[i] = x,
            1 => s.insert(i, x),
            2 => s.truncate(i),
            _ => {
                s.remove(i);
            }
        }
    } else if form > 0 {
        let k = if nib(l, 2) == 15 { sx::pick(SAMPLES.len()) } else { nib(l, 2) };
        s = SAMPLES[k].chars().collect();
    }
    match form {
        0 => {
            for _ in 0..sx::pick(n + 1) {
                s.push(chr(uni));
            }
        }
        5 => {}
        1 => {
            let i = sx::pick(s.len());
            for k in 0..n {
                if i + k < s.len() {
                    s[i + k] = chr(uni);
                }
            }
        }
        2 => {
            let i = sx::pick(s.len() + 1);
            for _ in 0..n {
                s.insert(i, chr(uni));
            }
        }
        3 => {
            let i = sx::pick(s.len());
            if sx::flag() {
                s.truncate(i);
                for _ in 0..n - 1 {
                    s.push(chr(uni));
                }
            } else {
                for _ in 0..n {
                    if i < s.len() {
                        s.remove(i);
                    }
                }
            }
        }
        _ => {
            let i = sx::pick(s.len());
            let j = sx::pick(s.len());
            if sx::flag() {
                s.swap(i, j);
            } else {
                let c = s[i];
                s.insert(j, c);
            }
            if n > 0 {
                let k = sx::pick(s.len());
                s[k] = chr(uni);
            }
        }
    }
    let m = vm(0);
    let mut rp = reader(&s, m);
    let Some(r) = sx::catch(|| rp.parse_rules().map(|_| ())) else { sx::fail(1) };
    if let Err(e) = &r {
        points(e, &s);
    }
    let (rules, w) = match said(&s) {
        Said::Open => return,
        Said::Bad => {
            sx::check(r.is_err(), 2);
            sx::cover(1);
            return;
        }
        Said::Rules(v) => {
            let j = joined(&v);
            // the override of a second definition
            if j.len() < v.len() && v.iter().any(|x| !matches!(x.over, Over::Default)) {
                return;
            }
            let w = woven(&j);
            (v, w)
        }
    };
    match w {
        Err(true) => {}
        Err(false) => {
            sx::check(r.is_err(), 3);
            sx::cover(2);
        }
        Ok(w) => {
            if r.is_err() {
                sx::fail(4);
            }
            sx::cover(3);
            compare(&rp.parser_data, &w, 10);
            sections(m, &rules);
            instructions(&rp.parser_data, &rules);
        }
    }
}

// ---------------------------------------------------------------- C10

pub struct Ignoring {
    pub text: Vec<char>,
    pub rules: Vec<Rule>,
    /// the rule ignored in all others
    pub default: Option<usize>,
}
/// nibbles: rules, alternatives, elements, terminal occurrences; overrides at most; 1 = default set beforehand; 1 = missing names too
pub fn ignoring_text(l: u64) -> Ignoring {
    let (k, na, ne) = (nib(l, 0), nib(l, 1), nib(l, 2));
    let mut terms = nib(l, 3);
    let mut overs = nib(l, 4);
    let names: Vec<Vec<char>> = ["start", "w", "a", "b"].iter().take(k).map(|x| x.chars().collect()).collect();
    let mut s: Vec<char> = vec![];
    let mut rules: Vec<Rule> = vec![];
    let dflt = if nib(l, 5) == 1 { Some(sx::pick(k)) } else { None };
    for i in 0..k {
        s.extend(&names[i]);
        s.extend("->".chars());
        let mut over = match dflt {
            Some(x) => Over::Name(names[x].clone()),
            None => Over::Default,
        };
        if overs > 0 && sx::flag() {
            overs -= 1;
            s.extend("$[IGNORE:".chars());
            let c = sx::pick(k + 1 + nib(l, 6));
            if c == k {
                over = Over::Off;
                s.push('#');
            } else {
                let n: Vec<char> = if c > k { "zz".chars().collect() } else { names[c].clone() };
                s.extend(&n);
                over = Over::Name(n);
            }
            s.push(']');
        }
        let mut alts = vec![];
        for a in 0..1 + sx::pick(na) {
            if a > 0 {
                s.push('|');
            }
            let n = sx::pick(ne + 1);
            if n == 0 {
                s.push('#');
            }
            let mut alt = vec![];
            for _ in 0..n {
                let c = sx::pick(k + (terms > 0) as usize);
                if c == k {
                    terms -= 1;
                    let c = sx::ascii();
                    sx::assume((c != '"') & (c != '\\'));
                    s.push('"');
                    s.push(c);
                    s.push('"');
                    alt.push(El::T(vec![c]));
                } else {
                    s.extend(&names[c]);
                    s.push(' ');
                    alt.push(El::N(names[c].clone()));
                }
            }
            alts.push(alt);
        }
        s.push(';');
        rules.push(Rule { name: names[i].clone(), over, alts, section: None });
    }
    Ignoring { text: s, rules, default: dflt }
}
/// A reader with a VM that notes instruction characters.
pub fn reader_plain(s: &[char]) -> RuleParser<'static, 'static, crate::gram::RecVm> {
    RuleParser::new(Box::leak(Box::new(PeekableWrapper::from_str(leak(s)))), &crate::gram::RecVm {})
}
/// Many rules with overrides, of one of a few forms.
fn big_ignoring(form: usize) -> Ignoring {
    let k = 40;
    let name = |i: usize| -> Vec<char> { vec!['n', char::from(b'0' + (i / 10) as u8), char::from(b'0' + (i % 10) as u8)] };
    let c = sx::ascii();
    sx::assume((c != '"') & (c != '\\'));
    let n = |i: usize| El::N(name(i));
    let t = |x: char| El::T(vec![x]);
    let mut rules: Vec<Rule> = (0..k).map(|i| Rule { name: name(i), over: Over::Default, alts: vec![], section: None }).collect();
    let over = |i: usize| Over::Name(name(i));
    match form {
        // rule 1 is ignored; it needs one rule after the other; rule 0 is long
        1 => {
            rules[0].alts.push((1..k).map(|i| if i % 3 > 0 { t('x') } else { n(i) }).collect());
            for i in 1..k {
                rules[i].alts.push(vec![]);
                rules[i].alts.push(if i + 1 < k { vec![t('y'), n(i + 1)] } else { vec![t(c), t('z')] });
            }
            for r in rules.iter_mut() {
                r.over = over(1);
            }
        }
        // one place among many
        2 => {
            // 30 alternatives of 3 elements, or one of 90
            let (a, e) = ([0, 1, 3, 17, 29][sx::pick(5)], sx::pick(3));
            for i in 0..k {
                rules[i].alts.push(vec![t('x'), t(c), t('y')]);
                if i > 0 {
                    rules[i].over = over(0);
                }
            }
            rules[0].alts = (0..30)
                .map(|x| (0..3).map(|y| if x == a && y == e { n(2) } else { t(char::from(if x < 26 { b'A' + x as u8 } else { b'0' + x as u8 - 26 })) }).collect())
                .collect();
            if sx::flag() {
                let v = rules[0].alts.drain(..).flatten().collect();
                rules[0].alts.push(v);
            }
            let p = [3, 20, 39][sx::pick(3)];
            rules[2].alts.push(vec![n(p), t('q')]);
        }
        // each rule ignores another one, and all lead to the last
        3 => {
            for i in 0..k {
                let mut a = vec![t('x'), t('y')];
                if i + 1 < k {
                    a.push(n(i + 1));
                }
                rules[i].alts.push(a);
            }
            let d = [1, 2, 19, 39][sx::pick(4)];
            for i in 0..k {
                rules[i].over = if sx::decide(c == 'x') && i % 2 == 0 { Over::Off } else { over((i + d) % k) };
            }
        }
        // a ring, and rules outside of it
        4 => {
            for i in 0..k {
                let to = if i < 20 { (i + 1) % 20 } else { (i + 7) % k };
                rules[i].alts.push(vec![t(c), n(to), n(to)]);
                rules[i].alts.push(vec![]);
            }
            let p = [0, 5, 19, 20, 39][sx::pick(5)];
            for r in rules.iter_mut() {
                r.over = over(p);
            }
        }
        // rules that are used several times by the next
        _ => {
            for i in 0..k {
                rules[i].alts.push(if i + 1 < k { vec![n(i + 1), t('x'), n(i + 1), n((i + 2).min(k - 1))] } else { vec![t(c), t('y')] });
            }
            for (i, r) in rules.iter_mut().enumerate() {
                r.over = over([20, 39, 0][i % 3]);
            }
        }
    }
    let mut s: Vec<char> = vec![];
    for r in &rules {
        s.extend(&r.name);
        s.extend("->".chars());
        match &r.over {
            Over::Default => {}
            Over::Off => s.extend("$[IGNORE:#]".chars()),
            Over::Name(x) => {
                s.extend("$[IGNORE:".chars());
                s.extend(x);
                s.push(']');
            }
        }
        for (i, a) in r.alts.iter().enumerate() {
            if i > 0 {
                s.push('|');
            }
            if a.is_empty() {
                s.push('#');
            }
            for e in a {
                match e {
                    El::T(x) => {
                        s.push('"');
                        s.extend(x);
                        s.push('"');
                    }
                    El::N(x) => {
                        s.extend(x);
                        s.push(' ');
                    }
                }
            }
        }
        s.push(';');
    }
    Ignoring { text: s, rules, default: None }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c10(l: u64) {
    let Ignoring { text: s, rules, default: dflt } = if nib(l, 8) > 0 { big_ignoring(nib(l, 8)) } else { ignoring_text(l) };
    if l >> 28 & 1 == 1 {
        sx::hash_seed([0, 2, 3][sx::pick(3)]);
    }
    let names: Vec<Vec<char>> = rules.iter().map(|r| r.name.clone()).collect();
    let m = vm(0);
    let mut rp = reader(&s, m);
    if let Some(x) = dflt {
        let ix = rp.parser_data.get_or_add_non_terminal(&text_of(&names[x]));
        rp.parser_data.parse_rules.ignore = Some(ix);
    }
    let Some(r) = sx::catch(|| rp.parse_rules().map(|_| ())) else { sx::fail(1) };
    sx::log(r.is_ok() as u64);
    match woven(&rules) {
        Err(_) => {
            sx::check(r.is_err(), 2);
            sx::cover(3);
        }
        Ok(w) => {
            if r.is_err() {
                sx::fail(3);
            }
            compare(&rp.parser_data, &w, 10);
            let mut changed = false;
            let mut spared = false;
            for (a, b) in rules.iter().zip(&w) {
                let c = a.alts.iter().zip(&b.alts).any(|(x, y)| x.len() != y.len());
                changed |= c;
                spared |= !c && matches!(a.over, Over::Name(_)) && a.alts.iter().any(|x| x.len() > 1);
            }
            if changed {
                sx::cover(1);
            }
            if spared {
                sx::cover(2);
            }
        }
    }
}
/// The documented directive at the top.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c10d(_l: u64) {
    let c = [sx::ascii(), sx::ascii(), sx::ascii()];
    for x in c {
        sx::assume((x != '"') & (x != '\\'));
    }
    let mut s: Vec<char> = "$IGNORE: w; start -> \"".chars().collect();
    s.push(c[0]);
    s.extend("\" \"".chars());
    s.push(c[1]);
    s.extend("\"; w -> \"".chars());
    s.push(c[2]);
    s.extend("\";".chars());
    let m = vm(0);
    let mut rp = reader(&s, m);
    let Some(r) = sx::catch(|| rp.parse_rules().map(|_| ())) else { sx::fail(2) };
    if r.is_err() {
        sx::fail(1);
    }
    let n = |t: &str| -> Vec<char> { t.chars().collect() };
    let rules = [
        Rule { name: n("start"), over: Over::Default, alts: vec![vec![El::T(vec![c[0]]), El::N(n("w")), El::T(vec![c[1]])]], section: None },
        Rule { name: n("w"), over: Over::Default, alts: vec![vec![El::T(vec![c[2]])]], section: None },
    ];
    compare(&rp.parser_data, &rules, 10);
}

// ---------------------------------------------------------------- C12

/// nibbles: characters of the section; mode of the VM (10 = any of the simple ones); form of the text around; 1 = beyond ASCII; 1 = the VM refuses somewhere; 1 = a long section instead
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c12(l: u64) {
    sx::doubled(l);
    let n = nib(l, 0);
    let uni = nib(l, 3) & 1 == 1;
    sx::wide(nib(l, 3) & 2 == 2);
    let mut s: Vec<char> = match nib(l, 2) {
        0 => "aB->#{".chars().collect(),
        1 => "b->\"}{\"{u\\};v};a->\"\\\"\"|#\n{".chars().collect(),
        3 => "a->#;b->#{u};a->\"x\"{".chars().collect(),
        4 => "a->#{ u };b->#{};b->\"y\"{".chars().collect(),
        _ => "ßB -> A \"\u{1F600}\";A -> # { ".chars().collect(),
    };
    for _ in 0..sx::pick(n + 1) {
        s.push(chr(uni));
    }
    match nib(l, 2) {
        0 => s.extend("};".chars()),
        1 => s.extend("} ;c->a{};d->#{ x };".chars()),
        3 => s.extend("};b->\"y\";".chars()),
        4 => s.extend("};a->b;a->b a{v};".chars()),
        _ => s.extend("\\}}\n;c->ßB;".chars()),
    }
    if nib(l, 5) == 1 {
        s = big_text(8, uni).s;
    }
    let mode = if nib(l, 1) == 10 && nib(l, 5) == 1 {
        [0, 1, 2, 3, 4, 6][sx::pick(6)]
    } else if nib(l, 1) == 10 {
        sx::pick(7)
    } else { nib(l, 1) };
    let fail = match nib(l, 4) {
        0 => None,
        _ if nib(l, 5) == 1 => Some([0, 2, 129, 256, sx::long(300)][sx::pick(5)]),
        _ => Some(sx::pick(n + 1)),
    };
    let m: &'static SecVm = Box::leak(Box::new(SecVm { mode, fail, calls: RefCell::new(vec![]) }));
    let mut rp = reader(&s, m);
    let Some(r) = sx::catch(|| rp.parse_rules().map(|_| ())) else { sx::fail(1) };
    sx::log(r.is_ok() as u64);
    for c in m.calls.borrow().iter() {
        sx::log(c.text.len() as u64);
    }
    // the sections that are there, as far as the text can be read
    let mut rd = Read { s: &s, p: 0 };
    let mut rules = vec![];
    let mut good = true;
    let mut cut = None;
    loop {
        rd.ws();
        if rd.p == s.len() {
            break;
        }
        let b = rd.p;
        match rd.rule() {
            Ok(x) => {
                if !matches!(x.over, Over::Default) {
                    return;
                }
                let refused = fail.is_some() && x.section.as_ref().is_some_and(|t| t.1.len() >= fail.unwrap());
                rules.push(x);
                if refused {
                    cut = fail;
                    break;
                }
            }
            Err(Stop(true)) => return,
            Err(_) => {
                good = false;
                cut = Some(b);
                break;
            }
        }
    }
    if good && cut.is_none() {
        sx::check(r.is_ok(), 2);
        sections(m, &rules);
        instructions(&rp.parser_data, &rules);
        sx::cover(1);
        return;
    }
    if good {
        // refused by the VM: passed on, nothing asked afterwards
        match r {
            Err(ParserError::VmError { message }) => sx::check(message == "no", 3),
            _ => sx::fail(4),
        }
        let c = m.calls.borrow();
        let k = rules.iter().filter(|x| x.section.is_some()).count();
        sx::check(c.len() == k, 5);
        let t = &c[k - 1].text;
        sx::check(t.len() == cut.unwrap(), 6);
        let (b, _) = rules[rules.len() - 1].section.as_ref().unwrap();
        sx::check(c[k - 1].at == *b, 7);
        for i in 0..t.len() {
            sx::check(t[i] == s[*b + i], 8);
        }
        sx::cover(2);
        return;
    }
    // the text goes wrong: the sections before are as they should be, and that of the bad rule is read in the same way
    sx::check(r.is_err(), 9);
    sx::cover(3);
    let c = m.calls.borrow();
    let k = rules.iter().filter(|x| x.section.is_some()).count();
    sx::check((c.len() == k) | (c.len() == k + 1), 50);
    let mut at = 0;
    for r in rules.iter() {
        if let Some((b, t)) = &r.section {
            sx::check((c[at].at == *b) & same_text(&text_of(&c[at].text), &text_of(t)), 51);
            at += 1;
        }
    }
    if c.len() > k {
        let x = &c[k];
        let mut rd = Read { s: &s, p: x.at };
        if fail.is_none() {
            match rd.verbatim('}') {
                Ok(t) => sx::check(same_text(&text_of(&x.text), &text_of(&t)), 52),
                Err(_) => sx::check(same_text(&text_of(&x.text), &text_of(&s[x.at..])), 53),
            }
        }
    }
}

//! C07, C19: two ways that must come to the same.
use crate::gram::*;
use crate::scripts::{Case, leak, parser};
use crate::sx;
use crate::texts::{ignoring_text, reader_plain};
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parser_data::{ElementType, ParserData, Production};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;

/// What a parse came to.
pub struct Outcome {
    panicked: bool,
    /// kind, character, position
    err: Option<(u32, char, usize)>,
    shape: Vec<(usize, String)>,
    ids: Vec<NodeId>,
    ev: Vec<Exec>,
}
fn ids_of(tree: &Tree<String>, id: NodeId, v: &mut Vec<NodeId>) {
    v.push(id);
    for c in tree.get_children(id) {
        ids_of(tree, c, v);
    }
}
pub fn outcome<'a>(p: &mut Parser<'a, RecVm>, text: &'a str) -> Outcome {
    let mut st = RecVm::create_new_state();
    st.shapes = true;
    let r = sx::catch(|| p.parse(text, &mut st));
    let mut o = Outcome { panicked: r.is_none(), err: None, shape: vec![], ids: vec![], ev: vec![] };
    match r {
        None => {}
        Some(Ok(tree)) => {
            o.shape = shape_of(&tree, ROOT);
            ids_of(&tree, ROOT, &mut o.ids);
        }
        Some(Err(e)) => {
            o.err = Some(match e {
                ParserError::UnexpectedCharError { chr, pos, .. } => (1, chr, pos),
                ParserError::EndOfCharsError { pos } => (2, ' ', pos),
                _ => (3, ' ', 0),
            })
        }
    }
    o.ev = st.ev;
    o
}
fn same_shape(a: &[(usize, String)], b: &[(usize, String)]) -> bool {
    let mut r = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        r &= (x.0 == y.0) & same_text(&x.1, &y.1);
    }
    r
}
/// ids: do the nodes have to have the same ids as well?
pub fn agree(a: &Outcome, b: &Outcome, ids: bool, code: u32) {
    sx::check(a.panicked == b.panicked, code);
    match (&a.err, &b.err) {
        (None, None) => {}
        (Some(x), Some(y)) => {
            sx::check(x.0 == y.0, code + 1);
            sx::check(x.1 == y.1, code + 2);
            sx::check(x.2 == y.2, code + 3);
        }
        _ => sx::fail(code + 4),
    }
    sx::check(same_shape(&a.shape, &b.shape), code + 5);
    sx::check(!ids || a.ids == b.ids, code + 6);
    sx::check(a.ev.len() == b.ev.len(), code + 7);
    for (x, y) in a.ev.iter().zip(&b.ev) {
        sx::check(x.ins == y.ins, code + 8);
        sx::check(!ids || x.node == y.node, code + 8);
        sx::check(same_shape(&x.shape, &y.shape), code + 9);
    }
}
fn note(a: &Outcome) {
    sx::log(a.ev.len() as u64);
    sx::log(a.shape.len() as u64);
    if let Some(e) = a.err {
        sx::log(e.0 as u64);
        sx::log(e.2 as u64);
        sx::cover(2);
    } else {
        sx::cover(1);
    }
}
fn instr(i: usize) -> Vec<usize> {
    (0..2 - (i % 2)).map(|j| crate::scripts::code(i, j)).collect()
}
const SEEDS: [u64; 10] = [1, 2, 3, 4, 0x1_0000, 0x3_0000, 7, 12, 0x6_0000, 21];

/// As for scripts; bits 40..: number of earlier scripts (0: hash orders instead, 15: one, 140 times), 44..: number of orders tried,
/// 48..: 1 = all characters are one of few and the tables of characters are permuted too
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c07(l: u64) {
    let (mut earlier, seeds, few) = ((l >> 40 & 15) as usize, (l >> 44 & 15) as usize, l >> 48 & 1 == 1);
    let mut times = 1;
    if earlier == 15 {
        // one script, many times
        (earlier, times) = (1, 140);
    }
    let vm: &'static RecVm = &RecVm {};
    let c = Cfg::new(l);
    let mk = |n: usize| {
        let mut v = vec![];
        for _ in 0..n {
            v.push(if few { ['a', 'b', 'c', 'd'][sx::pick(4)] } else { schr(c.o(O_UNI)) });
        }
        v
    };
    let mut scripts: Vec<Vec<char>> = vec![];
    if !few {
        scripts = (0..=earlier).map(|_| mk(c.slen)).collect();
    }
    let (mut g, long) = if c.fam == 15 { large(&c) } else { (gen_family(&c), vec![]) };
    if c.fam == 15 {
        // long scripts instead
        scripts = (0..=earlier).map(|_| near(&c, long.clone())).collect();
    }
    if few {
        for (i, t) in g.ts.iter_mut().enumerate() {
            *t = vec![['a', 'b', 'c', 'd'][i % 4]];
        }
    }
    let sets = Sets::new(&g);
    if !few || earlier > 0 {
        sx::assume(sets.defined & !sets.leftrec);
    }
    if c.o(O_TEXT) {
        assume_plain(&g);
    }
    let mut k = Case { c, g, sets, script: vec![] };
    if few {
        // does the parser exist at all?
        if earlier > 0 && parser(&k, vm, &instr).is_none() {
            return;
        }
        scripts = (0..=earlier).map(|_| { let n = sx::pick(c.slen + 1); mk(n) }).collect();
    } else if c.fam != 15 {
        for s in scripts.iter_mut() {
            let n = sx::pick(c.slen + 1);
            s.truncate(n);
        }
    }
    k.script = scripts.pop().unwrap();
    let text = leak(&k.script);
    if earlier > 0 {
        let Some(mut fresh) = parser(&k, vm, &instr) else { return };
        let Some(mut used) = parser(&k, vm, &instr) else { sx::fail(1) };
        let a = outcome(&mut fresh, text);
        for s in &scripts {
            let s = leak(s);
            for _ in 0..times {
                outcome(&mut used, s);
            }
        }
        let b = outcome(&mut used, text);
        agree(&a, &b, true, 10);
        note(&a);
        // and once more
        let d = outcome(&mut used, text);
        agree(&a, &d, true, 30);
        return;
    }
    let a = parser(&k, vm, &instr).map(|mut p| outcome(&mut p, text));
    let s = SEEDS[sx::pick(seeds)] | if few { 0x100 } else { 0 };
    sx::hash_seed(s);
    let b = parser(&k, vm, &instr).map(|mut p| outcome(&mut p, text));
    sx::log(a.is_some() as u64);
    match (a, b) {
        (Some(a), Some(b)) => {
            agree(&a, &b, true, 10);
            note(&a);
        }
        (None, None) => sx::cover(3),
        _ => sx::fail(2),
    }
}

fn same_rules<T: VM>(a: &ParserData<T>, b: &ParserData<T>) {
    let (x, y) = (a.get_elements_verbose(), b.get_elements_verbose());
    sx::check(x.len() == y.len(), 20);
    for (i, (p, q)) in x.iter().zip(&y).enumerate() {
        sx::check((p.et == q.et) & same_text(&p.name, &q.name), 21);
        match (a.get_rule_by_key(i), b.get_rule_by_key(i)) {
            (None, None) => {}
            (Some(r), Some(s)) => {
                sx::check(r.possible_productions.len() == s.possible_productions.len(), 22);
                sx::check(r.instruction.len() == s.instruction.len(), 23);
                for (u, v) in r.possible_productions.iter().zip(&s.possible_productions) {
                    let same = match (&**u, &**v) {
                        (Production::Empty, Production::Empty) => true,
                        (Production::NotEmpty(u), Production::NotEmpty(v)) => u == v,
                        _ => false,
                    };
                    sx::check(same, 24);
                }
            }
            _ => sx::fail(25),
        }
    }
}
/// Reading a text with overrides in two hash orders. Nibbles as for h_c10, then the number of orders.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c07r(l: u64) {
    let t = ignoring_text(l);
    let run = |seed: u64| {
        sx::hash_seed(seed);
        let mut rp = reader_plain(&t.text);
        if let Some(x) = t.default {
            let ix = rp.parser_data.get_or_add_non_terminal(&text_of(&t.rules[x].name));
            rp.parser_data.parse_rules.ignore = Some(ix);
        }
        let r = sx::catch(|| rp.parse_rules().map(|_| ()));
        (r.map(|x| x.is_ok()), rp.parser_data)
    };
    let (a, x) = run(0);
    let (b, y) = run(SEEDS[sx::pick((l >> 28 & 15) as usize)]);
    sx::check(a.is_some() & b.is_some(), 1);
    sx::check(a == b, 2);
    sx::log((a == Some(true)) as u64);
    if a == Some(true) {
        sx::cover(1);
        same_rules(&x, &y);
    } else {
        sx::cover(2);
    }
}

/// As for scripts; the start is any non-terminal, any non-terminal (or none) is called "start".
/// bits 40..: number of free choices in the order of the building operations
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c19c(l: u64) {
    let c = Cfg::new(l);
    let mut free = (l >> 40 & 15) as usize;
    let mut pool = vec![];
    for _ in 0..c.slen {
        pool.push(schr(c.o(O_UNI)));
    }
    let (g, long) = if c.fam == 15 { large(&c) } else { (gen_family(&c), vec![]) };
    let k = g.k();
    let sets = Sets::new(&g);
    sx::assume(sets.defined & !sets.leftrec);
    assume_plain(&g);
    if c.fam == 15 {
        pool = near(&c, long);
    } else {
        let n = sx::pick(c.slen + 1);
        pool.truncate(n);
    }
    // of a big grammar only some
    let (start, called) = if c.fam == 15 { ([0, 1, k - 1][sx::pick(3.min(k))], [0, 2, k / 2, k][sx::pick(4)]) } else { (sx::pick(k), sx::pick(k + 1)) };
    let names: Vec<String> = (0..k)
        .map(|i| {
            let mut s = String::from(if i == called { "start" } else { ["first", "second", "third", "fourth", "fifth", "sixth"][i % 6] });
            if i >= 6 && i != called {
                s.push(char::from(b'a' + (i / 6) as u8));
            }
            s
        })
        .collect();
    let mut flip = || {
        free > 0 && {
            free -= 1;
            sx::flag()
        }
    };
    // through the API, twice: the constructor panics on what the tables refuse
    let plan: Vec<(bool, bool)> = (0..k).map(|_| (flip(), flip())).collect();
    let back = flip();
    let ahead = flip();
    let make = || {
        let mut pd = ParserData::<RecVm>::new();
        let mut ix = vec![usize::MAX; k];
        if ahead {
            for i in (0..k).rev() {
                ix[i] = pd.get_or_add_non_terminal(&names[i]);
            }
        }
        let order: Vec<usize> = if back { (0..k).rev().collect() } else { (0..k).collect() };
        for i in order {
            let me = pd.get_or_add_non_terminal(&names[i]);
            ix[i] = me;
            let mut ps = vec![];
            for a in &g.nt[i] {
                let mut v = vec![];
                for x in a {
                    v.push(match x {
                        S::T(t) => pd.get_or_add_terminal(&text_of(&g.ts[*t])),
                        S::N(y) => pd.get_or_add_non_terminal(&names[*y]),
                    });
                }
                ps.push(v);
            }
            if plan[i].0 {
                pd.add_instructions(me, instr(i));
            }
            if plan[i].1 {
                pd.add_production(me, vec![]);
                pd.set_productions(me, ps);
            } else {
                for p in ps {
                    pd.add_production(me, p);
                }
            }
            if !plan[i].0 {
                pd.add_instructions(me, instr(i));
            }
        }
        (pd, ix[start])
    };
    let vm: &'static RecVm = &RecVm {};
    let (pd, st) = make();
    let a_ok = tables(pd, st).is_ok();
    // the text: the same grammar, its start called "start"
    let sw = |x: usize| if x == 0 { start } else if x == start { 0 } else { x };
    let mut h = g.clone();
    for i in 0..k {
        h.nt[sw(i)] = g.nt[i].clone();
    }
    for x in h.nt.iter_mut().flatten().flatten() {
        if let S::N(y) = x {
            *y = sw(*y);
        }
    }
    let hsets = Sets::new(&h);
    let case = Case { c: Cfg { opts: c.opts | 1 << O_TEXT, ..c }, g: h, sets: hsets, script: pool };
    let b = parser(&case, vm, &|i| instr(sw(i)));
    sx::check(a_ok == b.is_some(), 1);
    let Some(mut b) = b else {
        sx::cover(3);
        return;
    };
    let (pd, st) = make();
    let Some(mut a) = sx::catch(|| Parser::new_from_parser_data(pd, st, vm)) else { sx::fail(2) };
    let text = leak(&case.script);
    let x = outcome(&mut a, text);
    let y = outcome(&mut b, text);
    agree(&x, &y, false, 10);
    note(&x);
    if called != start && called < k && start != 0 {
        sx::cover(4);
    }
    // the same from a text whose start has that other name
    if l >> 44 & 1 == 1 {
        let mut t: Vec<char> = vec![];
        for i in 0..k {
            let one = Gram { nt: vec![g.nt[i].clone()], ts: g.ts.clone() };
            t.extend(named_rule(&one, &names, &names[i], &instr(i)).chars());
        }
        let mut rp = crate::texts::reader_plain(&t);
        let Some(Ok(())) = sx::catch(|| rp.parse_rules().map(|_| ())) else { sx::fail(3) };
        let pd = rp.parser_data;
        let Some(st) = pd.get_element_nt_index(&names[start]) else { sx::fail(4) };
        let Some(mut d) = sx::catch(|| Parser::new_from_parser_data(pd, st, vm)) else { sx::fail(5) };
        let z = outcome(&mut d, text);
        agree(&z, &y, false, 30);
    }
}
fn named_rule(g: &Gram, names: &[String], name: &str, ins: &[usize]) -> String {
    let mut s = String::from(name);
    s.push_str("->");
    for (j, a) in g.nt[0].iter().enumerate() {
        if j > 0 {
            s.push('|');
        }
        if a.is_empty() {
            s.push('#');
        }
        for x in a {
            match x {
                S::T(t) => {
                    s.push('"');
                    s.push_str(&text_of(&g.ts[*t]));
                    s.push('"');
                }
                S::N(y) => {
                    s.push_str(&names[*y]);
                    s.push(' ');
                }
            }
        }
    }
    s.push('{');
    for x in ins {
        s.push(char::from_u32(*x as u32).unwrap());
    }
    s.push_str("};");
    s
}

/// A grammar put together from text and by building operations, in any order: as one text.
/// As for scripts.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c19d(l: u64) {
    let c = Cfg::new(l);
    let mut pool = vec![];
    for _ in 0..c.slen {
        pool.push(schr(c.o(O_UNI)));
    }
    let (g, long) = if c.fam == 15 { large(&c) } else { (gen_family(&c), vec![]) };
    let k = g.k();
    let sets = Sets::new(&g);
    sx::assume(sets.defined & !sets.leftrec);
    assume_plain(&g);
    if c.fam == 15 {
        pool = near(&c, long);
    } else {
        let n = sx::pick(c.slen + 1);
        pool.truncate(n);
    }
    // where each rule comes from: all of it from the text, by operations before, or by operations after, or its first
    // alternative in one way and the others in another
    let all = sx::pick(5);
    let from: Vec<usize> = g.nt.iter().enumerate().map(|(i, r)| if c.fam == 15 { (all + i) % 3 } else { sx::pick(if r.len() > 1 { 5 } else { 3 }) }).collect();
    let names: Vec<String> = (0..k).map(|i| String::from(name(&c, i))).collect();
    let first = |f: usize| [0, 1, 2, 1, 0][f];
    let rest = |f: usize| [0, 1, 2, 0, 2][f];
    let mut text = String::new();
    for i in 0..k {
        let alts: Vec<Vec<S>> = g.nt[i].iter().enumerate().filter(|(j, _)| if *j == 0 { first(from[i]) == 0 } else { rest(from[i]) == 0 }).map(|x| x.1.clone()).collect();
        if alts.is_empty() {
            continue;
        }
        let one = Gram { nt: vec![alts], ts: g.ts.clone() };
        text.push_str(&named_rule(&one, &names, &names[i], &if first(from[i]) == 0 { instr(i) } else { vec![] }));
    }
    let build = |pd: &mut ParserData<RecVm>, when: usize| {
        for i in 0..k {
            for (j, a) in g.nt[i].iter().enumerate() {
                if (if j == 0 { first(from[i]) } else { rest(from[i]) }) != when {
                    continue;
                }
                let me = pd.get_or_add_non_terminal(&names[i]);
                let mut v = vec![];
                for x in a {
                    v.push(match x {
                        S::T(t) => pd.get_or_add_terminal(&text_of(&g.ts[*t])),
                        S::N(y) => pd.get_or_add_non_terminal(&names[*y]),
                    });
                }
                pd.add_production(me, v);
                if j == 0 {
                    pd.add_instructions(me, instr(i));
                }
            }
        }
    };
    let t: Vec<char> = text.chars().collect();
    let make = || {
        let mut rp = crate::texts::reader_plain(&t);
        build(&mut rp.parser_data, 1);
        let Some(Ok(())) = sx::catch(|| rp.parse_rules().map(|_| ())) else { sx::fail(1) };
        let mut pd = rp.parser_data;
        build(&mut pd, 2);
        pd
    };
    let pd = make();
    // the rules are all there, alternatives in order
    sx::check(pd.parse_rules.rules.len() == k, 2);
    for i in 0..k {
        let Some(r) = pd.get_rule_by_element_verbose(&names[i]) else { sx::fail(3) };
        sx::check(r.possible_productions.len() == g.nt[i].len(), 4);
        sx::check(r.instruction == instr(i), 5);
        let mut ok = true;
        for (p, a) in r.possible_productions.iter().zip(&g.nt[i]) {
            let els: &[usize] = match &**p {
                Production::Empty => &[],
                Production::NotEmpty(v) => v,
            };
            sx::check(els.len() == a.len(), 6);
            for (e, x) in els.iter().zip(a) {
                let Some(y) = pd.get_element_verbose(*e) else { sx::fail(7) };
                ok &= match x {
                    S::T(t) => (y.et == ElementType::Terminal) & same_text(&y.name, &text_of(&g.ts[*t])),
                    S::N(n) => (y.et == ElementType::NonTerminal) & same_text(&y.name, &names[*n]),
                };
            }
        }
        sx::check(ok, 8);
    }
    let Some(st) = pd.get_element_nt_index("start") else { sx::fail(9) };
    let a_ok = tables(pd, st).is_ok();
    let vm: &'static RecVm = &RecVm {};
    let case = Case { c: Cfg { opts: c.opts | 1 << O_TEXT, ..c }, g: g.clone(), sets, script: pool };
    let b = parser(&case, vm, &instr);
    sx::check(a_ok == b.is_some(), 20);
    let Some(mut b) = b else {
        sx::cover(3);
        return;
    };
    let pd = make();
    let Some(mut a) = sx::catch(|| Parser::new_from_parser_data(pd, st, vm)) else { sx::fail(21) };
    let text = leak(&case.script);
    let x = outcome(&mut a, text);
    let y = outcome(&mut b, text);
    agree(&x, &y, false, 30);
    note(&x);
}

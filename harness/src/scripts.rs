//! C01, C02, C03, C11: parsing scripts.
use crate::gram::*;
use crate::sx;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parser_data::ParserData;
use henriks_parsing_project::peekables::PeekableWrapper;
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;

pub struct Case {
    pub c: Cfg,
    pub g: Gram,
    pub sets: Sets,
    pub script: Vec<char>,
}

/// A grammar and a script of at most slen characters.
pub fn case(l: u64) -> Case {
    let c = Cfg::new(l);
    if c.fam == 15 {
        let (g, s) = large(&c);
        let script = near(&c, s);
        let sets = Sets::new(&g);
        if c.o(O_TEXT) {
            assume_plain(&g);
        }
        return Case { c, g, sets, script };
    }
    let mut pool = vec![];
    for _ in 0..c.slen {
        pool.push(schr(c.o(O_UNI)));
    }
    let g = gen_family(&c);
    let sets = Sets::new(&g);
    sx::assume(sets.defined & !sets.leftrec);
    if c.o(O_TEXT) {
        assume_plain(&g);
    }
    let n = sx::pick(c.slen + 1);
    pool.truncate(n);
    Case { c, g, sets, script: pool }
}

/// The parser for the grammar, or None if it is refused. With instructions, if any, in every rule.
pub fn parser<'a, T: VM<Tinstrution = usize>>(k: &Case, vm: &'a T, instr: &dyn Fn(usize) -> Vec<usize>) -> Option<Parser<'a, T>> {
    let (c, g) = (&k.c, &k.g);
    if c.o(O_TEXT) {
        let text: &'static str = Box::leak(to_text(g, c, instr).into_boxed_str());
        // the text constructor panics on what the tables refuse
        let pk = Box::leak(Box::new(PeekableWrapper::from_str(text)));
        let mut rp = RuleParser::new(pk, vm);
        if rp.parse_rules().is_err() {
            return None;
        }
        let pd = rp.parser_data;
        let start = pd.get_element_nt_index("start")?;
        tables(pd, start).ok()?;
        return Some(Parser::new_from_text(text, vm));
    }
    let mut b = build::<T>(g, c);
    for i in 0..g.k() {
        let ins = instr(i);
        if !ins.is_empty() {
            b.pd.add_instructions(b.nt[i], ins);
        }
    }
    let el = b.pd.get_elements_verbose();
    let t = tables(b.pd, b.nt[0]).ok()?;
    Some(Parser::new(t, el, vm))
}
pub fn leak(s: &[char]) -> &'static str {
    Box::leak(text_of(s).into_boxed_str())
}
/// For long scripts: whether the textbook's predictive parser accepts, or where it stops.
fn predicted(k: &Case) -> Result<(), usize> {
    let mut r = Ref { g: &k.g, sets: &k.sets, s: &k.script, pos: 0, done: vec![], keep: false };
    if r.nt(0, &mut vec![]).is_some() && r.pos == k.script.len() { Ok(()) } else { Err(r.pos) }
}
pub fn no_instr(_: usize) -> Vec<usize> {
    vec![]
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c01(l: u64) {
    let k = case(l);
    let vm = RecVm {};
    let Some(mut p) = parser(&k, &vm, &no_instr) else { return };
    let mut st = RecVm::create_new_state();
    let text = leak(&k.script);
    let Some(r) = sx::catch(|| p.parse(text, &mut st)) else { sx::fail(1) };
    let ok = r.is_ok();
    sx::log(ok as u64);
    let yes = if k.c.fam == 15 {
        predicted(&k).is_ok()
    } else {
        let mut sp = Spans::new(&k.g, &k.script);
        sp.derives(0, 0, k.script.len())
    };
    if ok {
        sx::cover(1);
        if k.script.len() > 1 {
            sx::cover(2);
        }
        sx::check(yes, 2);
    } else {
        sx::cover(3);
        sx::check(!yes, 3);
    }
}

/// Does the subtree stand for the symbol? (no branching on characters)
fn stands_for(g: &Gram, tree: &Tree<String>, id: NodeId, s: S) -> bool {
    let kids = tree.get_children(id);
    match s {
        S::T(t) => {
            if !kids.is_empty() {
                return false;
            }
            let Ok(n) = tree.get_node(id) else { sx::fail(1) };
            same_text(&n.data, &text_of(&g.ts[t]))
        }
        S::N(n) => {
            let mut r = false;
            for a in &g.nt[n] {
                if a.len() != kids.len() {
                    continue;
                }
                let mut m = true;
                for (i, x) in a.iter().enumerate() {
                    m &= stands_for(g, tree, kids[i], *x);
                }
                r |= m;
            }
            r
        }
    }
}
fn leaves(tree: &Tree<String>, id: NodeId, path: &mut Vec<usize>, out: &mut String, n: &mut usize) {
    let Ok(node) = tree.get_node(id) else { sx::fail(2) };
    *n += 1;
    match tree.get_by_path_or_none(ROOT, path.clone().into_iter()) {
        Ok(Some(m)) => sx::check(std::ptr::eq(m, node), 3),
        _ => sx::fail(4),
    }
    let kids = tree.get_children(id);
    if kids.is_empty() {
        out.push_str(&node.data);
    }
    for (i, c) in kids.iter().enumerate() {
        path.push(i);
        leaves(tree, *c, path, out, n);
        path.pop();
    }
    path.push(kids.len());
    match tree.get_by_path_or_none(ROOT, path.clone().into_iter()) {
        Ok(None) => {}
        _ => sx::fail(5),
    }
    path.pop();
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c02(l: u64) {
    let k = case(l);
    let vm = RecVm {};
    let Some(mut p) = parser(&k, &vm, &no_instr) else { return };
    let mut st = RecVm::create_new_state();
    let text = leak(&k.script);
    let Ok(tree) = p.parse(text, &mut st) else { return };
    sx::cover(1);
    let mut out = String::new();
    let mut n = 0;
    leaves(&tree, ROOT, &mut vec![], &mut out, &mut n);
    sx::log(n as u64);
    log_text(&out);
    if n > 4 {
        sx::cover(2);
    }
    sx::check(same_text(&out, text), 6);
    sx::check(stands_for(&k.g, &tree, ROOT, S::N(0)), 7);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c03(l: u64) {
    let k = case(l);
    let vm = RecVm {};
    let mut sp = Spans::new(&k.g, if k.c.fam == 15 { &[] } else { &k.script });
    sx::assume(sp.productive());
    let Some(mut p) = parser(&k, &vm, &no_instr) else { return };
    let mut st = RecVm::create_new_state();
    let text = leak(&k.script);
    let Err(e) = p.parse(text, &mut st) else { return };
    log_err(&e);
    let n = k.script.len();
    if k.c.fam == 15 {
        let Err(at) = predicted(&k) else { sx::fail(8) };
        match e {
            ParserError::UnexpectedCharError { chr, pos, .. } => sx::check((pos == at) & (chr == if at < n { k.script[at] } else { '#' }), 9),
            ParserError::EndOfCharsError { pos } => sx::check((pos == at) & (at == n), 10),
            _ => sx::fail(11),
        }
        sx::cover(1);
        return;
    }
    match e {
        ParserError::UnexpectedCharError { chr, pos, .. } => {
            if pos < n {
                sx::cover(1);
                if pos > 0 {
                    sx::cover(2);
                }
                sx::check(chr == k.script[pos], 1);
                let good = sp.begins(0, 0, pos);
                let more = sp.begins(0, 0, pos + 1);
                sx::check(good & !more, 2);
            } else {
                sx::cover(3);
                sx::check((pos == n) & (chr == '#'), 3);
                let good = sp.begins(0, 0, n);
                sx::check(good, 4);
            }
        }
        ParserError::EndOfCharsError { pos } => {
            sx::cover(4);
            sx::check(pos == n, 5);
            let good = sp.begins(0, 0, n);
            sx::check(good, 6);
        }
        _ => sx::fail(7),
    }
}

/// the instructions of rule i, as characters for the sections of a text
pub fn code(i: usize, j: usize) -> usize {
    if i < 3 { 65 + 8 * i + j } else { 256 + 8 * i + j }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c11(l: u64) {
    let k = case(l);
    let vm = RecVm {};
    // instructions are small letters and the like, to be written into the sections of a text
    let lots = k.c.fam == 15 && k.c.slen > 0 && !k.c.o(O_TEXT);
    let many = |i: usize| if lots && i == 0 { 300 } else { [3, 1, 2, 0, 4][i % 5] };
    let Some(mut p) = parser(&k, &vm, &|i| (0..many(i)).map(|j| code(i, j)).collect()) else { return };
    let mut st = RecVm::create_new_state();
    st.shapes = true;
    let text = leak(&k.script);
    let r = p.parse(text, &mut st);
    let mut rf = Ref { g: &k.g, sets: &k.sets, s: &k.script, pos: 0, done: vec![], keep: true };
    let _ = rf.nt(0, &mut vec![]);
    let done = rf.done;
    // the events are those of the reference, in its order
    let mut at = 0;
    let mut nodes: Vec<NodeId> = vec![];
    for d in &done {
        let mut id = None;
        for j in 0..many(d.nt) {
            if at >= st.ev.len() {
                sx::fail(1);
            }
            let e = &st.ev[at];
            at += 1;
            sx::check(e.ins == code(d.nt, j), 2);
            sx::check(id.is_none() || id == Some(e.node), 3);
            id = Some(e.node);
            sx::check(e.shape.len() == d.shape.len(), 4);
            let mut same = true;
            for (x, y) in e.shape.iter().zip(d.shape.iter()) {
                same &= (x.0 == y.0) & same_text(&x.1, &y.1);
            }
            sx::check(same, 5);
            sx::log(e.ins as u64);
        }
        if let Some(id) = id {
            sx::check(!nodes.contains(&id), 6);
            nodes.push(id);
            if let Ok(tree) = &r {
                match (tree.get_by_path_or_none(ROOT, d.path.clone().into_iter()), tree.get_node(id)) {
                    (Ok(Some(a)), Ok(b)) => sx::check(std::ptr::eq(a, b), 7),
                    _ => sx::fail(8),
                }
            }
        }
    }
    sx::check(at == st.ev.len(), 9);
    if r.is_ok() {
        sx::cover(1);
        if at > 3 {
            sx::cover(2);
        }
    } else if at > 0 {
        sx::cover(3);
    }
}

/// For use by others: read a grammar text.
pub fn read<T: VM>(text: &'static str, vm: &'static T) -> Result<ParserData<T>, ParserError> {
    let pk = Box::leak(Box::new(PeekableWrapper::from_str(text)));
    let mut rp = RuleParser::new(pk, vm);
    rp.parse_rules()?;
    Ok(rp.parser_data)
}

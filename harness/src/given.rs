//! C24: set and table computations on whatever they are given, complete or not.
use crate::gram::*;
use crate::sx;
use henriks_parsing_project::errors::GrammarError;
use henriks_parsing_project::first_sets::{first_set_of_partial, get_first_sets};
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::parser_data::{ElementIndex, ParserData, Production};
use henriks_parsing_project::peekables::PeekableWrapper;
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::sets::{NamedSets, NamedSetsNoEmpty, SetMember, SetMemberWithEmpty};
use henriks_parsing_project::steuer_map::{NTRules, get_steuermaps};
use henriks_parsing_project::steuer_sets::get_steuer_sets;
use henriks_parsing_project::vms::{NullVm, VM};
use std::collections::{HashMap, HashSet};

/// Sets as given: numbers of terminals, or nothing at all.
struct Given {
    f: Vec<Option<u64>>,
    e: Vec<bool>,
    w: Vec<Option<u64>>,
}
/// Some set over the last two terminals and the end of the script.
fn some_set(g: &Gram) -> u64 {
    let n = g.ts.len();
    [0, 1 << (n - 1), 3 << (n - 2), END | 1 << (n - 1)][sx::pick(4)]
}
fn first_sets(g: &Gram, x: &Given, nt: &[ElementIndex]) -> NamedSets {
    let mut m = NamedSets::new();
    for (i, f) in x.f.iter().enumerate() {
        let Some(f) = f else { continue };
        let mut h: HashSet<SetMemberWithEmpty> = HashSet::new();
        for (t, c) in g.ts.iter().enumerate() {
            if f >> t & 1 == 1 {
                h.insert(SetMemberWithEmpty::Char(c[0]));
            }
        }
        if f & END != 0 {
            h.insert(SetMemberWithEmpty::Terminate);
        }
        if x.e[i] {
            h.insert(SetMemberWithEmpty::Empty);
        }
        m.insert(nt[i], h);
    }
    m
}
fn follow_sets(g: &Gram, x: &Given, nt: &[ElementIndex]) -> NamedSetsNoEmpty {
    let mut m = NamedSetsNoEmpty::new();
    for (i, w) in x.w.iter().enumerate() {
        let Some(w) = w else { continue };
        let mut h: HashSet<SetMember> = HashSet::new();
        for (t, c) in g.ts.iter().enumerate() {
            if w >> t & 1 == 1 {
                h.insert(SetMember::Char(c[0]));
            }
        }
        if w & END != 0 {
            h.insert(SetMember::Terminate);
        }
        m.insert(nt[i], h);
    }
    m
}
/// what a sequence can begin with and whether it can be empty, or None if a set that is needed is missing
fn walk(g: &Gram, x: &Given, a: &[S]) -> Option<(u64, bool)> {
    let mut m = 0;
    for s in a {
        match s {
            S::T(t) => {
                if !g.ts[*t].is_empty() {
                    return Some((m | 1 << t, false));
                }
            }
            S::N(n) => {
                m |= x.f[*n]?;
                if !x.e[*n] {
                    return Some((m, false));
                }
            }
        }
    }
    Some((m, true))
}
fn follow(g: &Gram, x: &Given, start: usize) -> Option<Vec<u64>> {
    let mut w = vec![0u64; g.k() + 1];
    w[start] = END;
    loop {
        let mut ch = false;
        for (i, alts) in g.nt.iter().enumerate() {
            for a in alts {
                for (p, s) in a.iter().enumerate() {
                    let S::N(n) = s else { continue };
                    let (m, e) = walk(g, x, &a[p + 1..])?;
                    let m = w[*n] | m | if e { w[i] } else { 0 };
                    ch |= m != w[*n];
                    w[*n] = m;
                }
            }
        }
        if !ch {
            return Some(w);
        }
    }
}
fn split(m: &HashSet<SetMember>) -> (Vec<char>, bool) {
    let mut v = vec![];
    let mut end = false;
    for x in m {
        match x {
            SetMember::Char(c) => v.push(*c),
            SetMember::Terminate => end = true,
        }
    }
    (v, end)
}
fn split_e(m: &HashSet<SetMemberWithEmpty>) -> (Vec<char>, bool, bool) {
    let mut v = vec![];
    let (mut end, mut emp) = (false, false);
    for x in m {
        match x {
            SetMemberWithEmpty::Char(c) => v.push(*c),
            SetMemberWithEmpty::Terminate => end = true,
            SetMemberWithEmpty::Empty => emp = true,
        }
    }
    (v, end, emp)
}
fn ids(b: &Built<NullVm>, a: &[S]) -> Vec<usize> {
    a.iter().map(|x| match x { S::T(t) => b.t[*t], S::N(n) => b.nt[*n] }).collect()
}

/// bits 40..43: 0 = FIRST of sequences, 1 = FOLLOW, 2 = tables, 3 = prediction sets
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c24(l: u64) {
    let c = Cfg::new(l & (1 << 40) - 1);
    let kind = l >> 40 & 15;
    let extra = [schr(c.o(O_UNI)), schr(c.o(O_UNI))];
    let mut g = gen_family(&c);
    let n = g.ts.len();
    let mut b = build::<NullVm>(&g, &c);
    // elements the sets speak of need not be in the grammar
    g.ts.push(vec![extra[0]]);
    g.ts.push(vec![extra[1]]);
    b.t.extend([usize::MAX; 2]);
    for i in 0..=g.k() {
        if b.nt[i] == usize::MAX {
            b.nt[i] = b.pd.get_or_add_non_terminal(name(&c, i));
        }
    }
    let _ = n;
    let mut x = Given { f: vec![], e: vec![], w: vec![] };
    let used = |i: usize| g.nt.iter().flatten().flatten().any(|s| *s == S::N(i));
    for i in 0..=g.k() {
        let there = (kind == 3 || i == g.k() || used(i)) && (i < g.k() || used(i)) && sx::pick(4) > 0;
        x.f.push(if there { Some(some_set(&g)) } else { None });
        x.e.push(there && sx::flag());
        let follows = if kind < 2 || i == g.k() { 0 } else { sx::pick(4) };
        let n = g.ts.len();
        x.w.push([None, Some(END), Some(1 << (n - 1)), Some(END | 3 << (n - 2))][follows]);
    }
    let first = first_sets(&g, &x, &b.nt);
    match kind {
        0 => {
            let mut ok = true;
            for a in g.nt.iter().flatten() {
                for p in 0..a.len() {
                    let Some(r) = sx::catch(|| first_set_of_partial(&ids(&b, &a[p..]), &first, &b.pd)) else { sx::fail(1) };
                    match (r, walk(&g, &x, &a[p..])) {
                        (Ok(m), Some((want, e))) => {
                            let (cs, end, emp) = split_e(&m);
                            sx::check(emp == e, 2);
                            ok &= g.same_set(&cs, end, want);
                            sx::cover(1);
                        }
                        (Ok(_), None) => sx::fail(3),
                        (Err(_), _) => {
                            sx::check((0..=g.k()).any(|i| x.f[i].is_none() && a.contains(&S::N(i))), 4);
                            sx::cover(2);
                        }
                    }
                }
            }
            sx::check(ok, 5);
        }
        1 => {
            let start = sx::pick(g.k() + c.o(O_UNDEF) as usize);
            let Some(r) = sx::catch(|| get_follow_sets(b.nt[start], &first, &b.pd)) else { sx::fail(1) };
            let defined = g.all_defined() && start < g.k();
            match (r, follow(&g, &x, start)) {
                (Ok(m), Some(w)) => {
                    sx::check(defined, 2);
                    sx::check(m.len() == g.k(), 6);
                    let mut ok = true;
                    for i in 0..g.k() {
                        let Some(s) = m.get(&b.nt[i]) else { sx::fail(7) };
                        let (cs, end) = split(s);
                        ok &= g.same_set(&cs, end, w[i]);
                    }
                    sx::check(ok, 5);
                    sx::cover(1);
                }
                (Ok(_), None) => sx::fail(3),
                (Err(_), _) => {
                    sx::check(!defined || (0..g.k()).any(|i| x.f[i].is_none() && used(i)), 4);
                    sx::cover(2);
                }
            }
        }
        2 => {
            let follow = follow_sets(&g, &x, &b.nt);
            // what each alternative is entered under
            let mut missing = false;
            let mut pred: Vec<Vec<u64>> = vec![];
            for (i, alts) in g.nt.iter().enumerate() {
                let mut v = vec![];
                for a in alts {
                    let mut m = 0;
                    match walk(&g, &x, a) {
                        None => missing = true,
                        Some((f, e)) => {
                            m |= f;
                            if e {
                                match x.w[i] {
                                    None => missing = true,
                                    Some(w) => m |= w,
                                }
                            }
                        }
                    }
                    v.push(m);
                }
                pred.push(v);
            }
            let mut clash = false;
            for v in &pred {
                for i in 0..v.len() {
                    for j in 0..i {
                        clash |= g.overlap(v[i], v[j]);
                    }
                }
            }
            let some_missing = x.f.iter().enumerate().any(|(i, f)| f.is_none() && used(i)) || x.w[..g.k()].iter().any(|w| w.is_none());
            let want: Vec<Vec<Vec<usize>>> = g.nt.iter().map(|alts| alts.iter().map(|a| ids(&b, a)).collect()).collect();
            let Built { pd, nt, .. } = b;
            let Some(r) = sx::catch(|| get_steuermaps(&first, &follow, pd)) else { sx::fail(1) };
            let Ok(tab) = r else {
                sx::check(clash | some_missing, 4);
                sx::cover(2);
                return;
            };
            sx::check(!missing, 3);
            sx::check(!clash, 8);
            sx::check(tab.len() == g.k(), 6);
            let mut ok = true;
            for i in 0..g.k() {
                let Some(r) = tab.get(&nt[i]) else { sx::fail(7) };
                ok &= entries(&g, r, &want[i], &pred[i]);
            }
            sx::check(ok, 5);
            sx::cover(1);
        }
        _ => {
            let follow = follow_sets(&g, &x, &b.nt);
            let Some(r) = sx::catch(|| get_steuer_sets(&first, &follow)) else { sx::fail(1) };
            let missing = (0..=g.k()).any(|i| x.e[i] && x.w[i].is_none());
            let Ok(m) = r else {
                sx::check(missing, 4);
                sx::cover(2);
                return;
            };
            sx::check(!missing, 3);
            sx::check(m.len() == x.f.iter().filter(|f| f.is_some()).count(), 6);
            let mut ok = true;
            for i in 0..=g.k() {
                let Some(f) = x.f[i] else { continue };
                let Some(s) = m.get(&b.nt[i]) else { sx::fail(7) };
                let (cs, end) = split(s);
                ok &= g.same_set(&cs, end, f | if x.e[i] { x.w[i].unwrap_or(0) } else { 0 });
            }
            sx::check(ok, 5);
            sx::cover(1);
        }
    }
}
/// The table of one rule is what its alternatives are entered under (alternatives that are alike count as one).
fn entries(g: &Gram, r: &NTRules<NullVm>, want: &[Vec<usize>], pred: &[u64]) -> bool {
    let mut got: Vec<(Vec<char>, bool)> = vec![(vec![], false); want.len()];
    for (k, p) in &r.steuermap {
        let els: &[usize] = match &**p {
            Production::NotEmpty(v) => v,
            Production::Empty => &[],
        };
        let Some(j) = want.iter().position(|w| w == els) else { sx::fail(20) };
        match k {
            SetMember::Char(c) => got[j].0.push(*c),
            SetMember::Terminate => got[j].1 = true,
        }
    }
    let mut ok = true;
    for j in 0..want.len() {
        if want[..j].contains(&want[j]) {
            continue;
        }
        let m = (0..want.len()).filter(|x| want[*x] == want[j]).fold(0, |m, x| m | pred[x]);
        ok &= g.same_set(&got[j].0, got[j].1, m);
    }
    ok
}

type Tables = HashMap<ElementIndex, NTRules<NullVm>>;
/// nibbles: rules; symbols of an alternative; characters of the script; 1 = an ignored production set beforehand instead
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c24b(l: u64) {
    let n = |i: u32| (l >> (4 * i) & 15) as usize;
    let chars = [sx::ascii(), sx::ascii(), sx::ascii()];
    if n(3) == 1 {
        return beforehand(&chars);
    }
    let mut pd = ParserData::<NullVm>::new();
    let a = pd.get_or_add_non_terminal("start");
    let b = pd.get_or_add_non_terminal("b");
    let t = pd.get_or_add_terminal(&text_of(&chars[..1]));
    let e = pd.get_or_add_terminal("");
    let known = [a, b, t, e];
    let all = [a, b, t, e, 4, usize::MAX];
    let mut bad = false;
    let mut terminal = false;
    let mut keys = vec![];
    let mut used = vec![];
    for i in 0..n(0) {
        let key = if i == 0 { a } else { all[sx::pick(5)] };
        keys.push(key);
        terminal |= key == t || key == e;
        bad |= !known.contains(&key);
        let mut v = vec![];
        for _ in 0..sx::pick(n(1) + 1) {
            let x = all[sx::pick(6)];
            bad |= !known.contains(&x);
            used.push(x);
            v.push(x);
        }
        pd.add_production(key, v);
    }
    let start = if bad { a } else { [a, b, 4][sx::pick(3)] };
    bad |= used.iter().any(|x| (*x == a || *x == b) && !keys.contains(x)) || !keys.contains(&start);
    let elements = pd.get_elements_verbose();
    let f = sx::catch(|| get_first_sets(&pd));
    let Some(f) = f else { sx::fail(1) };
    let first_ok = f.is_ok();
    let f = f.unwrap_or_default();
    let Some(w) = sx::catch(|| get_follow_sets(start, &f, &pd)) else { sx::fail(2) };
    let follow_ok = w.is_ok();
    let w = w.unwrap_or_default();
    let Some(_) = sx::catch(|| get_steuer_sets(&f, &w)) else { sx::fail(3) };
    let Some(m): Option<Result<Tables, GrammarError>> = sx::catch(|| get_steuermaps(&f, &w, pd)) else { sx::fail(4) };
    if !(first_ok && follow_ok && m.is_ok()) {
        sx::cover(1);
        return;
    }
    sx::check(!bad, 5);
    if terminal {
        return;
    }
    sx::cover(2);
    // a parser that was not told all of the elements, or not given all of the tables
    let Ok(mut m) = m else { return };
    let mut elements = elements;
    let keep = sx::pick(elements.len() + 2);
    if keep <= elements.len() {
        elements.truncate(keep);
    } else {
        m.remove(&keys[sx::pick(keys.len())]);
    }
    let vm = NullVm::new();
    let mut s = vec![];
    for i in 0..sx::pick(n(2) + 1) {
        s.push(chars[1 + i % 2]);
    }
    let text: &'static str = Box::leak(text_of(&s).into_boxed_str());
    let mut st = NullVm::create_new_state();
    let Some(mut p) = sx::catch(|| Parser::new(m, elements, &vm)) else { sx::fail(6) };
    let Some(r) = sx::catch(|| p.parse(text, &mut st)) else { sx::fail(7) };
    sx::log(r.is_ok() as u64);
    if keep == 0 {
        sx::check(r.is_err(), 8);
    }
    if r.is_ok() {
        sx::cover(3);
    }
}
/// A production to be ignored by all rules that is none.
fn beforehand(c: &[char]) {
    for x in c {
        sx::assume((*x != '"') & (*x != '\\'));
    }
    let vm = NullVm::new();
    let mut s: Vec<char> = "start->\"".chars().collect();
    s.push(c[0]);
    s.extend("\"b\"".chars());
    s.push(c[1]);
    s.extend("\";b->\"".chars());
    s.push(c[2]);
    s.extend("\";".chars());
    let text: &'static str = Box::leak(text_of(&s).into_boxed_str());
    let mut pk = PeekableWrapper::from_str(text);
    let mut rp = RuleParser::new(Box::leak(Box::new(std::mem::replace(&mut pk, PeekableWrapper::from_str("")))), &vm);
    rp.parser_data.parse_rules.ignore = Some([5, 6, 40, usize::MAX][sx::pick(4)]);
    let Some(r) = sx::catch(|| rp.parse_rules().map(|_| ())) else { sx::fail(1) };
    sx::check(r.is_err(), 2);
    sx::cover(1);
}

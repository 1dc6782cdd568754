//! C04, C05, C06, C20: sets and tables of grammars.
use crate::gram::*;
use crate::sx;
use henriks_parsing_project::first_sets::{first_set_of_partial, get_first_sets};
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::parser_data::Production;
use henriks_parsing_project::sets::{SetMember, SetMemberWithEmpty};
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::steuer_sets::get_steuer_sets;
use henriks_parsing_project::vms::NullVm;
use std::collections::HashSet;

fn setup(c: &Cfg) -> (Gram, Sets, Built<NullVm>) {
    let g = gen_family(c);
    if c.o(O_HASH) {
        sx::hash_seed([0, 2][sx::pick(2)]);
    }
    let s = Sets::new(&g);
    let b = build::<NullVm>(&g, c);
    (g, s, b)
}

fn split(m: &HashSet<SetMember>) -> (Vec<char>, bool) {
    let mut v = vec![];
    let mut end = false;
    for x in m {
        match x {
            SetMember::Char(c) => v.push(*c),
            SetMember::Terminate => end = true,
        }
    }
    (v, end)
}
/// characters, end marker, empty marker
fn split_e(m: &HashSet<SetMemberWithEmpty>) -> (Vec<char>, bool, bool) {
    let mut v = vec![];
    let (mut end, mut emp) = (false, false);
    for x in m {
        match x {
            SetMemberWithEmpty::Char(c) => v.push(*c),
            SetMemberWithEmpty::Terminate => end = true,
            SetMemberWithEmpty::Empty => emp = true,
        }
    }
    (v, end, emp)
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c04(l: u64) {
    let c = Cfg::new(l);
    let (g, s, b) = setup(&c);
    sx::assume(s.defined & !s.leftrec);
    let Ok(f) = get_first_sets(&b.pd) else { sx::fail(1) };
    sx::check(f.len() == g.k(), 2);
    let mut ok = true;
    for i in 0..g.k() {
        let Some(m) = f.get(&b.nt[i]) else { sx::fail(3) };
        let (cs, end, emp) = split_e(m);
        sx::check(emp == s.e[i], 4);
        ok &= g.same_set(&cs, end, s.f[i]);
        sx::log(cs.len() as u64);
        sx::cover(1);
        if s.e[i] && s.f[i] != 0 {
            sx::cover(2);
        }
    }
    sx::check(ok, 5);
    // sequences: what is left of every right side at every place
    let mut ok = true;
    for i in 0..g.k() {
        for a in &g.nt[i] {
            for p in 0..=a.len() {
                let ix: Vec<usize> = a[p..].iter().map(|x| match x { S::T(t) => b.t[*t], S::N(n) => b.nt[*n] }).collect();
                let Ok(m) = first_set_of_partial(&ix, &f, &b.pd) else { sx::fail(6) };
                let (cs, end, emp) = split_e(&m);
                if p < a.len() {
                    sx::check(emp == g.seq_nullable(&s.e, &a[p..]), 7);
                }
                ok &= g.same_set(&cs, end, g.seq_first(&s.e, &s.f, &a[p..]));
            }
        }
    }
    sx::check(ok, 8);
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c05(l: u64) {
    let c = Cfg::new(l);
    let (g, s, b) = setup(&c);
    sx::assume(s.defined & !s.leftrec);
    let Ok(f) = get_first_sets(&b.pd) else { sx::fail(1) };
    let st = if c.o(O_START) { sx::pick(g.k()) } else { 0 };
    let w = if st == 0 { s.w.clone() } else { follow_from(&g, &s, st) };
    let Ok(m) = get_follow_sets(b.nt[st], &f, &b.pd) else { sx::fail(2) };
    sx::check(m.len() == g.k(), 3);
    let mut ok = true;
    for i in 0..g.k() {
        let Some(x) = m.get(&b.nt[i]) else { sx::fail(4) };
        let (cs, end) = split(x);
        ok &= g.same_set(&cs, end, w[i]);
        sx::log(cs.len() as u64);
        if i > 0 && w[i] & END != 0 && w[i] != END {
            sx::cover(1);
        }
    }
    sx::check(ok, 5);
}
/// FOLLOW with another start symbol
fn follow_from(g: &Gram, s: &Sets, st: usize) -> Vec<u64> {
    let sw = |x: usize| if x == 0 { st } else if x == st { 0 } else { x };
    let mut h = g.clone();
    for i in 0..g.k() {
        h.nt[sw(i)] = g.nt[i].clone();
    }
    for x in h.nt.iter_mut().flatten().flatten() {
        if let S::N(y) = x {
            *y = sw(*y);
        }
    }
    let e = h.nullable();
    let f = h.first(&e);
    let w = h.follow(&e, &f);
    (0..=g.k()).map(|i| if i < g.k() { w[sw(i)] } else { s.w[i] }).collect()
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c06(l: u64) {
    let c = Cfg::new(l);
    let (g, s, b) = setup(&c);
    let start = b.nt[0];
    let r = tables(b.pd, start);
    sx::log(r.is_ok() as u64);
    if r.is_ok() {
        sx::cover(1);
    } else {
        sx::cover(2);
    }
    if !s.defined {
        sx::cover(3);
        sx::check(r.is_err(), 1);
        return;
    }
    if s.leftrec {
        sx::cover(4);
        sx::check(r.is_err(), 2);
        return;
    }
    let conf = s.conflict(&g);
    if r.is_ok() {
        sx::check(!conf, 3);
    } else {
        sx::check(conf, 4);
    }
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c20(l: u64) {
    let c = Cfg::new(l);
    let (g, s, mut b) = setup(&c);
    sx::assume(s.defined & !s.leftrec);
    for i in 0..g.k() {
        b.pd.add_instructions(b.nt[i], vec![100 + i, 7, i]);
    }
    let Ok(f) = get_first_sets(&b.pd) else { return };
    let Ok(w) = get_follow_sets(b.nt[0], &f, &b.pd) else { return };
    let Ok(st) = get_steuer_sets(&f, &w) else { sx::fail(1) };
    sx::check(st.len() == g.k(), 2);
    let mut ok = true;
    for i in 0..g.k() {
        let Some(m) = st.get(&b.nt[i]) else { sx::fail(3) };
        let (cs, end) = split(m);
        ok &= g.same_set(&cs, end, s.f[i] | if s.e[i] { s.w[i] } else { 0 });
    }
    sx::check(ok, 4);
    let Ok(tab) = get_steuermaps(&f, &w, b.pd) else { return };
    sx::cover(1);
    sx::check(tab.len() == g.k(), 5);
    let mut ok = true;
    for i in 0..g.k() {
        let Some(r) = tab.get(&b.nt[i]) else { sx::fail(6) };
        sx::check(r.instruction == vec![100 + i, 7, i], 7);
        let want: Vec<Vec<usize>> = g.nt[i].iter().map(|a| a.iter().map(|x| match x { S::T(t) => b.t[*t], S::N(n) => b.nt[*n] }).collect()).collect();
        let mut got: Vec<(Vec<char>, bool)> = vec![(vec![], false); want.len()];
        for (k, p) in &r.steuermap {
            let els: &[usize] = match &**p {
                Production::NotEmpty(v) => v,
                Production::Empty => &[],
            };
            let Some(j) = want.iter().position(|w| w == els) else { sx::fail(8) };
            match k {
                SetMember::Char(c) => got[j].0.push(*c),
                SetMember::Terminate => got[j].1 = true,
            }
        }
        for j in 0..want.len() {
            let first = want.iter().position(|w| *w == want[j]).unwrap();
            let mut m = 0;
            for (x, a) in g.nt[i].iter().enumerate() {
                if want[x] == want[j] {
                    m |= s.predict(&g, i, a);
                }
            }
            ok &= g.same_set(&got[first].0, got[first].1, m);
            sx::log(got[first].0.len() as u64);
            if m & END != 0 && m != END {
                sx::cover(2);
            }
        }
    }
    sx::check(ok, 9);
}

//! C15, C16, C21, and the data structure part of C19: histories of operations against a plain model.
use crate::gram::same_text;
use crate::sx;
use henriks_parsing_project::errors::GrammarError;
use henriks_parsing_project::named_graph::GraphNamedNodes;
use henriks_parsing_project::parser_data::{ElementType, ElementVerbose, ParserData, Production};
use henriks_parsing_project::simple_graph::Graph;
use henriks_parsing_project::tree::{Node, NodeId, Tree, TreeError};
use henriks_parsing_project::vms::NullVm;

fn nib(l: u64, i: u32) -> usize {
    (l >> (4 * i) & 15) as usize
}

// ---------------------------------------------------------------- C15

struct M {
    id: NodeId,
    parent: Option<usize>,
    kids: Vec<usize>,
    live: bool,
    data: u64,
}
fn kill(m: &mut Vec<M>, i: usize) {
    m[i].live = false;
    for k in m[i].kids.clone() {
        kill(m, k);
    }
}
fn below(m: &[M], i: usize, out: &mut Vec<NodeId>) {
    for &k in &m[i].kids {
        out.push(m[k].id);
        below(m, k, out);
    }
}
fn at<'a>(t: &'a Tree<u64>, id: NodeId, path: &[usize]) -> Result<Option<&'a Node<u64>>, TreeError> {
    t.get_by_path_or_none(id, path.to_vec().into_iter())
}
fn paths(t: &Tree<u64>, m: &[M], top: usize, i: usize, path: &mut Vec<usize>) {
    match at(t, m[top].id, path) {
        Ok(Some(n)) => sx::check(n.data == m[i].data, 20),
        _ => sx::fail(21),
    }
    for (p, &k) in m[i].kids.iter().enumerate() {
        path.push(p);
        paths(t, m, top, k, path);
        path.pop();
    }
    for over in [m[i].kids.len(), m[i].kids.len() + 3] {
        path.push(over);
        sx::check(matches!(at(t, m[top].id, path), Ok(None)), 22);
        path.pop();
    }
}
fn same_tree(t: &Tree<u64>, m: &[M]) {
    for (i, x) in m.iter().enumerate() {
        let r = t.get_node(x.id);
        sx::check(t.node_exists(x.id) == x.live, 1);
        if !x.live {
            sx::check(r.is_err(), 2);
            sx::check(t.get_children(x.id).is_empty(), 3);
            sx::check(t.get_descendants(x.id).is_empty(), 4);
            sx::check(at(t, x.id, &[]).is_err(), 5);
            sx::check(at(t, x.id, &[0]).is_err(), 5);
            continue;
        }
        let Ok(n) = r else { sx::fail(6) };
        sx::check(n.data == x.data, 7);
        let kids = t.get_children(x.id);
        sx::check(kids.len() == x.kids.len(), 8);
        for (a, b) in kids.iter().zip(&x.kids) {
            sx::check(*a == m[*b].id, 9);
        }
        for (p, b) in x.kids.iter().enumerate() {
            match (t.get_nth_child(n, p), t.get_nth_child_or_none(n, p)) {
                (Ok(a), Some(c)) => sx::check((a.data == m[*b].data) & std::ptr::eq(a, c), 10),
                _ => sx::fail(11),
            }
        }
        sx::check(t.get_nth_child(n, x.kids.len()).is_err(), 12);
        sx::check(t.get_nth_child_or_none(n, x.kids.len()).is_none(), 13);
        let mut want = vec![];
        below(m, i, &mut want);
        let got = t.get_descendants(x.id);
        sx::check(got.len() == want.len(), 14);
        for w in &want {
            sx::check(got.iter().filter(|g| *g == w).count() == 1, 15);
        }
        paths(t, m, i, i, &mut vec![]);
    }
}
fn added(t: &mut Tree<u64>, m: &mut Vec<M>, parent: Option<usize>, data: u64) {
    let Some(Ok(id)) = sx::catch(|| t.add_node(data, parent.map(|p| m[p].id))) else { sx::fail(50) };
    let k = m.len();
    if let Some(p) = parent {
        m[p].kids.push(k);
    }
    m.push(M { id, parent, kids: vec![], live: true, data });
}
fn removed(t: &mut Tree<u64>, m: &mut Vec<M>, i: usize) {
    let Some(Ok(())) = sx::catch(|| t.remove_branch(m[i].id)) else { sx::fail(51) };
    if let Some(p) = m[i].parent {
        m[p].kids.retain(|x| *x != i);
    }
    kill(m, i);
}
/// As same_tree, with only some paths.
fn same_big_tree(t: &Tree<u64>, m: &[M]) {
    for (i, x) in m.iter().enumerate() {
        sx::check(t.node_exists(x.id) == x.live, 1);
        let r = t.get_node(x.id);
        if !x.live {
            sx::check(r.is_err() && t.get_children(x.id).is_empty(), 2);
            continue;
        }
        let Ok(n) = r else { sx::fail(6) };
        sx::check(n.data == x.data, 7);
        let kids = t.get_children(x.id);
        sx::check(kids.len() == x.kids.len(), 8);
        for (p, (a, b)) in kids.iter().zip(&x.kids).enumerate() {
            sx::check(*a == m[*b].id, 9);
            if p < 2 || p + 2 >= x.kids.len() {
                match (t.get_nth_child(n, p), at(t, x.id, &[p])) {
                    (Ok(c), Ok(Some(d))) => sx::check((c.data == m[*b].data) & std::ptr::eq(c, d), 10),
                    _ => sx::fail(11),
                }
            }
        }
        sx::check(t.get_nth_child_or_none(n, x.kids.len()).is_none(), 13);
        if i < 3 || i + 3 > m.len() {
            let mut want = vec![];
            below(m, i, &mut want);
            let got = t.get_descendants(x.id);
            sx::check(got.len() == want.len(), 14);
            for w in &want {
                sx::check(got.iter().filter(|g| *g == w).count() == 1, 15);
            }
        }
    }
    for (i, x) in m.iter().enumerate() {
        for y in &m[..i] {
            sx::check(x.id != y.id, 33);
        }
    }
}
/// A history of n additions, or of n additions and removals at one place, judged in passing.
fn endless_c15(n: usize) {
    let mut t: Tree<u64> = Tree::new();
    let (d, far) = (sx::sym(64), [1, n / 2, n - 1][sx::pick(3)]);
    let Ok(root) = t.add_node(d, None) else { sx::fail(60) };
    let Ok(first) = t.add_node(d, Some(root)) else { sx::fail(60) };
    let gone = sx::flag();
    if gone && t.remove_branch(first).is_err() {
        sx::fail(61);
    }
    let mut some = (first, d, !gone);
    let mut last = first;
    for i in 1..=n {
        let Ok(id) = t.add_node(d ^ i as u64, Some(root)) else { sx::fail(60) };
        if id == first || id == last || id == root || id == some.0 {
            sx::fail(62);
        }
        last = id;
        if i == far {
            some = (id, d ^ i as u64, !gone);
        }
        if gone && t.remove_branch(id).is_err() {
            sx::fail(61);
        }
    }
    let Ok(end) = t.add_node(7, Some(root)) else { sx::fail(60) };
    for (id, data, live) in [(root, d, true), (first, d, !gone), some, (last, d ^ n as u64, !gone), (end, 7, true)] {
        match t.get_node(id) {
            Ok(x) => sx::check(live & (x.data == data), 63),
            Err(_) => sx::check(!live, 64),
        }
        sx::check(t.node_exists(id) == live, 65);
    }
    let kids = t.get_children(root);
    sx::check(kids.len() == if gone { 1 } else { n + 2 }, 66);
    sx::check(kids.last() == Some(&end), 67);
    if !gone {
        sx::check((kids[0] == first) & (kids[far] == some.0) & (kids[n] == last), 68);
        match at(&t, root, &[far]) {
            Ok(Some(x)) => sx::check(x.data == some.1, 69),
            _ => sx::fail(70),
        }
    }
}
/// A long history of a given form, then a few operations on any of some nodes.
fn big_c15(form: usize, ops: usize) {
    let mut t: Tree<u64> = Tree::new();
    let mut m: Vec<M> = vec![];
    match form {
        // many children
        1 => {
            added(&mut t, &mut m, None, 1);
            for i in 0..280 {
                added(&mut t, &mut m, Some(0), i);
            }
        }
        // the same place again and again
        2 => {
            added(&mut t, &mut m, None, 1);
            for i in 0..280 {
                added(&mut t, &mut m, Some(0), i);
                removed(&mut t, &mut m, i as usize + 1);
            }
            added(&mut t, &mut m, Some(0), 5);
        }
        // deep
        3 => {
            for i in 0..150 {
                added(&mut t, &mut m, if i == 0 { None } else { Some(i - 1) }, i as u64);
            }
        }
        // all kinds of things
        4 => {
            let mut r = 12345u64;
            for i in 0..220 {
                r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let live: Vec<usize> = (0..m.len()).filter(|i| m[*i].live).collect();
                let x = (r >> 33) as usize;
                if live.is_empty() || x % 16 == 0 {
                    added(&mut t, &mut m, None, i);
                } else if x % 4 == 1 {
                    removed(&mut t, &mut m, live[(x >> 5) % live.len()]);
                } else {
                    added(&mut t, &mut m, Some(live[(x >> 5) % live.len()]), i);
                }
            }
        }
        // a branch of many is removed and its places are used again
        _ => {
            added(&mut t, &mut m, None, 1);
            added(&mut t, &mut m, Some(0), 2);
            for i in 0..140 {
                let p = if i % 3 == 0 { 1 } else { m.len() - 1 };
                added(&mut t, &mut m, Some(p), i);
            }
            removed(&mut t, &mut m, 1);
            for i in 0..150 {
                let p = if i % 2 == 0 { 0 } else { m.len() - 1 };
                added(&mut t, &mut m, Some(p), i);
            }
        }
    }
    for _ in 0..ops {
        let k = m.len();
        let i = [0, 1, 2, k / 2, k - 2, k - 1][sx::pick(6)];
        let data = sx::sym(64);
        match sx::pick(3) {
            0 => {
                if m[i].live {
                    added(&mut t, &mut m, Some(i), data);
                } else {
                    let Some(r) = sx::catch(|| t.add_node(data, Some(m[i].id))) else { sx::fail(31) };
                    sx::check(r.is_err(), 32);
                    sx::cover(2);
                }
            }
            1 => {
                if m[i].live {
                    removed(&mut t, &mut m, i);
                    sx::cover(3);
                } else {
                    let Some(r) = sx::catch(|| t.remove_branch(m[i].id)) else { sx::fail(34) };
                    sx::check(r.is_err(), 35);
                }
            }
            _ => added(&mut t, &mut m, None, data),
        }
    }
    same_big_tree(&t, &m);
}
/// nibbles: number of operations; 1 = with ids that were never given out, 2 = change data through get_node_mut; form of a long history beforehand
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c15(l: u64) {
    sx::doubled(l);
    let ops = nib(l, 0);
    if nib(l, 2) == 6 {
        return endless_c15(sx::long(260));
    }
    if nib(l, 2) > 0 {
        return big_c15(nib(l, 2), ops);
    }
    let forged = nib(l, 1) & 1 == 1;
    let mutate = nib(l, 1) & 2 == 2;
    let mut t: Tree<u64> = Tree::new();
    let mut m: Vec<M> = vec![];
    if forged {
        sx::check(!t.node_exists(NodeId { node_ptr: 0, node_pk: 0 }), 30);
    }
    for _ in 0..ops {
        let k = m.len();
        let c = sx::pick(2 * k + 1 + forged as usize + mutate as usize * (k > 0) as usize);
        if c <= k {
            // add below node c-1, or a root
            let data = sx::sym(64);
            let parent = if c == 0 { None } else { Some(c - 1) };
            let r = sx::catch(|| t.add_node(data, parent.map(|p| m[p].id)));
            let Some(r) = r else { sx::fail(31) };
            let ok = parent.is_none_or(|p| m[p].live);
            sx::check(r.is_ok() == ok, 32);
            if let Ok(id) = r {
                for x in &m {
                    sx::check(x.id != id, 33);
                }
                if let Some(p) = parent {
                    m[p].kids.push(k);
                }
                m.push(M { id, parent, kids: vec![], live: true, data });
                sx::log(id.node_ptr as u64);
                sx::log(id.node_pk as u64);
                if id.node_ptr < k {
                    sx::cover(1);
                }
            } else {
                sx::cover(2);
            }
        } else if c <= 2 * k {
            let i = c - k - 1;
            let r = sx::catch(|| t.remove_branch(m[i].id));
            let Some(r) = r else { sx::fail(34) };
            sx::check(r.is_ok() == m[i].live, 35);
            sx::log(r.is_ok() as u64);
            if r.is_ok() {
                if let Some(p) = m[i].parent {
                    m[p].kids.retain(|x| *x != i);
                }
                if m[i].kids.len() > 1 {
                    sx::cover(3);
                }
                kill(&mut m, i);
            } else {
                sx::cover(4);
            }
        } else if forged && c == 2 * k + 1 {
            // an id that was never given out
            let ptr = sx::pick(k + 2);
            let pk = sx::sym(64);
            let id = NodeId { node_ptr: if ptr == k + 1 { usize::MAX } else { ptr }, node_pk: pk as usize };
            for x in &m {
                sx::assume(x.id != id);
            }
            let r = sx::catch(|| {
                (t.get_node(id).is_err(), t.get_node_mut(id).is_err(), t.node_exists(id), t.get_children(id).len() + t.get_descendants(id).len(), t.add_node(7, Some(id)).is_err(), t.remove_branch(id).is_err())
            });
            let Some(r) = r else { sx::fail(36) };
            sx::check(r.0 & r.1 & !r.2 & (r.3 == 0) & r.4 & r.5, 37);
            sx::cover(5);
        } else {
            let i = sx::pick(k);
            let v = sx::sym(64);
            let live = m[i].live;
            match t.get_node_mut(m[i].id) {
                Ok(n) => {
                    sx::check(live, 38);
                    n.data = v;
                    m[i].data = v;
                }
                Err(_) => sx::check(!live, 39),
            }
        }
        same_tree(&t, &m);
    }
}

// ---------------------------------------------------------------- C16

#[derive(Clone)]
struct GM {
    data: Vec<u64>,
    out: Vec<Vec<(usize, usize)>>, // per node: (id, target), falling ids
}
impl GM {
    fn new() -> GM {
        GM { data: vec![], out: vec![] }
    }
    fn next(&self, s: usize) -> usize {
        match self.out[s].first() {
            None => 0,
            Some(x) => x.0 + 1,
        }
    }
    fn find(&self, s: usize, id: usize) -> Option<usize> {
        self.out[s].iter().find(|x| x.0 == id).map(|x| x.1)
    }
}
const TOP: usize = 1 << 62;
fn same_graph(g: &Graph<u64>, m: &GM) {
    sx::check(g.nodes.len() == m.data.len(), 1);
    let mut n = 0;
    for s in 0..m.data.len() {
        sx::check(g.nodes[s].data == m.data[s], 2);
        let es: Vec<usize> = g.connected_edges(s).collect();
        let ts: Vec<usize> = g.successors(s).collect();
        sx::check((es.len() == m.out[s].len()) & (ts.len() == es.len()), 3);
        let mut ok = true;
        let mut prev = None;
        for (i, e) in es.iter().enumerate() {
            let e = &g.edges[*e];
            ok &= (e.id == m.out[s][i].0) & (e.target == m.out[s][i].1) & (ts[i] == e.target);
            if let Some(p) = prev {
                ok &= e.id < p;
            }
            prev = Some(e.id);
        }
        sx::check(ok, 4);
        n += es.len();
    }
    sx::check(g.edges.len() == n, 5);
}
fn build_graph(g: &mut Graph<u64>, m: &mut GM, ops: usize, maxn: usize, bits: u32) {
    for _ in 0..ops {
        let k = m.data.len();
        let c = sx::pick(if k == 0 { 1 } else { 3 });
        match c {
            0 => {
                sx::assume(k < maxn);
                let d = sx::sym(64);
                let i = g.add_node(d);
                sx::check(i == k, 10);
                m.data.push(d);
                m.out.push(vec![]);
            }
            1 => {
                let (s, t) = (sx::pick(k), sx::pick(k));
                if sx::catch(|| g.add_edge(s, t)).is_none() {
                    sx::fail(11);
                }
                let id = m.next(s);
                m.out[s].insert(0, (id, t));
                sx::cover(1);
            }
            _ => {
                let (s, t) = (sx::pick(k), sx::pick(k));
                let id = sx::sym(bits) as usize;
                sx::assume(id < TOP);
                let Some(r) = sx::catch(|| g.try_add_edge_with_id(s, t, id)) else { sx::fail(12) };
                let used = m.out[s].iter().any(|x| x.0 == id);
                sx::check(r == !used, 13);
                if used {
                    sx::cover(2);
                } else {
                    let p = m.out[s].iter().position(|x| x.0 < id).unwrap_or(m.out[s].len());
                    if p > 0 {
                        sx::cover(3);
                    }
                    m.out[s].insert(p, (id, t));
                }
            }
        }
    }
}
fn lookups(g: &Graph<u64>, m: &GM, bits: u32) {
    let s = sx::pick(m.data.len());
    let (a, b) = (sx::sym(bits) as usize, sx::sym(bits) as usize);
    let Some(r) = sx::catch(|| (g.find_node_index(s, a), g.find_node(s, a).map(|n| n.data))) else { sx::fail(20) };
    let w = m.find(s, a);
    sx::check(r.0 == w, 21);
    sx::check(r.1 == w.map(|t| m.data[t]), 22);
    if w.is_some() {
        sx::cover(4);
    }
    let Some(r) = sx::catch(|| {
        (g.find_node_index_by_path(s, vec![a, b].into_iter()), g.find_node_by_path(s, vec![a, b].into_iter()).map(|n| n.data), g.find_node_index_by_path(s, vec![].into_iter()), g.find_node_by_path(s, vec![a].into_iter()).map(|n| n.data))
    }) else {
        sx::fail(23)
    };
    let w2 = w.and_then(|t| m.find(t, b));
    sx::check(r.0 == w2, 24);
    sx::check(r.1 == w2.map(|t| m.data[t]), 25);
    sx::check(r.2 == Some(s), 26);
    sx::check(r.3 == w.map(|t| m.data[t]), 27);
    if w2.is_some() {
        sx::cover(5);
    }
}
/// A big graph of a given form, and what it should be.
fn big_graph(form: usize, g: &mut Graph<u64>, m: &mut GM) {
    let node = |g: &mut Graph<u64>, m: &mut GM| {
        let i = g.add_node(m.data.len() as u64);
        sx::check(i == m.data.len(), 10);
        m.data.push(i as u64);
        m.out.push(vec![]);
    };
    let edge = |g: &mut Graph<u64>, m: &mut GM, s: usize, t: usize| {
        if sx::catch(|| g.add_edge(s, t)).is_none() {
            sx::fail(11);
        }
        let id = m.next(s);
        m.out[s].insert(0, (id, t));
    };
    let own = |g: &mut Graph<u64>, m: &mut GM, s: usize, t: usize, id: usize| {
        let Some(r) = sx::catch(|| g.try_add_edge_with_id(s, t, id)) else { sx::fail(12) };
        let used = m.find(s, id).is_some();
        sx::check(r == !used, 13);
        if !used {
            let p = m.out[s].iter().position(|x| x.0 < id).unwrap_or(m.out[s].len());
            m.out[s].insert(p, (id, t));
        }
    };
    for _ in 0..100 {
        node(g, m);
    }
    match form {
        // many edges of one node
        1 => {
            for i in 0..270 {
                edge(g, m, 0, (i * 7) % 100);
                if i % 9 == 0 {
                    edge(g, m, (i * 7) % 100, 0);
                }
            }
        }
        // many ids that were chosen, in no order
        2 => {
            for i in 0..130 {
                own(g, m, 0, i % 100, (i * 37) % 131 * 3);
                if i % 10 == 0 {
                    edge(g, m, 0, i % 100);
                }
            }
        }
        // a long path
        _ => {
            for i in 0..100 {
                edge(g, m, i, (i + 5) % 100);
                edge(g, m, i, (i + 1) % 100);
                own(g, m, i, (i + 3) % 100, 1000 + i);
            }
        }
    }
}
/// n edges of one node and n further nodes, judged in passing.
fn endless_c16(n: usize, bits: u32) {
    let mut g: Graph<u64> = Graph::new();
    let base = [0, 5, 1 << 32, TOP - n - 1][sx::pick(4)];
    for i in 0..n {
        sx::check(g.add_node(i as u64) == i, 40);
    }
    let own = sx::flag();
    if own {
        sx::check(g.try_add_edge_with_id(1, 2, base), 41);
    } else {
        g.add_edge(1, 2);
    }
    let low = if own { base } else { 0 };
    for i in 1..n {
        g.add_edge(1, i);
    }
    for i in [1, n / 2, n - 1] {
        sx::check(g.find_node_index(1, low + i) == Some(i), 42);
    }
    sx::check(g.find_node_index(1, low) == Some(2), 43);
    // (with very many edges: one beyond them)
    let any = if n < 5000 { sx::sym(bits) as usize } else { low + n };
    sx::assume((any < low) | (any >= low + n));
    sx::check(g.find_node_index(1, any).is_none(), 48);
    sx::check(g.find_node_index(1, low + n).is_none() && !g.try_add_edge_with_id(1, 0, low + n / 2), 44);
    let mut at = n;
    for e in g.connected_edges(1) {
        at -= 1;
        let e = &g.edges[e];
        sx::check((e.id == low + at) & (e.target == if at == 0 { 2 } else { at }), 45);
    }
    sx::check(at == 0, 46);
    sx::check(g.nodes.len() == n && g.successors(1).count() == n, 47);
}
fn big_c16(form: usize, ops: usize, bits: u32) {
    let mut g = Graph::new();
    let mut m = GM::new();
    big_graph(form, &mut g, &mut m);
    let mut last = None;
    for _ in 0..ops {
        let (s, t) = ([0, 7, 99][sx::pick(3)], 50);
        if sx::flag() {
            if sx::catch(|| g.add_edge(s, t)).is_none() {
                sx::fail(11);
            }
            let id = m.next(s);
            m.out[s].insert(0, (id, t));
        } else {
            let id = sx::sym(bits) as usize;
            sx::assume(id < TOP);
            last = Some(id);
            let Some(r) = sx::catch(|| g.try_add_edge_with_id(s, t, id)) else { sx::fail(12) };
            let used = m.out[s].iter().any(|x| x.0 == id);
            sx::check(r == !used, 13);
            if !used {
                let p = m.out[s].iter().position(|x| x.0 < id).unwrap_or(m.out[s].len());
                m.out[s].insert(p, (id, t));
                sx::cover(3);
            }
        }
    }
    if form == 3 {
        // another big one, grafted
        let mut h = Graph::new();
        let mut n = GM::new();
        big_graph(2, &mut h, &mut n);
        let (this, other) = ([0, 42, 99][sx::pick(3)], [0, 1, 99][sx::pick(3)]);
        if sx::catch(|| g.add_graph_at_node(h, this, other)).is_none() {
            sx::fail(30);
        }
        let off = m.data.len();
        m.data.extend(&n.data);
        for o in &n.out {
            m.out.push(o.iter().map(|x| (x.0, x.1 + off)).collect());
        }
        let id = m.next(this);
        m.out[this].insert(0, (id, other + off));
    }
    same_graph(&g, &m);
    // lookups by any id (or the one chosen last), and along a path that always takes the second edge
    let s = [0, 7, 99][sx::pick(3)];
    let a = if ops > 0 { last.unwrap_or(1) } else { sx::sym(bits) as usize };
    let Some(r) = sx::catch(|| (g.find_node_index(s, a), g.find_node(s, a).map(|n| n.data))) else { sx::fail(20) };
    let w = m.find(s, a);
    sx::check(r.0 == w, 21);
    sx::check(r.1 == w.map(|t| m.data[t]), 22);
    let mut path = vec![];
    let mut at = 0;
    while path.len() < 150 && !m.out[at].is_empty() {
        let o = &m.out[at];
        let e = o[(o.len() > 1) as usize];
        path.push(e.0);
        at = e.1;
    }
    let Some(r) = sx::catch(|| (g.find_node_index_by_path(0, path.clone().into_iter()), g.find_node_by_path(0, path.clone().into_iter()).map(|n| n.data))) else { sx::fail(23) };
    sx::check(r.0 == Some(at), 24);
    sx::check(r.1 == Some(m.data[at]), 25);
    let k = path.len();
    path.push(if ops > 0 { a } else { sx::sym(bits) as usize });
    let Some(r) = sx::catch(|| g.find_node_index_by_path(0, path.clone().into_iter())) else { sx::fail(26) };
    sx::check(r == m.find(at, path[k]), 27);
}
/// nibbles: operations, nodes; operations and nodes of the grafted graph; operations after grafting; 1 = default(); bits of an id in fours, 0 = 64; form of a big graph instead
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c16(l: u64) {
    sx::doubled(l);
    let bits = if nib(l, 6) == 0 { 64 } else { 4 * nib(l, 6) as u32 };
    if nib(l, 7) == 4 {
        return endless_c16(sx::long(260), bits);
    }
    if nib(l, 7) > 0 {
        return big_c16(nib(l, 7), nib(l, 0), bits);
    }
    let mut g = if nib(l, 5) == 1 { Graph::default() } else { Graph::new() };
    let mut m = GM::new();
    build_graph(&mut g, &mut m, nib(l, 0), nib(l, 1), bits);
    if nib(l, 2) > 0 {
        let mut h = Graph::new();
        let mut n = GM::new();
        build_graph(&mut h, &mut n, nib(l, 2), nib(l, 3), bits);
        sx::assume(!m.data.is_empty());
        let (this, other) = (sx::pick(m.data.len()), sx::pick(n.data.len()));
        if sx::catch(|| g.add_graph_at_node(h, this, other)).is_none() {
            sx::fail(30);
        }
        let off = m.data.len();
        m.data.extend(&n.data);
        for o in &n.out {
            m.out.push(o.iter().map(|x| (x.0, x.1 + off)).collect());
        }
        let id = m.next(this);
        m.out[this].insert(0, (id, other + off));
        same_graph(&g, &m);
        sx::cover(6);
        build_graph(&mut g, &mut m, nib(l, 4), nib(l, 1) + nib(l, 3), bits);
    }
    same_graph(&g, &m);
    for x in &m.out {
        for y in x {
            sx::log(y.0 as u64);
            sx::log(y.1 as u64);
        }
    }
    lookups(&g, &m, bits);
}

// ---------------------------------------------------------------- C21

struct NM {
    name: usize,
    data: u64,
    succ: Vec<usize>, // positions, newest first
}
fn at_name(m: &[NM], n: usize) -> Option<usize> {
    m.iter().position(|x| x.name == n)
}
fn unknown<T>(r: &Result<T, GrammarError>) -> bool {
    matches!(r, Err(GrammarError::GraphNodeDoesNotExistsError { .. }))
}
/// nibbles: operations, names; 1 = default(); 1 = many nodes and edges beforehand
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c21(l: u64) {
    let ops = nib(l, 0);
    let mut pool = vec![];
    for _ in 0..nib(l, 1) {
        pool.push(sx::sym(64) as usize);
    }
    let mut g: GraphNamedNodes<u64> = if nib(l, 2) == 1 { GraphNamedNodes::default() } else { GraphNamedNodes::new() };
    let mut m: Vec<NM> = vec![];
    if nib(l, 3) == 1 {
        let name = |i: usize| i.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> (i % 3 * 20);
        for i in 0..100 {
            sx::check(g.add_node(name(i), i as u64).is_ok(), 30);
            m.push(NM { name: name(i), data: i as u64, succ: vec![] });
        }
        for i in 0..300 {
            let (a, b) = ((i * i) % 100, (i * 7) % 100);
            sx::check(g.add_edge(name(a), name(b)).is_ok(), 31);
            m[a].succ.insert(0, b);
        }
        pool.extend([name(0), name(57), name(99)]);
    }
    for _ in 0..ops {
        match sx::pick(4) {
            0 => {
                let n = pool[sx::pick(pool.len())];
                let d = sx::sym(64);
                let Some(r) = sx::catch(|| g.add_node(n, d)) else { sx::fail(1) };
                let old = at_name(&m, n).is_some();
                match r {
                    Ok(i) => {
                        sx::check(!old, 2);
                        sx::check(i == m.len(), 3);
                        m.push(NM { name: n, data: d, succ: vec![] });
                    }
                    Err(GrammarError::GraphNodeAlreadyExistsError { node_name }) => {
                        sx::check(old & (node_name == n), 4);
                        sx::cover(1);
                    }
                    Err(_) => sx::fail(5),
                }
            }
            1 => {
                let (a, b) = (pool[sx::pick(pool.len())], pool[sx::pick(pool.len())]);
                let Some(r) = sx::catch(|| g.add_edge(a, b)) else { sx::fail(6) };
                match (at_name(&m, a), at_name(&m, b)) {
                    (Some(x), Some(y)) => {
                        sx::check(r.is_ok(), 7);
                        m[x].succ.insert(0, y);
                        sx::cover(2);
                    }
                    _ => {
                        sx::check(unknown(&r), 8);
                        sx::cover(3);
                    }
                }
            }
            2 => {
                let n = pool[sx::pick(pool.len())];
                let d = sx::sym(64);
                let Some(r) = sx::catch(|| g.get_node_mut(n).map(|x| x.data = d)) else { sx::fail(9) };
                match at_name(&m, n) {
                    Some(x) => {
                        sx::check(r.is_ok(), 10);
                        m[x].data = d;
                    }
                    None => sx::check(unknown(&r), 11),
                }
            }
            _ => {
                let p = sx::sym(64) as usize;
                let d = sx::sym(64);
                let Some(r) = sx::catch(|| (g.get_node_by_index(p).map(|x| x.data).ok(), g.get_node_mut_by_index(p).map(|x| x.data = d).is_ok())) else { sx::fail(12) };
                if p < m.len() {
                    sx::check(r.0 == Some(m[p].data) && r.1, 13);
                    m[p].data = d;
                    sx::cover(4);
                } else {
                    sx::check(r.0.is_none() && !r.1, 14);
                    sx::cover(5);
                }
            }
        }
    }
    sx::check(g.names.len() == m.len(), 19);
    for n in &pool {
        let w = at_name(&m, *n);
        let Some(()) = sx::catch(|| match (w, g.get_node(*n), g.successors(*n), g.successor_indices(*n)) {
            (Some(i), Ok(x), Ok(s), Ok(t)) => {
                sx::check(x.data == m[i].data, 20);
                let s: Vec<_> = s.collect();
                let t: Vec<_> = t.collect();
                sx::check((s.len() == m[i].succ.len()) & (t == m[i].succ), 21);
                for (k, (p, x)) in s.iter().enumerate() {
                    sx::check((*p == m[i].succ[k]) & (x.data == m[m[i].succ[k]].data), 22);
                    sx::log(*p as u64);
                }
                if s.len() > 1 {
                    sx::cover(6);
                }
            }
            (None, a, b, c) => sx::check(unknown(&a) & unknown(&b) & unknown(&c), 23),
            _ => sx::fail(24),
        }) else {
            sx::fail(25)
        };
    }
    for i in 0..m.len() + 2 {
        let Some(r) = sx::catch(|| g.get_node_by_index(i).map(|x| x.data).ok()) else { sx::fail(26) };
        sx::check(r == m.get(i).map(|x| x.data), 27);
    }
}

// ---------------------------------------------------------------- C19: elements and the builder

fn letters(n: usize) -> String {
    let k = 1 + sx::pick(n);
    let mut s = String::new();
    for _ in 0..k {
        s.push(sx::ascii());
    }
    s
}
/// nibbles: requests, name length; 1 = many elements beforehand
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c19a(l: u64) {
    let n = nib(l, 0);
    let mut pd = ParserData::<NullVm>::new();
    let mut m: Vec<(String, bool)> = vec![];
    if nib(l, 2) == 1 {
        // many beforehand
        for i in 0..150 {
            let s = [String::from("q"), String::from("a\u{1F600}"), String::from("")][i % 3].clone() + &i.to_string();
            let t = i % 5 > 1;
            sx::check(if t { pd.get_or_add_terminal(&s) } else { pd.get_or_add_non_terminal(&s) } == i, 20);
            m.push((s, t));
        }
    }
    let same = |a: &(String, bool), s: &str, t: bool| a.1 == t && sx::decide(same_text(&a.0, s));
    for _ in 0..n {
        let s = letters(nib(l, 1));
        let t = sx::flag();
        let want = m.iter().position(|x| same(x, &s, t));
        let q = if t { pd.get_element_t_index(&s) } else { pd.get_element_nt_index(&s) };
        sx::check(q == want, 1);
        let i = match sx::pick(2) {
            0 => {
                if t {
                    pd.get_or_add_terminal(&s)
                } else {
                    pd.get_or_add_non_terminal(&s)
                }
            }
            _ => pd.get_or_add_element_key(&ElementVerbose::new(s.clone(), if t { ElementType::Terminal } else { ElementType::NonTerminal })),
        };
        match want {
            Some(w) => {
                sx::check(i == w, 2);
                sx::cover(1);
            }
            None => {
                sx::check(i == m.len(), 3);
                m.push((s, t));
            }
        }
    }
    let all = pd.get_elements_verbose();
    sx::check(all.len() == m.len(), 4);
    for (i, (s, t)) in m.iter().enumerate() {
        let et = if *t { ElementType::Terminal } else { ElementType::NonTerminal };
        let Some(v) = pd.get_element_verbose(i) else { sx::fail(5) };
        sx::check((v.et == et) & same_text(&v.name, s), 6);
        sx::check((all[i].et == et) & same_text(&all[i].name, s), 7);
        match (pd.get_element(i), pd.get_element_data(i)) {
            (Some(e), Some(d)) => sx::check((e.ix == i) & (e.et == et) & same_text(&d.name, s), 8),
            _ => sx::fail(9),
        }
        sx::check(pd.get_element_index(&v) == Some(i), 10);
        let other = if *t { pd.get_element_nt_index(s) } else { pd.get_element_t_index(s) };
        let w = m.iter().position(|x| same(x, s, !*t));
        sx::check(other == w, 11);
        if other.is_some() {
            sx::cover(2);
        }
    }
    sx::check(pd.get_element_verbose(m.len()).is_none() & pd.get_element(m.len()).is_none() & pd.get_element_data(m.len()).is_none(), 12);
    sx::log(m.len() as u64);
}

/// nibbles: operations, rules, alternatives at most
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c19b(l: u64) {
    let (n, k) = (nib(l, 0), nib(l, 1));
    let mut pd = ParserData::<NullVm>::new();
    let names = ["s", "a", "b", "c"];
    let nt: Vec<usize> = (0..k).map(|i| pd.get_or_add_non_terminal(names[i])).collect();
    let t = pd.get_or_add_terminal("a");
    let mut m: Vec<Option<(Vec<Vec<usize>>, Vec<usize>)>> = vec![None; k];
    let prod = || -> Vec<usize> {
        match sx::pick(3) {
            0 => vec![],
            1 => vec![t],
            _ => vec![nt[k - 1], t],
        }
    };
    for _ in 0..n {
        let i = sx::pick(k);
        match sx::pick(3) {
            0 => {
                let p = prod();
                pd.add_production(nt[i], p.clone());
                m[i].get_or_insert_with(|| (vec![], vec![])).0.push(p);
            }
            1 => {
                let c = sx::pick(nib(l, 2) + 1);
                let ps: Vec<Vec<usize>> = (0..c).map(|_| prod()).collect();
                pd.set_productions(nt[i], ps.clone());
                if c > 0 || m[i].is_some() {
                    m[i].get_or_insert_with(|| (vec![], vec![])).0 = ps;
                }
                sx::cover(1);
            }
            _ => {
                let v: Vec<usize> = (0..sx::pick(3)).map(|_| sx::sym(64) as usize).collect();
                pd.add_instructions(nt[i], v.clone());
                m[i].get_or_insert_with(|| (vec![], vec![])).1 = v;
                sx::cover(2);
            }
        }
    }
    for i in 0..k {
        let r = pd.get_rule_by_key(nt[i]);
        let by_name = pd.get_rule_by_element_verbose(names[i]);
        let by_el = pd.get_rule_by_element(henriks_parsing_project::parser_data::Element::new_nt(nt[i]));
        match (&m[i], r, by_name, by_el) {
            (None, None, None, None) => {}
            (None, Some(r), _, _) => sx::check(r.possible_productions.is_empty() & r.instruction.is_empty(), 1),
            (Some((ps, ins)), Some(r), Some(x), Some(y)) => {
                sx::check(std::ptr::eq(r, x) & std::ptr::eq(r, y), 2);
                sx::check(r.instruction == *ins, 3);
                sx::check(r.possible_productions.len() == ps.len(), 4);
                for (p, w) in r.possible_productions.iter().zip(ps) {
                    match &**p {
                        Production::Empty => sx::check(w.is_empty(), 5),
                        Production::NotEmpty(v) => sx::check(!v.is_empty() && v == w, 6),
                    }
                }
                sx::check(r.ignore.is_none(), 7);
                sx::log(ps.len() as u64);
            }
            _ => sx::fail(8),
        }
    }
}

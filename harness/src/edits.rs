//! C22: virtual machines that change the tree while it grows. C23: the bundled virtual machines.
use crate::gram::*;
use crate::scripts::*;
use crate::sx;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::peekables::{ParseProcess, TPeekable};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;
use henriks_parsing_project::vms::NullVm;
use henriks_parsing_project::vms::counting_vm::CountingVm;

// ---------------------------------------------------------------- C22

/// What a machine does to the tree at one execution; the first finished node may be any one finished before.
const OPS: usize = 10;
#[derive(Clone, Copy)]
enum Op {
    Nothing,
    Data,
    AddHere,
    RemoveFirst,
    RemoveLast,
    RemoveSelf,
    AddBelowFirst,
    DataOfLast,
    /// all children replaced by a new one with a child of its own
    Replace,
    /// a branch finished earlier is removed
    RemoveEarlier(usize),
    DataOfEarlier(usize),
}
struct EditVm {}
struct Seen {
    ins: usize,
    node: NodeId,
    shape: Vec<(usize, String)>,
    op: Op,
}
struct EditState {
    seen: Vec<Seen>,
    left: usize,
    /// data written
    new: Vec<char>,
}
fn written(new: &[char], j: usize) -> String {
    let mut s = String::from("*");
    s.push(new[j % new.len()]);
    s.push(char::from(b'a' + j as u8));
    s
}
/// preorder of a subtree that may be gone
fn maybe_shape(tree: &Tree<String>, id: NodeId) -> Vec<(usize, String)> {
    if tree.node_exists(id) { shape_of(tree, id) } else { vec![] }
}
impl VM for EditVm {
    type Tstate = EditState;
    type Tinstrution = usize;
    fn parse_instructions<'a, T>(&'a self, _p: &str, r: &mut ParseProcess<T>) -> Result<Vec<usize>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let mut v = vec![];
        while let Some(c) = r.next() {
            v.push(c as usize);
        }
        Ok(v)
    }
    fn execute_instruction(&self, tree: &mut Tree<String>, node: NodeId, ins: &usize, st: &mut EditState) {
        let shape = maybe_shape(tree, node);
        let j = st.seen.len();
        let earlier = st.seen.len().min(2);
        let op = if st.left == 0 {
            Op::Nothing
        } else {
            match sx::pick(OPS - 1 + 2 * earlier) {
                0 => Op::Nothing,
                1 => Op::Data,
                2 => Op::AddHere,
                3 => Op::RemoveFirst,
                4 => Op::RemoveLast,
                5 => Op::RemoveSelf,
                6 => Op::AddBelowFirst,
                7 => Op::DataOfLast,
                8 => Op::Replace,
                x => {
                    // the first or the latest
                    let e = if (x - 9) / 2 == 0 { 0 } else { j - 1 };
                    if x % 2 == 1 { Op::RemoveEarlier(e) } else { Op::DataOfEarlier(e) }
                }
            }
        };
        if !matches!(op, Op::Nothing) {
            st.left -= 1;
        }
        let data = written(&st.new, j);
        let kids = tree.get_children(node);
        match op {
            Op::Nothing => {}
            Op::Data => {
                if let Ok(n) = tree.get_node_mut(node) {
                    n.data = data;
                }
            }
            Op::AddHere => {
                let _ = tree.add_node(data, Some(node));
            }
            Op::RemoveFirst => {
                if let Some(c) = kids.first() {
                    sx::check(tree.remove_branch(*c).is_ok(), 20);
                }
            }
            Op::RemoveLast => {
                if let Some(c) = kids.last() {
                    sx::check(tree.remove_branch(*c).is_ok(), 20);
                }
            }
            Op::RemoveSelf => {
                let _ = tree.remove_branch(node);
            }
            Op::AddBelowFirst => {
                if let Some(c) = kids.first() {
                    sx::check(tree.add_node(data, Some(*c)).is_ok(), 21);
                }
            }
            Op::DataOfLast => {
                if let Some(c) = kids.last() {
                    match tree.get_node_mut(*c) {
                        Ok(n) => n.data = data,
                        Err(_) => sx::fail(22),
                    }
                }
            }
            Op::Replace => {
                for c in kids {
                    sx::check(tree.remove_branch(c).is_ok(), 20);
                }
                if let Ok(x) = tree.add_node(data, Some(node)) {
                    sx::check(tree.add_node(String::from("+"), Some(x)).is_ok(), 21);
                }
            }
            Op::RemoveEarlier(e) => {
                let _ = tree.remove_branch(st.seen[e].node);
            }
            Op::DataOfEarlier(e) => {
                if let Ok(n) = tree.get_node_mut(st.seen[e].node) {
                    n.data = data;
                }
            }
        }
        st.seen.push(Seen { ins: *ins, node, shape, op });
    }
    fn create_new_state() -> EditState {
        EditState { seen: vec![], left: 0, new: vec!['x'] }
    }
}

/// The tree as it should be.
struct Plain {
    data: Vec<String>,
    kids: Vec<Vec<usize>>,
    up: Vec<Option<usize>>,
    alive: Vec<bool>,
}
impl Plain {
    fn add(&mut self, s: String, up: Option<usize>) -> Option<usize> {
        if let Some(u) = up {
            if !self.alive[u] {
                return None;
            }
        }
        let i = self.data.len();
        self.data.push(s);
        self.kids.push(vec![]);
        self.up.push(up);
        self.alive.push(true);
        if let Some(u) = up {
            self.kids[u].push(i);
        }
        Some(i)
    }
    fn kill(&mut self, i: usize) {
        self.alive[i] = false;
        for c in std::mem::take(&mut self.kids[i]) {
            self.kill(c);
        }
    }
    fn remove(&mut self, i: usize) {
        if !self.alive[i] {
            return;
        }
        if let Some(u) = self.up[i] {
            self.kids[u].retain(|x| *x != i);
        }
        self.kill(i);
    }
    fn shape(&self, i: usize) -> Vec<(usize, String)> {
        let mut v = vec![];
        fn go(p: &Plain, i: usize, d: usize, v: &mut Vec<(usize, String)>) {
            v.push((d, p.data[i].clone()));
            for c in &p.kids[i] {
                go(p, *c, d + 1, v);
            }
        }
        if self.alive[i] {
            go(self, i, 0, &mut v);
        }
        v
    }
}
fn same_shape(a: &[(usize, String)], b: &[(usize, String)]) -> bool {
    let mut r = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        r &= (x.0 == y.0) & same_text(&x.1, &y.1);
    }
    r
}
fn many(i: usize) -> usize {
    [3, 1, 2, 0, 4][i % 5]
}
struct Model<'a> {
    k: &'a Case,
    st: &'a EditState,
    pos: usize,
    at: usize,
    t: Plain,
    /// nodes of the executions so far
    nodes: Vec<usize>,
}
impl Model<'_> {
    fn nt(&mut self, n: usize, up: Option<usize>) -> bool {
        let k = self.k;
        let (g, s) = (&k.g, &k.script);
        let mut alt = None;
        for a in &g.nt[n] {
            let m = k.sets.predict(g, n, a);
            let fits = if self.pos < s.len() { sx::decide(g.in_set(s[self.pos], m & !END)) } else { m & END != 0 };
            if fits {
                alt = Some(a);
                break;
            }
        }
        let Some(a) = alt else { return false };
        // ancestors of unfinished nodes are never removed
        let Some(id) = self.t.add(String::new(), up) else { sx::fail(30) };
        for x in a {
            match x {
                S::T(t) => {
                    for c in &g.ts[*t] {
                        if self.pos >= s.len() || !sx::decide(s[self.pos] == *c) {
                            return false;
                        }
                        self.pos += 1;
                    }
                    self.t.add(text_of(&g.ts[*t]), Some(id));
                }
                S::N(y) => {
                    if !self.nt(*y, Some(id)) {
                        return false;
                    }
                }
            }
        }
        for j in 0..many(n) {
            self.execution(n, j, id);
        }
        true
    }
    fn execution(&mut self, n: usize, j: usize, id: usize) {
        let at = self.at;
        if at >= self.st.seen.len() {
            sx::fail(1);
        }
        let e = &self.st.seen[at];
        self.at += 1;
        self.nodes.push(id);
        sx::check(e.ins == code(n, j), 2);
        sx::check(same_shape(&e.shape, &self.t.shape(id)), 3);
        let data = written(&self.st.new, at);
        let t = &mut self.t;
        let first = t.kids[id].first().copied();
        let last = t.kids[id].last().copied();
        match e.op {
            Op::Nothing => {}
            Op::Data => t.data[id] = data,
            Op::AddHere => {
                t.add(data, Some(id));
            }
            Op::RemoveFirst => {
                if let Some(c) = first {
                    t.remove(c);
                }
            }
            Op::RemoveLast => {
                if let Some(c) = last {
                    t.remove(c);
                }
            }
            Op::RemoveSelf => t.remove(id),
            Op::AddBelowFirst => {
                if first.is_some() {
                    t.add(data, first);
                }
            }
            Op::DataOfLast => {
                if let Some(c) = last {
                    t.data[c] = data;
                }
            }
            Op::Replace => {
                for c in t.kids[id].clone() {
                    t.remove(c);
                }
                if let Some(x) = t.add(data, Some(id)) {
                    t.add(String::from("+"), Some(x));
                }
            }
            Op::RemoveEarlier(e) => t.remove(self.nodes[e]),
            Op::DataOfEarlier(e) => t.data[self.nodes[e]] = data,
        }
    }
}

/// bits 40..43: how many edits
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c22(l: u64) {
    let new = [sx::ascii(), sx::ascii()];
    let k = case(l & (1 << 40) - 1);
    let vm = EditVm {};
    let Some(mut p) = parser(&k, &vm, &|i| (0..many(i)).map(|j| code(i, j)).collect()) else { return };
    let mut st = EditVm::create_new_state();
    st.left = (l >> 40 & 15) as usize;
    st.new = new.to_vec();
    let text = leak(&k.script);
    let Some(r) = sx::catch(|| p.parse(text, &mut st)) else { sx::fail(4) };
    sx::log(r.is_ok() as u64);
    sx::log(st.seen.len() as u64);
    let mut m = Model { k: &k, st: &st, pos: 0, at: 0, t: Plain { data: vec![], kids: vec![], up: vec![], alive: vec![] }, nodes: vec![] };
    let ok = m.nt(0, None) && m.pos == k.script.len();
    sx::check(m.at == st.seen.len(), 5);
    sx::check(ok == r.is_ok(), 6);
    let tree = match r {
        Ok(t) => t,
        Err(e) => {
            // the error is that of the script
            match e {
                ParserError::UnexpectedCharError { pos, .. } | ParserError::EndOfCharsError { pos } => sx::check(pos == m.pos, 7),
                _ => sx::fail(8),
            }
            sx::cover(2);
            return;
        }
    };
    sx::cover(1);
    for (e, id) in st.seen.iter().zip(&m.nodes) {
        if m.t.alive[*id] {
            sx::check(same_shape(&maybe_shape(&tree, e.node), &m.t.shape(*id)), 9);
        } else {
            sx::check(tree.get_node(e.node).is_err(), 10);
            sx::cover(3);
        }
    }
    // every rule of number 0 has instructions, hence the root is among them; and it is where it always is
    sx::check(same_shape(&maybe_shape(&tree, ROOT), &m.t.shape(0)), 11);
}

// ---------------------------------------------------------------- C23

/// The outcome of parsing is that of the textbook parser; the shape of the tree; how often a node was finished whose rule has a section.
fn expected(k: &Case, sections: usize) -> (Option<Vec<(usize, String)>>, usize, usize) {
    let mut r = Ref { g: &k.g, sets: &k.sets, s: &k.script, pos: 0, done: vec![], keep: true };
    let t = r.nt(0, &mut vec![]);
    let n = r.done.iter().filter(|d| sections >> d.nt & 1 == 1).count();
    let pos = r.pos;
    (t.filter(|_| pos == k.script.len()), n, pos)
}
fn agrees(r: &Result<Tree<String>, ParserError>, want: &Option<Vec<(usize, String)>>, pos: usize) {
    match (r, want) {
        (Ok(t), Some(w)) => {
            sx::check(same_shape(&maybe_shape(t, ROOT), w), 3);
            sx::cover(1);
        }
        (Err(ParserError::UnexpectedCharError { pos: p, .. } | ParserError::EndOfCharsError { pos: p }), None) => {
            sx::check(*p == pos, 4);
            sx::cover(2);
        }
        _ => sx::fail(5),
    }
}
/// bits 40..43: characters of the sections; 44: 1 = also beyond ASCII; 48..: 0 = the machine that does nothing, 1 = the one that counts
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c23(l: u64) {
    let (n, uni) = ((l >> 40 & 15) as usize, l >> 44 & 1 == 1);
    let before = sx::sym(63) as usize;
    let mut sec = vec![' '];
    for _ in 0..n {
        let c = schr(uni);
        sx::assume((c != '}') & (c != '\\'));
        sec.push(c);
    }
    let k = case(l & (1 << 40) - 1);
    sx::assume(!k.sets.conflict(&k.g));
    let m = k.g.k().min(3);
    let sections = sx::pick(1 << m) * if k.g.k() > 3 { (1 << m) + 1 } else { 1 };
    sec.truncate(1 + sx::pick(n + 1));
    let text: &'static str = Box::leak(to_text(&k.g, &k.c, &|i| if sections >> i & 1 == 1 { sec.iter().map(|c| *c as usize).collect() } else { vec![] }).into_boxed_str());
    let script = leak(&k.script);
    let (want, runs, pos) = expected(&k, sections);
    let mut st = before;
    if l >> 48 & 15 == 0 {
        let vm = NullVm::new();
        sx::check(NullVm::create_new_state() == 0, 6);
        let Some(mut p) = sx::catch(|| Parser::new_from_text(text, &vm)) else { sx::fail(1) };
        let Some(r) = sx::catch(|| p.parse(script, &mut st)) else { sx::fail(2) };
        agrees(&r, &want, pos);
        sx::check(st == before, 7);
    } else {
        let vm = CountingVm {};
        sx::check(CountingVm::create_new_state() == 0, 6);
        let Some(mut p) = sx::catch(|| Parser::new_from_text(text, &vm)) else { sx::fail(1) };
        let Some(r) = sx::catch(|| p.parse(script, &mut st)) else { sx::fail(2) };
        agrees(&r, &want, pos);
        sx::check(st == before + runs, 8);
        if runs > 1 {
            sx::cover(3);
        }
    }
    sx::log(runs as u64);
}

//! C13, C14: the two stack machines, one instruction at a time from any state, and with their calculators.
use crate::gram::{same_text, text_of};
use crate::scripts::leak;
use crate::sx;
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::tree::Tree;
use henriks_parsing_project::vms::VM;
use henriks_parsing_project::vms::{simple_stack_vm, stack_vm};

fn nib(l: u64, i: u32) -> usize {
    (l >> (4 * i) & 15) as usize
}
fn digit(c: char) -> bool {
    (c >= '0') & (c <= '9')
}

/// An instruction, as the specification names it. Constants are kept as 64 bits.
#[derive(Clone, Copy, PartialEq)]
enum I {
    Add,
    RegAdd(u64),
    Sub,
    Digit,
    ToReg,
    ToReg2,
    Discard,
    Const(u64),
    FromTree,
    Reg,
    Reg2,
    Print,
    Print2,
    PrintErr,
    Pow(u64),
}

trait Calc {
    type V: VM;
    const SIGNED: bool;
    fn vm() -> Self::V;
    fn state(stack: &[u64], reg: u64, reg2: u64, error: usize) -> <Self::V as VM>::Tstate;
    fn view(s: &<Self::V as VM>::Tstate) -> (Vec<u64>, u64, u64, usize);
    fn instr(i: I) -> <Self::V as VM>::Tinstrution;
    fn back(i: &<Self::V as VM>::Tinstrution) -> I;
    /// the number held in 64 bits
    fn num(x: u64) -> i128 {
        if Self::SIGNED { x as i64 as i128 } else { x as i128 }
    }
    fn fits(x: i128) -> bool {
        if Self::SIGNED { (x >= i64::MIN as i128) & (x <= i64::MAX as i128) } else { (x >= 0) & (x <= u64::MAX as i128) }
    }
}
macro_rules! calc {
    ($n:ident, $m:ident, $vm:ident, $t:ty, $signed:expr) => {
        struct $n {}
        impl Calc for $n {
            type V = $m::$vm;
            const SIGNED: bool = $signed;
            fn vm() -> Self::V {
                $m::$vm {}
            }
            fn state(stack: &[u64], reg: u64, reg2: u64, error: usize) -> <Self::V as VM>::Tstate {
                let mut s = $m::$vm::create_new_state();
                for x in stack {
                    s.stack.push(*x as $t);
                }
                s.reg = reg as $t;
                s.reg2 = reg2 as $t;
                s.error = error;
                s
            }
            fn view(s: &<Self::V as VM>::Tstate) -> (Vec<u64>, u64, u64, usize) {
                (s.stack.iter().map(|x| *x as u64).collect(), s.reg as u64, s.reg2 as u64, s.error)
            }
            fn instr(i: I) -> <Self::V as VM>::Tinstrution {
                use $m::Instruction as X;
                match i {
                    I::Add => X::Add,
                    I::RegAdd(c) => X::RegAddConst(c as $t),
                    I::Sub => X::Sub,
                    I::Digit => X::Digit,
                    I::ToReg => X::PopToReg,
                    I::ToReg2 => X::PopToReg2,
                    I::Discard => X::PopDiscard,
                    I::Const(c) => X::PushConst(c as $t),
                    I::FromTree => X::PushFromTree,
                    I::Reg => X::PushReg,
                    I::Reg2 => X::PushReg2,
                    I::Print => X::PrintReg,
                    I::Print2 => X::PrintReg2,
                    I::PrintErr => X::PrintError,
                    I::Pow(b) => X::Pow(b as usize),
                }
            }
            fn back(i: &<Self::V as VM>::Tinstrution) -> I {
                use $m::Instruction as X;
                match i {
                    X::Add => I::Add,
                    X::RegAddConst(c) => I::RegAdd(*c as u64),
                    X::Sub => I::Sub,
                    X::Digit => I::Digit,
                    X::PopToReg => I::ToReg,
                    X::PopToReg2 => I::ToReg2,
                    X::PopDiscard => I::Discard,
                    X::PushConst(c) => I::Const(*c as u64),
                    X::PushFromTree => I::FromTree,
                    X::PushReg => I::Reg,
                    X::PushReg2 => I::Reg2,
                    X::PrintReg => I::Print,
                    X::PrintReg2 => I::Print2,
                    X::PrintError => I::PrintErr,
                    X::Pow(b) => I::Pow(*b as u64),
                }
            }
        }
    };
}
calc!(Simple, simple_stack_vm, SimpleStackVm, usize, false);
calc!(Full, stack_vm, StackVm, isize, true);

/// What executing an instruction may do.
enum Want {
    /// exactly this
    State(Vec<u64>, u64, u64),
    /// the error code set; the operand taken or not
    Error,
    /// this or the error
    Either(Vec<u64>, u64, u64),
}

/// The number a text stands for. Outer None: either way.
fn number_of<C: Calc>(t: &[char]) -> Option<Option<u64>> {
    if t.is_empty() {
        return Some(None);
    }
    let plus = sx::decide(t[0] == '+');
    if plus {
        return None;
    }
    let neg = C::SIGNED && sx::decide(t[0] == '-');
    let d = if neg { &t[1..] } else { t };
    let mut all = !d.is_empty();
    for c in d {
        all &= digit(*c);
    }
    if !sx::decide(all) {
        return Some(None);
    }
    if d.len() < 19 {
        let mut v = 0u64;
        for c in d {
            let x = (*c as u32).wrapping_sub(48) as u64;
            v = v.wrapping_mul(10);
            v = if neg { v.wrapping_sub(x) } else { v.wrapping_add(x) };
        }
        return Some(Some(v));
    }
    let mut v: i128 = 0;
    let mut fits = true;
    for c in d {
        let x = (*c as u32).wrapping_sub(48) as i128;
        v = v.wrapping_mul(10);
        v = if neg { v.wrapping_sub(x) } else { v.wrapping_add(x) };
        // beyond that many digits the sum here might wrap
        if d.len() > 30 {
            fits &= C::fits(v);
        }
    }
    Some(if sx::decide(fits & C::fits(v)) { Some(v as u64) } else { None })
}

/// Powers of the base that are below 2^64.
fn powers(b: u64) -> Vec<u128> {
    let mut v = vec![1u128];
    loop {
        let x = v[v.len() - 1].wrapping_mul(b as u128);
        if x > u64::MAX as u128 {
            return v;
        }
        v.push(x);
        if v.len() > 70 {
            return v;
        }
    }
}

fn want<C: Calc>(i: I, stack: &[u64], reg: u64, reg2: u64, child: Option<&[char]>) -> Want {
    let mut s = stack.to_vec();
    let (r, r2) = (reg, reg2);
    match i {
        I::Digit | I::Print | I::Print2 | I::PrintErr => Want::State(s, r, r2),
        I::Const(c) => {
            s.push(c);
            Want::State(s, r, r2)
        }
        I::Reg => {
            s.push(r);
            Want::State(s, r, r2)
        }
        I::Reg2 => {
            s.push(r2);
            Want::State(s, r, r2)
        }
        I::RegAdd(c) => {
            let v = C::num(r).wrapping_add(C::num(c));
            if sx::decide(C::fits(v)) { Want::State(s, v as u64, r2) } else { Want::Error }
        }
        I::FromTree => match child {
            None => Want::Error,
            Some(t) => match number_of::<C>(t) {
                None => {
                    let mut v = 0u64;
                    for c in &t[1..] {
                        v = v.wrapping_mul(10).wrapping_add((*c as u32).wrapping_sub(48) as u64);
                    }
                    s.push(v);
                    Want::Either(s, r, r2)
                }
                Some(None) => Want::Error,
                Some(Some(v)) => {
                    s.push(v);
                    Want::State(s, r, r2)
                }
            },
        },
        I::Add | I::Sub | I::ToReg | I::ToReg2 | I::Discard | I::Pow(_) => {
            let Some(v) = s.pop() else { return Want::Error };
            match i {
                I::Discard => Want::State(s, r, r2),
                I::ToReg => Want::State(s, v, r2),
                I::ToReg2 => Want::State(s, r, v),
                I::Add | I::Sub => {
                    let x = if i == I::Add { C::num(v).wrapping_add(C::num(r)) } else { C::num(v).wrapping_sub(C::num(r)) };
                    if !sx::decide(C::fits(x)) {
                        return Want::Error;
                    }
                    s.push(x as u64);
                    Want::State(s, r, r2)
                }
                I::Pow(b) => {
                    let mut p: Option<u128> = None;
                    if sx::decide(b == 0) {
                        p = Some(sx::decide(r == 0) as u128);
                    } else if sx::decide(b == 1) {
                        p = Some(1);
                    } else if sx::decide(r == 0) {
                        p = Some(1);
                    } else if sx::decide(r == 1) {
                        p = Some(b as u128);
                    } else if sx::decide(r == 2) {
                        p = Some((b as u128).wrapping_mul(b as u128));
                        if sx::decide(p > Some(u64::MAX as u128)) {
                            p = None;
                        }
                    } else {
                        for (e, x) in powers(b).iter().enumerate() {
                            if sx::decide(r == e as u64) {
                                p = Some(*x);
                                break;
                            }
                        }
                    }
                    let zero = sx::decide(v == 0);
                    if C::SIGNED && sx::decide((r as i64) < 0) {
                        return Want::Error;
                    }
                    let Some(p) = p else {
                        if zero {
                            s.push(r2);
                            return Want::Either(s, r, r2);
                        }
                        return Want::Error;
                    };
                    let ok;
                    let sum: u64;
                    let sumok;
                    if C::SIGNED {
                        let prod = C::num(v).wrapping_mul(p as i128);
                        let t = prod.wrapping_add(C::num(r2));
                        sumok = C::fits(t);
                        ok = C::fits(p as i128) & C::fits(prod) & sumok;
                        sum = t as u64;
                    } else {
                        let prod = (v as u128).wrapping_mul(p);
                        let t = prod.wrapping_add(r2 as u128);
                        sumok = t <= u64::MAX as u128;
                        ok = sumok;
                        sum = t as u64;
                    }
                    s.push(sum);
                    if sx::decide(ok) {
                        Want::State(s, r, r2)
                    } else if sx::decide(sumok) {
                        Want::Either(s, r, r2)
                    } else {
                        Want::Error
                    }
                }
                _ => unreachable!(),
            }
        }
    }
}
fn is_state(a: &(Vec<u64>, u64, u64, usize), s: &[u64], r: u64, r2: u64) -> bool {
    if a.0.len() != s.len() {
        return false;
    }
    let mut ok = (a.1 == r) & (a.2 == r2);
    for (x, y) in a.0.iter().zip(s) {
        ok &= x == y;
    }
    ok
}

/// nibbles: stack depth; form of Pow (see below) or 0 without; form of the child's text; its symbolic characters; instructions in sequence (0 = 1); hundreds of given numbers beneath
fn exec<C: Calc>(l: u64) {
    let n = sx::pick(nib(l, 0) + 1);
    let mut stack: Vec<u64> = (0..100 * nib(l, 5) as u64).collect();
    stack.extend((0..n).map(|_| sx::sym(64)));
    let (mut reg, mut reg2) = (sx::sym(64), sx::sym(64));
    let mut tree = Tree::<String>::new();
    let root = tree.add_node(String::from("start"), None).unwrap_or_else(|_| sx::fail(50));
    let mut node = root;
    let mut child: Option<Vec<char>> = None;
    let seq = nib(l, 4).max(1);
    let kinds = if nib(l, 1) == 0 { 14 } else { 1 };
    let steps: Vec<usize> = (0..seq).map(|_| if kinds == 1 { 14 } else { sx::pick(kinds) }).collect();
    if steps.contains(&8) {
        match sx::pick(4) {
            0 => {}
            1 => {
                // an id that denotes nothing any more
                node = tree.add_node(String::from("5"), Some(root)).unwrap_or_else(|_| sx::fail(51));
                let _ = tree.add_node(String::from("5"), Some(node));
                let _ = tree.remove_branch(node);
            }
            k => {
                if k == 3 {
                    node = tree.add_node(String::from("7"), Some(root)).unwrap_or_else(|_| sx::fail(52));
                }
                let mut t: Vec<char> = vec![];
                match nib(l, 2) {
                    0 => {}
                    1 => t.extend("184467440737095516".chars()),
                    2 => t.extend("92233720368547758".chars()),
                    3 => t.extend("-92233720368547758".chars()),
                    4 => t.extend("00000000000000000000".chars()),
                    5 => t.extend("18446744073709551616".chars()),
                    6 => t.extend(std::iter::repeat_n('0', sx::long(300))),
                    _ => t.extend(std::iter::repeat_n('9', sx::long(300))),
                }
                for _ in 0..sx::pick(nib(l, 3) + 1) {
                    t.push(sx::ascii());
                }
                let _ = tree.add_node(text_of(&t), Some(node));
                let _ = tree.add_node(String::from("3"), Some(node));
                child = Some(t);
            }
        }
    }
    let vm = C::vm();
    let mut code = sx::sym(64) as usize;
    let mut st = C::state(&stack, reg, reg2, code);
    for k in steps {
        let i = match k {
            0 => I::Add,
            1 => I::RegAdd(sx::sym(64)),
            2 => I::Sub,
            3 => I::Digit,
            4 => I::ToReg,
            5 => I::ToReg2,
            6 => I::Discard,
            7 => I::Const(sx::sym(64)),
            8 => I::FromTree,
            9 => I::Reg,
            10 => I::Reg2,
            11 => I::Print,
            12 => I::Print2,
            13 => I::PrintErr,
            _ => {
                let b = match nib(l, 1) {
                    1 => [10, 2, 1 << 32][sx::pick(3)],
                    4 => [3, 7, 16, 60000, 1 << 31, 1 << 63, u64::MAX][sx::pick(7)],
                    2 => {
                        // base 0 or 1, small exponents
                        sx::assume(reg < 4);
                        reg = sx::concrete(reg);
                        st = C::state(&stack, reg, reg2, code);
                        sx::choose(2)
                    }
                    _ => {
                        // any base, exponents 0 to 2, chosen numbers elsewhere
                        sx::assume(reg < 3);
                        reg = sx::concrete(reg);
                        for x in stack.iter_mut() {
                            *x = [0, 1, 2, 3, 10, u64::MAX - 1][sx::pick(6)];
                        }
                        st = C::state(&stack, reg, reg2, code);
                        sx::sym(if reg == 2 { 6 } else { 64 })
                    }
                };
                I::Pow(b)
            }
        };
        let ins = C::instr(i);
        let done = sx::catch(|| vm.execute_instruction(&mut tree, node, &ins, &mut st)).is_some();
        if !done {
            sx::fail(1);
        }
        let now = C::view(&st);
        let same = |s: &[u64], r: u64, r2: u64| is_state(&now, s, r, r2) & (now.3 == code);
        let err = {
            let popped = !stack.is_empty() && is_state(&now, &stack[..stack.len() - 1], reg, reg2);
            (now.3 != 0) & (is_state(&now, &stack, reg, reg2) | (popped & !matches!(i, I::FromTree | I::RegAdd(_))))
        };
        match want::<C>(i, &stack, reg, reg2, child.as_deref()) {
            Want::State(s, r, r2) => {
                sx::check(same(&s, r, r2), 2);
                sx::cover(1);
            }
            Want::Error => {
                sx::check(err, 3);
                sx::cover(2);
            }
            Want::Either(s, r, r2) => {
                sx::check(same(&s, r, r2) | err, 4);
                sx::cover(3);
            }
        }
        sx::log(k as u64);
        sx::log(now.0.len() as u64);
        if sx::decide(now.3 != code) {
            sx::log(99);
            break;
        }
        code = now.3;
        stack = now.0;
        reg = now.1;
        reg2 = now.2;
        sx::log(reg);
        sx::log(stack.last().copied().unwrap_or(0));
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c13(l: u64) {
    exec::<Simple>(l)
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c14(l: u64) {
    exec::<Full>(l)
}

/// Runs a calculator script on the specification. None: an error must be flagged; Some(None): not a script.
fn calculate<C: Calc>(s: &[char], out: &mut Vec<u64>) -> (bool, Option<Vec<u64>>, bool) {
    let mut stack: Vec<u64> = vec![];
    let mut err = false;
    let mut either = false;
    let mut p = 0;
    loop {
        if p == s.len() {
            return (false, None, false);
        }
        if sx::decide(digit(s[p])) {
            let b = p;
            while p < s.len() && sx::decide(digit(s[p])) {
                p += 1;
            }
            let zeros = p - b > 19 && sx::decide(s[b] == '0');
            match number_of::<C>(&s[b..p]) {
                Some(Some(v)) => {
                    if zeros {
                        either = true;
                    }
                    stack.push(v);
                }
                _ => err = true,
            }
        } else if sx::decide(s[p] == '+') || sx::decide(s[p] == '-') {
            let plus = sx::decide(s[p] == '+');
            p += 1;
            match (stack.pop(), stack.pop()) {
                (Some(b), Some(a)) => {
                    let x = if plus { C::num(a).wrapping_add(C::num(b)) } else { C::num(a).wrapping_sub(C::num(b)) };
                    if sx::decide(C::fits(x)) {
                        stack.push(x as u64);
                    } else {
                        err = true;
                    }
                }
                _ => err = true,
            }
        } else {
            for c in "print".chars() {
                if p == s.len() || !sx::decide(s[p] == c) {
                    return (false, None, false);
                }
                p += 1;
            }
            match stack.pop() {
                None => err = true,
                Some(x) if !err && !either => out.push(x),
                _ => {}
            }
        }
        if p == s.len() {
            return (true, if err { None } else { Some(stack) }, either);
        }
        if !sx::decide(s[p] == ' ') {
            return (false, None, false);
        }
        p += 1;
    }
}
/// nibbles: symbolic characters; form (0: all symbolic; others: see below)
fn script<C: Calc>(l: u64, grammar: &'static str) {
    let n = nib(l, 0);
    let mut s: Vec<char> = vec![];
    let put = |s: &mut Vec<char>, t: &str| s.extend(t.chars());
    let d = || {
        let c = sx::ascii();
        sx::assume(digit(c));
        c
    };
    match nib(l, 1) {
        0 => {
            for _ in 0..sx::pick(n + 1) {
                s.push(sx::ascii());
            }
        }
        1 => {
            // numbers and operators
            for i in 0..n {
                if i > 0 {
                    s.push(' ');
                }
                match sx::pick(4) {
                    0 => s.push(d()),
                    1 => {
                        s.push(d());
                        s.push(d());
                    }
                    2 => s.push(if sx::flag() { '+' } else { '-' }),
                    _ => put(&mut s, "print"),
                }
            }
        }
        2 => {
            // a number near the limits, with n symbolic digits at its end
            put(&mut s, ["184467440737095516", "92233720368547758", "00000000000000000000"][sx::pick(3)]);
            for _ in 0..sx::pick(n + 1) {
                s.push(d());
            }
        }
        4 => {
            // many numbers, then many operators; n characters replaced
            let k = [20, 40, 60][sx::pick(3)];
            for i in 0..k {
                s.push(char::from(b'0' + (i % 10) as u8));
                put(&mut s, if i % 3 == 1 { "23 " } else { " " });
            }
            for i in 0..k {
                put(&mut s, if i + 1 == k { "print" } else { "+ " });
            }
            for _ in 0..n {
                let i = [0, s.len() / 3, s.len() / 2, s.len() / 2 + 1, s.len() - 6][sx::pick(5)];
                s[i] = sx::ascii();
            }
        }
        _ => {
            // sums and differences near the limits
            let big = ["18446744073709551615", "9223372036854775807", "18446744073709551610", "9223372036854775800"][sx::pick(4)];
            let first = sx::flag();
            if first {
                put(&mut s, big);
                s.push(' ');
            }
            for _ in 0..n {
                s.push(d());
            }
            s.push(' ');
            if !first {
                put(&mut s, big);
                s.push(' ');
            }
            s.push(if sx::flag() { '+' } else { '-' });
        }
    }
    let vm = C::vm();
    let mut p = Parser::new_from_text(grammar, &vm);
    let mut st = C::state(&[], 0, 0, 0);
    let text = leak(&s);
    let mut out = vec![];
    if nib(l, 2) == 1 {
        // what a script prints
        let (r, o) = sx::printed(|| p.parse(text, &mut st).is_ok());
        let Some(r) = r else { sx::fail(1) };
        let (is, w, either) = calculate::<C>(&s, &mut out);
        if !is || either {
            return;
        }
        sx::check(r, 2);
        let mut at = 0;
        for x in &out {
            at = line::<C>(&o, at, C::num(*x));
        }
        if w.is_some() {
            sx::check(at == o.len(), 5);
            sx::cover(1);
        } else {
            sx::cover(2);
        }
        return;
    }
    let Some(r) = sx::catch(|| p.parse(text, &mut st)) else { sx::fail(1) };
    let (is, w, either) = calculate::<C>(&s, &mut out);
    sx::check(r.is_ok() == is, 2);
    if !is {
        sx::cover(1);
        return;
    }
    let now = C::view(&st);
    match w {
        None => {
            sx::check(now.3 != 0, 3);
            sx::cover(2);
        }
        Some(w) => {
            let mut good = (now.3 == 0) & (now.0.len() == w.len());
            for (x, y) in now.0.iter().zip(&w) {
                good &= x == y;
            }
            sx::check(good | (either & (now.3 != 0)), 4);
            sx::cover(3);
            sx::log(w.len() as u64);
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c13s(l: u64) {
    script::<Simple>(l, include_str!("/repo/examples/simple_stack_based_math.txt"))
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c14s(l: u64) {
    script::<Full>(l, include_str!("/repo/examples/stack_based_math.txt"))
}

/// A line with the number in canonical decimal digits begins at this place; returns where it ends.
fn line<C: Calc>(o: &[u8], mut at: usize, want: i128) -> usize {
    sx::check(at < o.len(), 20);
    let neg = sx::decide(want < 0);
    if neg {
        sx::check(o[at] == b'-', 21);
        at += 1;
    }
    let b = at;
    let mut v: i128 = 0;
    while at < o.len() && !sx::decide(o[at] == b'\n') {
        sx::check((o[at] >= b'0') & (o[at] <= b'9'), 22);
        let x = o[at].wrapping_sub(48) as i128;
        v = v.wrapping_mul(10);
        v = if neg { v.wrapping_sub(x) } else { v.wrapping_add(x) };
        at += 1;
        sx::check(at - b < 25, 23);
    }
    sx::check((at > b) & (at < o.len()), 24);
    sx::check((at == b + 1) | (o[b] != b'0'), 25);
    sx::check(v == want, 26);
    at + 1
}
/// nibbles: machine; what is printed (15 = any instruction); bits of symbolic values
fn prints<C: Calc>(l: u64) {
    let bits = nib(l, 2) as u32;
    let value = |i: usize| {
        let b: u64 = if C::SIGNED {
            [0, -6i64 as u64, i64::MIN as u64, i64::MAX as u64 - 15, -105i64 as u64, 9995, -100_000_000_000_000_007i64 as u64][i]
        } else {
            [0, 95, u64::MAX - 15, 9995, 999_999_999_999_999_995, 99_999_995, 9_999_999_999_999_999_993][i]
        };
        b.wrapping_add(sx::sym(bits))
    };
    let i = sx::pick(7);
    let x = value(i);
    let y = value((i + 1) % 7);
    let e = sx::sym(2) as usize;
    let instructions = [I::Print, I::Print2, I::PrintErr, I::Add, I::RegAdd(3), I::Sub, I::Digit, I::ToReg, I::ToReg2, I::Discard, I::Const(7), I::FromTree, I::Reg, I::Reg2, I::Pow(3)];
    let vm = C::vm();
    let mut st = C::state(&[3, 4][..sx::pick(3)], x, y, e);
    let mut tree = Tree::new();
    let Ok(root) = tree.add_node(String::from(""), None) else { return };
    if sx::flag() {
        let _ = tree.add_node(String::from(["12", "x"][sx::pick(2)]), Some(root));
    }
    let mut want = vec![];
    let list: Vec<I> = (0..1 + sx::pick(nib(l, 1))).map(|_| instructions[sx::pick(instructions.len())]).collect();
    let (r, o) = sx::printed(|| {
        for i in &list {
            let (_, x, y, e) = C::view(&st);
            match i {
                I::Print => want.push(C::num(x)),
                I::Print2 => want.push(C::num(y)),
                I::PrintErr => want.push(e as i128),
                _ => {}
            }
            vm.execute_instruction(&mut tree, root, &C::instr(*i), &mut st);
        }
    });
    if r.is_none() {
        sx::fail(1);
    }
    let mut at = 0;
    for w in &want {
        at = line::<C>(&o, at, *w);
    }
    sx::check(at == o.len(), 2);
    sx::cover(if want.is_empty() { 2 } else { 1 });
    sx::log(o.len() as u64);
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c27(l: u64) {
    match nib(l, 0) {
        0 => prints::<Simple>(l),
        1 => prints::<Full>(l),
        2 => script::<Simple>(l >> 4 | 1 << 8, include_str!("/repo/examples/simple_stack_based_math.txt")),
        _ => script::<Full>(l >> 4 | 1 << 8, include_str!("/repo/examples/stack_based_math.txt")),
    }
}

const NAMES: [(&str, I); 15] = [
    ("Add", I::Add),
    ("Sub", I::Sub),
    ("Digit", I::Digit),
    ("PopToReg", I::ToReg),
    ("PopToReg2", I::ToReg2),
    ("PopDiscard", I::Discard),
    ("PushFromTree", I::FromTree),
    ("PushReg", I::Reg),
    ("PushReg2", I::Reg2),
    ("PrintReg", I::Print),
    ("PrintReg2", I::Print2),
    ("PrintError", I::PrintErr),
    ("RegAddConst", I::RegAdd(0)),
    ("PushConst", I::Const(0)),
    ("Pow", I::Pow(0)),
];
fn white(c: char) -> bool {
    (c == ' ') | ((c >= '\t') & (c <= '\r'))
}
fn letter(c: char) -> bool {
    ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z'))
}
enum Text {
    Ok(Vec<I>),
    Bad,
    /// either way, as far as the documentation goes
    Open,
}
/// The instructions an (ASCII) text stands for.
fn read_text(s: &[char]) -> Text {
    let mut v = vec![];
    let mut p = 0;
    let mut open = false;
    let skip = |p: &mut usize| {
        let b = *p;
        while *p < s.len() && sx::decide(white(s[*p])) {
            *p += 1;
        }
        *p > b
    };
    skip(&mut p);
    while p < s.len() {
        if !sx::decide(letter(s[p])) {
            return Text::Bad;
        }
        let b = p;
        while p < s.len() && sx::decide(letter(s[p]) | digit(s[p]) | (s[p] == '_')) {
            p += 1;
        }
        let name = text_of(&s[b..p]);
        let mut ins = None;
        for (n, i) in NAMES {
            if n.len() == name.len() && sx::decide(same_text(n, &name)) {
                ins = Some(i);
                break;
            }
        }
        match ins {
            None => open = true,
            Some(I::RegAdd(_) | I::Const(_) | I::Pow(_)) => {
                skip(&mut p);
                let b = p;
                while p < s.len() && sx::decide(digit(s[p])) {
                    p += 1;
                }
                if p == b {
                    return Text::Bad;
                }
                let pow = matches!(ins, Some(I::Pow(_)));
                let x = if pow { number_of::<Simple>(&s[b..p]) } else { number_of::<Full>(&s[b..p]) };
                let Some(Some(x)) = x else { return Text::Bad };
                v.push(match ins {
                    Some(I::RegAdd(_)) => I::RegAdd(x),
                    Some(I::Const(_)) => I::Const(x),
                    _ => I::Pow(x),
                });
            }
            Some(i) => v.push(i),
        }
        let gap = skip(&mut p);
        if p == s.len() || !sx::decide(s[p] == ';') {
            return Text::Bad;
        }
        if gap {
            open = true;
        }
        p += 1;
        skip(&mut p);
    }
    if open { Text::Open } else { Text::Ok(v) }
}
/// nibbles: form; symbolic characters; parts
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_c14t(l: u64) {
    let (form, n, parts) = (nib(l, 0), nib(l, 1), nib(l, 2));
    let mut s: Vec<char> = vec![];
    let put = |s: &mut Vec<char>, t: &str| s.extend(t.chars());
    let space = |s: &mut Vec<char>, least: usize| {
        for _ in 0..least + sx::pick(2) {
            let c = sx::ascii();
            sx::assume(white(c));
            s.push(c);
        }
    };
    match form {
        0 => {
            for _ in 0..sx::pick(n + 1) {
                s.push(sx::ascii());
            }
        }
        1 => {
            // well formed, spaced in any way
            if n & 1 == 1 {
                space(&mut s, 0);
            }
            for _ in 0..parts {
                let k = sx::pick(15);
                put(&mut s, NAMES[k].0);
                if k >= 12 {
                    space(&mut s, 1);
                    for _ in 0..1 + sx::pick(n) {
                        let c = sx::ascii();
                        sx::assume(digit(c));
                        s.push(c);
                    }
                }
                s.push(';');
                if n & 1 == 1 {
                    space(&mut s, 0);
                }
            }
        }
        2 => {
            // operands near the limits
            put(&mut s, NAMES[12 + sx::pick(3)].0);
            s.push(' ');
            put(&mut s, ["922337203685477580", "1844674407370955161", "0000000000000000000000", "99999999999999999999"][sx::pick(4)]);
            for _ in 0..sx::pick(n + 1) {
                s.push(sx::ascii());
            }
            s.push(';');
        }
        3 => {
            // every name, with symbolic characters behind it
            put(&mut s, NAMES[sx::pick(15)].0);
            for _ in 0..sx::pick(n + 1) {
                s.push(sx::ascii());
            }
            if sx::flag() {
                s.push(';');
            }
        }
        5 => {
            // many instructions, one of any name with symbolic digits behind many zeros
            let at = [0, 1, 63, 99][sx::pick(4)];
            for i in 0..100 {
                let k = if i == at { sx::pick(15) } else { i % 15 };
                put(&mut s, NAMES[k].0);
                if k >= 12 {
                    s.push(' ');
                    if i == at {
                        s.extend(std::iter::repeat_n('0', [0, 18, 250][sx::pick(3)]));
                        for _ in 0..n {
                            let c = sx::ascii();
                            sx::assume(digit(c));
                            s.push(c);
                        }
                    } else {
                        s.push(char::from(b'0' + (i % 10) as u8));
                    }
                }
                s.push(';');
                if i % 7 == 3 || i == at {
                    s.extend(std::iter::repeat_n('\n', 1 + 100 * (i == at) as usize));
                }
            }
        }
        _ => {
            // one character of a text replaced
            put(&mut s, ["Add; Sub;", "Pow 10;", " PopToReg;PopToReg2;", "RegAddConst 1;PushReg;", "PushConst\n12;"][sx::pick(5)]);
            let i = sx::pick(s.len());
            s[i] = sx::ascii();
            if n > 1 && i + 1 < s.len() {
                s[i + 1] = sx::ascii();
            }
        }
    }
    let vm = Full::vm();
    let text = leak(&s);
    let mut pk = PeekableWrapper::from_str(text);
    let mut pp = ParseProcess::new(&mut pk, None, None);
    let Some(r) = sx::catch(|| vm.parse_instructions("rule", &mut pp)) else { sx::fail(1) };
    let r: Result<Vec<I>, ParserError> = r.map(|v| v.iter().map(Full::back).collect());
    sx::log(r.is_ok() as u64);
    match (read_text(&s), r) {
        (Text::Ok(w), Ok(v)) => {
            sx::check(v.len() == w.len(), 2);
            for (x, y) in v.iter().zip(&w) {
                let same = match (x, y) {
                    (I::RegAdd(a), I::RegAdd(b)) | (I::Const(a), I::Const(b)) | (I::Pow(a), I::Pow(b)) => a == b,
                    _ => x == y,
                };
                sx::check(same, 3);
            }
            sx::log(v.len() as u64);
            if !v.is_empty() {
                sx::cover(1);
            }
        }
        (Text::Bad, Err(_)) => sx::cover(2),
        (Text::Open, _) => {}
        (Text::Ok(_), Err(_)) => sx::fail(4),
        (Text::Bad, Ok(_)) => sx::fail(5),
    }
}

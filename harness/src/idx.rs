//! C01: index containers
use crate::vp::*;
use rust_3d::*;

fn width(c: &mut DynamicPrecisionIndexVec) -> u32 {
    let a = [c.get_u8().is_some(), c.get_u16().is_some(), c.get_u32().is_some(), c.get_usize().is_some()];
    check((a[0] as u32 + a[1] as u32 + a[2] as u32 + a[3] as u32) == 1, "exactly one precision is active");
    if a[0] { 1 } else if a[1] { 2 } else if a[2] { 4 } else { 8 }
}
fn need(x: usize) -> u32 {
    if x <= 0xff { 1 } else if x <= 0xffff { 2 } else if x <= 0xffff_ffff { 4 } else { 8 }
}
fn same<IC: IsIndexContainer>(c: &IC, sh: &[usize]) {
    check(c.len() == sh.len(), "len counts the stored indices");
    if c.len() != sh.len() { return; }
    for i in 0..sh.len() { check(c.get(i) == sh[i], "get returns the value last stored at that position"); }
    let mut n = 0;
    for x in c.iter() {
        if n < sh.len() { check(x == sh[n], "iter yields the stored values in order"); }
        n += 1;
    }
    check(n == sh.len(), "iter yields every stored value once");
}
fn ops<IC: IsIndexContainer>(mut c: IC, k: usize, lim: usize) -> (IC, Vec<usize>, usize) {
    let mut sh = Vec::new();
    let mut mx = 0;
    for _ in 0..k {
        match pick(0, 3) {
            0 => { let x = sym(64) as usize; assume(x <= lim); c.push(x); sh.push(x); mx = mx.max(x); cover(1); }
            1 => {
                if sh.is_empty() { continue; }
                let i = pick(0, sh.len() - 1);
                let x = sym(64) as usize; assume(x <= lim);
                c.set(i, x); sh[i] = x; mx = mx.max(x); cover(2);
            }
            2 => { c.reserve(pick(0, 2)); }
            _ => { let x = sym(64) as usize; assume(x <= lim); c.ensure_supported(x); mx = mx.max(x); cover(3); }
        }
        same(&c, &sh);
    }
    (c, sh, mx)
}
fn fin(mut c: DynamicPrecisionIndexVec, sh: &[usize], mx: usize) {
    let w = width(&mut c);
    check(w == need(mx), "precision is the smallest one that holds everything requested so far");
    cover(10 + w);
    obs(w as u64);
    let d = c.clone();
    same(&d, sh);
    let up = if bit() { c.get_usize_upgraded().clone() } else { c.get_usize_upgraded_mut().clone() };
    check(up.len() == sh.len(), "upgrading keeps the length");
    for i in 0..up.len().min(sh.len()) { check(up[i] == sh[i], "upgrading keeps the values"); }
    for x in sh { obs(*x as u64); }
}
fn from<T: Copy + 'static>(n: usize, conv: fn(T) -> usize, mk: fn(u64) -> T, w: u32, byref: bool) -> (Vec<T>, Vec<usize>)
{
    let _ = byref;
    let mut v = Vec::new();
    let mut s = Vec::new();
    for _ in 0..n { let x = mk(sym(w)); v.push(x); s.push(conv(x)); }
    (v, s)
}
fn fromfin(c: DynamicPrecisionIndexVec, s: Vec<usize>, any8: bool) {
    same(&c, &s);
    let mut mx = 0; for x in &s { mx = mx.max(*x); }
    let _ = any8;
    let mut c = c;
    c.push(300); // a later push must still be exact
    let mut s = s; s.push(300); same(&c, &s);
    mx = mx.max(300);
    fin(c, &s, mx);
}
harnesses! {
fn h_idx_dyn() {
    let c = match pick(0, 2) {
        0 => DynamicPrecisionIndexVec::new(),
        1 => DynamicPrecisionIndexVec::default(),
        _ => DynamicPrecisionIndexVec::with_capacity(pick(0, 2)),
    };
    let (c, sh, mx) = ops(c, 2, usize::MAX);
    fin(c, &sh, mx);
}
fn h_idx_dyn3() {
    let (c, sh, mx) = ops(DynamicPrecisionIndexVec::new(), 3, usize::MAX);
    fin(c, &sh, mx);
}
fn h_idx_dyn4() {
    let (c, sh, mx) = ops(DynamicPrecisionIndexVec::new(), 4, usize::MAX);
    fin(c, &sh, mx);
}
fn h_idx_sup() {
    let x = sym(64) as usize;
    let mut c = if bit() { DynamicPrecisionIndexVec::with_support_for(x) } else { DynamicPrecisionIndexVec::with_capacity_and_support_for(2, x) };
    check(c.len() == 0, "a freshly created container is empty");
    let w = width(&mut c);
    check(w == need(x), "with_support_for picks the precision the value needs");
    let y = sym(64) as usize; assume(y <= x);
    c.push(y);
    check(width(&mut c) == w, "values within the announced support need no precision change");
    check(c.get(0) == y, "value within the announced support is stored exactly");
    cover(w); obs(w as u64);
}
fn h_idx_from() {
    let n = pick(0, 3);
    match pick(0, 7) {
        0 => { let (v, s) = from::<usize>(n, |x| x, |x| x as usize, 64, false); fromfin(v.into(), s, false) }
        1 => { let (v, s) = from::<usize>(n, |x| x, |x| x as usize, 64, true); fromfin((&v).into(), s, false) }
        2 => { let (v, s) = from::<u32>(n, |x| x as usize, |x| x as u32, 32, false); fromfin(v.into(), s, false) }
        3 => { let (v, s) = from::<u32>(n, |x| x as usize, |x| x as u32, 32, true); fromfin((&v).into(), s, false) }
        4 => { let (v, s) = from::<u16>(n, |x| x as usize, |x| x as u16, 16, false); fromfin(v.into(), s, false) }
        5 => { let (v, s) = from::<u16>(n, |x| x as usize, |x| x as u16, 16, true); fromfin((&v).into(), s, false) }
        6 => { let (v, s) = from::<u8>(n, |x| x as usize, |x| x as u8, 8, false); fromfin(v.into(), s, false) }
        _ => { let (v, s) = from::<u8>(n, |x| x as usize, |x| x as u8, 8, true); fromfin((&v).into(), s, false) }
    }
    cover(1);
}
fn h_idx_plain() {
    // the other two index containers, within their documented value range
    if bit() {
        let (c, sh, _) = ops(U32IndexVec::default(), 3, u32::MAX as usize);
        check(c.data.len() == sh.len(), "len counts the stored indices");
        cover(4);
    } else {
        let (c, sh, _) = ops(Vec::<usize>::new(), 3, usize::MAX);
        check(c == sh, "Vec<usize> holds exactly the stored indices");
        cover(5);
    }
}
fn h_idx_many() {
    // 40 values stored already when the symbolic one arrives, 40 after it
    let (base, w) = [(0usize, 1), (200, 2), (65_500, 4), (4_294_967_250, 8)][pick(0, 3)];
    let _ = w;
    let mut c = DynamicPrecisionIndexVec::new();
    let mut s = Vec::new();
    let mut mx = 0;
    for i in 0..40 { let x = if i % 3 == 1 { base + i * 2 } else { i }; c.push(x); s.push(x); mx = mx.max(x); }
    let x = sym(64) as usize;
    match pick(0, 2) {
        0 => { c.push(x); s.push(x); cover(1); }
        1 => { let i = [0, 17, 39][pick(0, 2)]; c.set(i, x); s[i] = x; cover(2); }
        _ => { c.ensure_supported(x); cover(3); }
    }
    mx = mx.max(x);
    same(&c, &s);
    for i in 0..40 { c.push(i + 1); s.push(i + 1); }
    same(&c, &s);
    fin(c, &s, mx);
}
fn h_idx_from_many() {
    let n = 70;
    let v: Vec<usize> = (0..n).map(|i| (i * 37) % 256).collect();
    let k = [0, 3, 31, 64, 69][pick(0, 4)];
    match pick(0, 7) {
        a @ 0..=1 => { let mut v = v; v[k] = sym(64) as usize; let s = v.clone(); fromfin(if a == 0 { v.into() } else { (&v).into() }, s, false) }
        a @ 2..=3 => { let mut u: Vec<u32> = v[..].iter().map(|x| *x as u32).collect(); u[k] = sym(32) as u32; let s = u.iter().map(|x| *x as usize).collect();
            fromfin(if a == 2 { u.into() } else { (&u).into() }, s, false) }
        a @ 4..=5 => { let mut u: Vec<u16> = v[..].iter().map(|x| *x as u16).collect(); u[k] = sym(16) as u16; let s = u.iter().map(|x| *x as usize).collect();
            fromfin(if a == 4 { u.into() } else { (&u).into() }, s, false) }
        a => { let mut u: Vec<u8> = v[..].iter().map(|x| *x as u8).collect(); u[k] = sym(8) as u8; let s = u.iter().map(|x| *x as usize).collect();
            fromfin(if a == 6 { u.into() } else { (&u).into() }, s, false) }
    }
    cover(1);
}
}

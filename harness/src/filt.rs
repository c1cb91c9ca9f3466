//! filters, views
use crate::util::*;
use crate::vp::*;
use rust_3d::*;
use std::collections::{HashSet, LinkedList, VecDeque};

/// arbitrary predicate on 0..7, as a truth table
struct F(u64);
impl IsFilter<u8> for F { fn is_allowed(&self, x: &u8) -> bool { (self.0 >> *x) & 1 == 1 } }
fn tt(w: u32) -> u64 { sym(w) }
fn at(m: u64, x: u8) -> bool { (m >> x) & 1 == 1 }
fn xx() -> u8 { us(0, 7) as u8 }

fn view_of(bits: usize) -> View { let mut h = HashSet::new(); for i in 0..5 { if bits >> i & 1 == 1 { h.insert(i); } } View::Restricted(h) }
fn sym_view(n: usize) -> (View, usize) { if bit() { (View::Full, 31) } else { let b = pick(0, (1 << n) - 1); (view_of(b), b) } }
/// indices selected by a view among 0..n, through the public behaviour of views
fn selected(v: &View, n: usize) -> Option<Vec<u8>> { let all: Vec<u8> = (0..n as u8).collect(); all.from_view(v) }
fn same_sel(v: &View, n: usize, want: impl Fn(usize) -> bool, what: &str) {
    match selected(v, n) { None => check(false, what), Some(s) => {
        let mut j = 0; let mut ok = true;
        for i in 0..n { if want(i) { ok = ok && j < s.len() && s[j] == i as u8; j += 1; } }
        check(ok && j == s.len(), what); obs(s.len() as u64); for x in s { obs(x as u64) } } }
}
fn rest(want: usize) -> Vec<u8> { (0..5u8).filter(|i| want >> i & 1 == 1).collect() }

macro_rules! view_harness { ($t:ident, $make:expr, $list:expr, $what:literal) => {{
    let n = pick(0, 3);
    let vals: Vec<u8> = (0..n).map(|_| byte()).collect();
    let mut c = ($make)(&vals);
    let (v, b) = sym_view(4);
    let oob = matches!(v, View::Restricted(_)) && b >> n != 0;
    let built = c.from_view(&v);
    let untouched: Vec<u8> = ($list)(&c);
    check(untouched == vals, concat!($what, ": from_view leaves the source untouched"));
    let r = c.apply_view(&v);
    let after: Vec<u8> = ($list)(&c);
    check(r.is_err() == oob, concat!($what, ": apply_view fails exactly for indices out of bounds"));
    check(built.is_none() == oob, concat!($what, ": from_view is None exactly for indices out of bounds"));
    let want: Vec<u8> = if oob { vals.clone() } else { (0..n).filter(|i| b >> i & 1 == 1).map(|i| vals[i]).collect() };
    check(after == want, concat!($what, ": apply_view keeps exactly the viewed elements in order"));
    if let Some(x) = built { let l: Vec<u8> = ($list)(&x); check(l == want, concat!($what, ": from_view yields exactly the viewed elements in order")); cover(1); } else { cover(2); }
    obs(after.len() as u64); for x in after { obs(x as u64) }
}}}

struct Fld(usize, [Norm3D; 2]);
impl IsDirectionField3D for Fld { fn direction_at<P>(&self, p: &P) -> Norm3D where P: Is3D { if p.x() > 0.0 { self.1[0].clone() } else { self.1[1].clone() } } }
struct Fld2([Norm2D; 2]);
impl IsDirectionField2D for Fld2 { fn direction_at<P>(&self, p: &P) -> Norm2D where P: Is2D { if p.x() > 0.0 { self.0[0].clone() } else { self.0[1].clone() } } }
fn dir3() -> [i64; 3] { let k = pick(0, 25); let k = if k >= 13 { k + 1 } else { k } as i64; [k % 3 - 1, k / 3 % 3 - 1, k / 9 - 1] }
fn dir2() -> [i64; 2] { let k = pick(0, 23); let k = if k >= 12 { k + 1 } else { k } as i64; [k % 5 - 2, k / 5 - 2] }
/// angle between within eps (indices into EPS), decided on integers (no ties)
const EPS: [(f64, f64); 3] = [(1.0e-6, 0.999999999999), (1.0, 0.5403023058681398), (2.0, -0.4161468365471424)];
fn within(dot: i64, a2: i64, b2: i64, e: usize) -> bool {
    let c = EPS[e].1; let (d, l) = (dot as f64, (a2 * b2) as f64);
    if c >= 0.0 { dot > 0 && d * d >= c * c * l } else { dot >= 0 || d * d <= c * c * l }
}

/// 70 elements, every third of them viewed and another one anywhere
macro_rules! view_many { ($t:ident, $make:expr, $list:expr, $what:literal) => {{
    let n = 70usize; let vals: Vec<u8> = (0..n).map(|i| (i * 3) as u8).collect(); let mut c = ($make)(&vals); let x = us(0, 75); let x = conc(x as u64) as usize; let mut h: HashSet<usize> = (0..n).filter(|i| i % 3 == 1).collect(); h.insert(x);
    let want: Vec<u8> = if x < n { (0..n).filter(|i| h.contains(i)).map(|i| vals[i]).collect() } else { vals.clone() }; let v = View::Restricted(h); let built = c.from_view(&v); let r = c.apply_view(&v); let after: Vec<u8> = ($list)(&c);
    check((r.is_err() == (x >= n)) & (built.is_none() == (x >= n)), concat!($what, ": views are refused exactly for indices out of bounds")); check(after == want, concat!($what, ": apply_view keeps exactly the viewed elements in order"));
    if let Some(x) = built { let l: Vec<u8> = ($list)(&x); check(l == want, concat!($what, ": from_view yields exactly the viewed elements in order")); cover(1); } else { cover(2) } obs(after.len() as u64)
}}}

fn fbox2_() {
    let (cx, cy) = (fi(-3, 3), fi(-3, 3)); let (sx, sy) = (fi(1, 4), fi(1, 4)); let (px, py) = (dy(-12, 12, -1), dy(-12, 12, -1));
    let mut f = FilterBox2D::new(Box2D { center: Point2D::new(cx, cy), size_x: Positive::new(sx).unwrap(), size_y: Positive::new(sy).unwrap() });
    let p = Point2D::new(px, py);
    let inn = |k: f64| (2.0 * (px - cx) <= k * sx) & (2.0 * (cx - px) <= k * sx) & (2.0 * (py - cy) <= k * sy) & (2.0 * (cy - py) <= k * sy);
    let a = f.is_allowed(&p); check(a == inn(1.0), "box filter allows exactly the positions in the box, border included"); obs(a as u64);
    f.scale(Positive::new(2.0).unwrap());
    let a = f.is_allowed(&p); check(a == inn(2.0), "scaled box filter allows exactly the positions in the scaled box"); obs(a as u64);
    if a { cover(1) } else { cover(2) }
}
fn fbox3_() {
    let (cx, cz) = (fi(-3, 3), fi(-3, 3)); let (sx, sy, sz) = (fi(1, 4), fi(1, 4), fi(1, 4)); let (px, py, pz) = (dy(-12, 12, -1), dy(-12, 12, -1), dy(-12, 12, -1));
    let cy = un(1.0);
    let mut f = FilterBox3D::new(Box3D { center: Point3D::new(cx, cy, cz), size_x: Positive::new(sx).unwrap(), size_y: Positive::new(sy).unwrap(), size_z: Positive::new(sz).unwrap() });
    let p = Point3D::new(px, py, pz);
    let inn = |k: f64| (2.0 * (px - cx) <= k * sx) & (2.0 * (cx - px) <= k * sx) & (2.0 * (py - cy) <= k * sy) & (2.0 * (cy - py) <= k * sy) & (2.0 * (pz - cz) <= k * sz) & (2.0 * (cz - pz) <= k * sz);
    let a = f.is_allowed(&p); check(a == inn(1.0), "box filter allows exactly the positions in the box, border included"); obs(a as u64);
    f.scale(Positive::new(2.0).unwrap());
    let a = f.is_allowed(&p); check(a == inn(2.0), "scaled box filter allows exactly the positions in the scaled box"); obs(a as u64);
    if a { cover(1) } else { cover(2) }
}
fn fbb_() {
    let (ax, az) = (fi(-3, 3), fi(-3, 3)); let (sx, sz) = (fi(1, 4), fi(1, 4)); let (px, pz) = (fi(-8, 8), fi(-8, 8));
    let b3 = BoundingBox3D::new(&Point3D::new(ax, un(-1.0), az), &Point3D::new(ax + sx, un(1.0), az + sz)).unwrap();
    let b2 = BoundingBox2D::new(&Point2D::new(ax, az), &Point2D::new(ax + sx, az + sz)).unwrap();
    let want = (px >= ax) & (px <= ax + sx) & (pz >= az) & (pz <= az + sz);
    let f3: FilterBox3D = b3.clone().into(); let f2: FilterBox2D = b2.clone().into();
    check(f3.is_allowed(&Point3D::new(px, un(0.5), pz)) == want, "filter of a 3D bounding box"); check(f2.is_allowed(&Point2D::new(px, pz)) == want, "filter of a 2D bounding box");
    check(f3.bounding_box() == b3, "3D filter has the bounding box it was made from"); check(f2.bounding_box() == b2, "2D filter has the bounding box it was made from");
    cover(1); obs_f(px);
}
fn fcircle_() {
    let (cx, cy, r, px, py) = (fi(-3, 3), fi(-3, 3), fi(1, 4), fi(-8, 8), fi(-8, 8));
    let mut f = FilterCircle::new(Circle { center: Point2D::new(cx, cy), radius: Positive::new(r).unwrap() });
    let p = Point2D::new(px, py);
    let d2 = (px - cx) * (px - cx) + (py - cy) * (py - cy);
    let a = f.is_allowed(&p); check(a == (d2 <= r * r), "circle filter allows exactly the positions in the circle, border included"); obs(a as u64);
    let bb = f.bounding_box(); check((bb.min_p().x == cx - r) & (bb.max_p().x == cx + r) & (bb.min_p().y == cy - r) & (bb.max_p().y == cy + r), "bounding box of the circle");
    f.scale(Positive::new(2.0).unwrap());
    let a = f.is_allowed(&p); check(a == (d2 <= 4.0 * r * r), "scaled circle filter"); obs(a as u64);
    if a { cover(1) } else { cover(2) }
}
fn fsphere_() {
    let (cx, cz, r, px, py, pz) = (fi(-1, 1), fi(-1, 1), fi(1, 3), fi(-3, 3), fi(-3, 3), fi(-3, 3)); let cy = un(1.0);
    let mut f = FilterSphere::new(Sphere { center: Point3D::new(cx, cy, cz), radius: Positive::new(r).unwrap() });
    let p = Point3D::new(px, py, pz);
    let d2 = (px - cx) * (px - cx) + (py - cy) * (py - cy) + (pz - cz) * (pz - cz);
    let a = f.is_allowed(&p); check(a == (d2 <= r * r), "sphere filter allows exactly the positions in the sphere, border included"); obs(a as u64);
    let bb = f.bounding_box(); check((bb.min_p().x == cx - r) & (bb.max_p().x == cx + r) & (bb.min_p().y == cy - r) & (bb.max_p().y == cy + r) & (bb.min_p().z == cz - r) & (bb.max_p().z == cz + r), "bounding box of the sphere");
    check((Is3D::x(&f) == cx) & (Is3D::y(&f) == cy) & (Is3D::z(&f) == cz), "the sphere filter is positioned at the center of its sphere");
    f.scale(Positive::new(2.0).unwrap());
    let a = f.is_allowed(&p); check(a == (d2 <= 4.0 * r * r), "scaled sphere filter"); obs(a as u64);
    if a { cover(1) } else { cover(2) }
}
fn foutlier_() {
    let n = pick(1, 3); let xs: Vec<f64> = (0..n).map(|_| fi(0, 4)).collect(); let px = fi(0, 5); let need = pick(0, 3); let r = un(pick(1, 2) as f64);
    let mut pc = PointCloud3D::new(); for x in &xs { pc.push(Point3D::new(*x, un(1.0), 0.0)); }
    let mut t = KdTree::default(); check(t.build(pc).is_ok(), "tree");
    let mut f = FilterOutlier3D::new(t, Positive::new(r).unwrap(), need);
    for k in 1..3 {
        let a = f.is_allowed(&Point3D::new(px, un(1.0), 0.0)); let mut c = 0; for x in &xs { if (*x - px <= r * k as f64) & (px - *x <= r * k as f64) { c += 1 } }
        check(a == (c >= need), "outlier filter allows exactly positions with enough neighbours"); obs(a as u64);
        if a { cover(1) } else { cover(2) }
        f.scale(Positive::new(2.0).unwrap());
    }
}
harnesses! {
    fn h_view_many() { match pick(0, 4) {
        0 => view_many!(Vec, |v: &Vec<u8>| v.clone(), |c: &Vec<u8>| c.clone(), "Vec"), 1 => view_many!(VecDeque, |v: &Vec<u8>| { let mut d: VecDeque<u8> = VecDeque::new(); for x in v { d.push_back(*x) } d }, |c: &VecDeque<u8>| c.iter().cloned().collect::<Vec<u8>>(), "VecDeque"),
        2 => view_many!(LinkedList, |v: &Vec<u8>| { let mut d: LinkedList<u8> = LinkedList::new(); for x in v { d.push_back(*x) } d }, |c: &LinkedList<u8>| c.iter().cloned().collect::<Vec<u8>>(), "LinkedList"),
        3 => view_many!(PointCloud2D, |v: &Vec<u8>| { let mut d = PointCloud2D::<Point2D>::new(); for x in v { d.push(Point2D::new(*x as f64, 0.0)) } d }, |c: &PointCloud2D<Point2D>| c.data.iter().map(|p| p.x as u8).collect::<Vec<u8>>(), "PointCloud2D"),
        _ => view_many!(PointCloud3D, |v: &Vec<u8>| { let mut d = PointCloud3D::<Point3D>::new(); for x in v { d.push(Point3D::new(*x as f64, 0.0, 1.0)) } d }, |c: &PointCloud3D<Point3D>| c.data.iter().map(|p| p.x as u8).collect::<Vec<u8>>(), "PointCloud3D") } }
    fn h_union_many() {
        let x = us(0, 99); let x = conc(x as u64) as usize; let a: HashSet<usize> = (0..40).collect(); let mut b: HashSet<usize> = (30..70).filter(|i| i % 2 == 0).collect(); b.insert(x); let mut v = View::Restricted(a); v.union(View::Restricted(b));
        let mut s: Vec<usize> = match &v { View::Restricted(h) => h.iter().cloned().collect(), _ => vec![] }; s.sort(); let want: Vec<usize> = (0..100).filter(|i| (*i < 40) | (*i < 70) & (*i % 2 == 0) | (*i == x)).collect(); check(s == want, "union selects what either view selects"); obs(s.len() as u64); cover(1)
    }
    fn h_ra_many() {
        // 70 elements
        let m = tt(8); let k = pick(0, 3); let ra: Vec<u8> = (0..70).map(|i| (i * 5 % 8) as u8).collect(); let sel = |i: usize| k == 0 || (i + k) % 3 > 0; let mk = || if k == 0 { View::Full } else { View::Restricted((0..70).filter(|i| sel(*i)).collect()) }; let (n, mut v) = (70, mk());
        FilterRandomAccessible::new(F(m)).filter(&ra, &mut v); let keep = |v: &View, want: &dyn Fn(usize) -> bool, what: &str| { let s: Vec<bool> = match v { View::Full => vec![true; 70], View::Restricted(h) => (0..70).map(|i| h.contains(&i)).collect() }; let mut ok = true; for i in 0..n { ok &= s[i] == want(i) } check(ok, what) };
        keep(&v, &|i| sel(i) & at(m, ra[i]), "filtering keeps exactly the viewed elements that pass"); obs(m & 255); let q: VecDeque<u8> = ra.iter().cloned().collect(); let mut v = mk(); FilterRandomAccessible::new(F(m)).filter(&q, &mut v); keep(&v, &|i| sel(i) & at(m, ra[i]), "filtering keeps exactly the viewed elements that pass"); cover(1)
    }
    fn h_allany_many() {
        let x = xx(); let ms: Vec<u64> = (0..9).map(|_| tt(8)).collect(); let mut all = FilterAll::new(); let mut any = FilterAny::new(); let (mut wall, mut wany) = (true, false);
        for m in &ms { all.filters.push(Box::new(F(*m))); any.filters.push(Box::new(F(*m))); wall = wall & at(*m, x); wany = wany | at(*m, x) } let (r, s) = (all.is_allowed(&x), any.is_allowed(&x));
        check(r == wall, "FilterAll allows exactly what every filter allows"); check(s == wany, "FilterAny allows exactly what some filter allows"); obs(r as u64); obs(s as u64); cover(1)
    }
    fn h_foutlier_many() {
        // 24 points, any number of them needed
        let xs: Vec<f64> = (0..24).map(|i| (i * 7 % 24) as f64).collect(); let mut pc = PointCloud3D::new(); for x in &xs { pc.push(Point3D::new(*x, 1.0, 0.0)) } let mut t = KdTree::default(); check(t.build(pc).is_ok(), "tree"); let need = us(0, 30); let px = [0.0, 11.5, 30.0][pick(0, 2)]; let r = [2.0, 9.5, 20.0][pick(0, 2)];
        let f = FilterOutlier3D::new(t, Positive::new(r).unwrap(), need); let a = f.is_allowed(&Point3D::new(px, 1.0, 0.0)); let mut c = 0; for x in &xs { if (*x - px <= r) & (px - *x <= r) { c += 1 } } check(a == (c >= need), "outlier filter allows exactly positions with enough neighbours"); obs(a as u64); if a { cover(1) } else { cover(2) }
    }
    fn h_comb() {
        let (a, b, c) = (tt(8), tt(8), tt(8)); let x = xx(); let (pa, pb, pc) = (at(a, x), at(b, x), at(c, x));
        let chk = |v: bool, w: bool, what: &'static str| { obs(v as u64); check(v == w, what) };
        chk(FilterAND::new(F(a), F(b)).is_allowed(&x), pa & pb, "AND");
        chk(FilterOR::new(F(a), F(b)).is_allowed(&x), pa | pb, "OR");
        chk(FilterXOR::new(F(a), F(b)).is_allowed(&x), pa != pb, "XOR");
        chk(FilterNegate::new(F(a)).is_allowed(&x), !pa, "negation");
        chk(FilterAllow::new().is_allowed(&x), true, "allow");
        chk(FilterDeny::new().is_allowed(&x), false, "deny");
        chk(FilterOuterInner::new(F(a), F(b)).is_allowed(&x), pa & !pb, "outer without inner");
        chk(FilterAND::new(FilterOR::new(F(a), F(b)), FilterNegate::new(F(c))).is_allowed(&x), (pa | pb) & !pc, "nested");
        chk(FilterXOR::new(FilterOuterInner::new(F(a), FilterDeny::new()), FilterAND::new(FilterAllow::new(), F(c))).is_allowed(&x), pa != pc, "nested xor");
        cover(1);
    }
    fn h_allany() {
        let n = pick(0, 3); let x = xx(); let ms: Vec<u64> = (0..n).map(|_| tt(8)).collect();
        let mut all = FilterAll::new(); let mut any = FilterAny::new();
        let (mut wall, mut wany) = (true, false);
        for m in &ms { all.filters.push(Box::new(F(*m))); any.filters.push(Box::new(F(*m))); wall = wall & at(*m, x); wany = wany | at(*m, x); }
        let (r, s) = (all.is_allowed(&x), any.is_allowed(&x));
        check(r == wall, "FilterAll allows exactly what every filter allows"); check(s == wany, "FilterAny allows exactly what some filter allows");
        obs(r as u64); obs(s as u64); if n > 0 { cover(1) } else { cover(2) }
    }
    fn h_ra() {
        let n = pick(0, 3); let m = tt(4); let (mut v, b) = sym_view(4);
        let ra: Vec<u8> = (0..n as u8).collect();
        FilterRandomAccessible::new(F(m)).filter(&ra, &mut v);
        same_sel(&v, n, |i| b >> i & 1 == 1 && at(m, i as u8), "filtering keeps exactly the viewed elements that pass");
        if n > 0 { cover(1) } else { cover(2) }
    }
    fn h_ra_deque() {
        let n = pick(0, 3); let m = tt(8); let (mut v, b) = sym_view(3);
        let vals: Vec<u8> = (0..n).map(|_| us(0, 7) as u8).collect(); let mut ra: VecDeque<u8> = VecDeque::new(); for x in &vals { ra.push_back(*x) }
        FilterRandomAccessible::new(F(m)).filter(&ra, &mut v);
        same_sel(&v, n, |i| b >> i & 1 == 1 && at(m, vals[i]), "filtering keeps exactly the viewed elements that pass");
        cover(1);
    }
    fn h_ra_all() {
        let n = pick(1, 3); let k = pick(0, 2); let (mut v, b) = sym_view(n);
        let ra: Vec<u8> = (0..n as u8).collect(); let ms: Vec<u64> = (0..k).map(|_| tt(3)).collect();
        let mut f = FilterAllRandomAccessible::<Vec<u8>, u8> { filters: Vec::new() };
        for m in &ms { f.filters.push(Box::new(FilterRandomAccessible::new(F(*m)))); }
        f.filter(&ra, &mut v);
        same_sel(&v, n, |i| b >> i & 1 == 1 && ms.iter().all(|m| at(*m, i as u8)), "all: keeps exactly the viewed elements passing every filter"); cover(1);
    }
    fn h_ra_any() {
        let n = pick(1, 3); let k = pick(0, 2); let (mut v, b) = sym_view(n);
        let ra: Vec<u8> = (0..n as u8).collect(); let ms: Vec<u64> = (0..k).map(|_| tt(3)).collect();
        let mut f = FilterAnyRandomAccessible::<Vec<u8>, u8> { filters: Vec::new() };
        for m in &ms { f.filters.push(Box::new(FilterRandomAccessible::new(F(*m)))); }
        f.filter(&ra, &mut v);
        same_sel(&v, n, |i| b >> i & 1 == 1 && ms.iter().any(|m| at(*m, i as u8)), "any: keeps exactly the viewed elements passing some filter"); cover(1);
    }
    fn h_view_vec() { view_harness!(Vec, |v: &Vec<u8>| v.clone(), |c: &Vec<u8>| c.clone(), "Vec") }
    fn h_view_deque() { view_harness!(VecDeque, |v: &Vec<u8>| { let mut d: VecDeque<u8> = VecDeque::new(); for x in v { d.push_back(*x) } d }, |c: &VecDeque<u8>| c.iter().cloned().collect::<Vec<u8>>(), "VecDeque") }
    fn h_view_list() { view_harness!(LinkedList, |v: &Vec<u8>| { let mut d: LinkedList<u8> = LinkedList::new(); for x in v { d.push_back(*x) } d }, |c: &LinkedList<u8>| c.iter().cloned().collect::<Vec<u8>>(), "LinkedList") }
    fn h_view_pc2() { view_harness!(PointCloud2D, |v: &Vec<u8>| { let mut d = PointCloud2D::<Point2D>::new(); for x in v { d.push(Point2D::new(*x as f64, 0.0)) } d }, |c: &PointCloud2D<Point2D>| c.data.iter().map(|p| p.x as u8).collect::<Vec<u8>>(), "PointCloud2D") }
    fn h_view_pc3() { view_harness!(PointCloud3D, |v: &Vec<u8>| { let mut d = PointCloud3D::<Point3D>::new(); for x in v { d.push(Point3D::new(*x as f64, 0.0, 1.0)) } d }, |c: &PointCloud3D<Point3D>| c.data.iter().map(|p| p.x as u8).collect::<Vec<u8>>(), "PointCloud3D") }
    fn h_view_union() {
        let (mut v, b) = sym_view(4); let (w, c) = sym_view(4); let (f1, f2) = (v == View::Full, w == View::Full);
        v.union(w);
        if f1 | f2 { check(v == View::Full, "union with the full view is the full view"); cover(2); }
        else { let mut s: Vec<u8> = match &v { View::Restricted(h) => h.iter().map(|x| *x as u8).collect(), _ => vec![99] }; s.sort(); check(s == rest(b | c), "union selects what either view selects"); cover(1); }
    }
    fn h_fbox2() { fbox2_() }
    fn h_fbox3() { fbox3_() }
    fn h_fbb() { fbb_() }
    fn h_fcircle() { fcircle_() }
    fn h_fsphere() { fsphere_() }
    fn h_foutlier() { foutlier_() }
    fn h_fdir3() {
        let (a, b) = (dir3(), dir3()); let e = pick(0, 2); let s = if bit() { 1.0 } else { -1.0 };
        let nn = |d: [i64; 3]| Norm3D::new(Point3D::new(d[0] as f64, d[1] as f64, d[2] as f64)).unwrap();
        let f = FilterDirectionField3D::new(Fld(0, [nn(a), nn([-a[0], -a[1], -a[2]])]), Rad(EPS[e].0));
        let dot = a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; let sq = |d: [i64; 3]| d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
        let r = f.is_allowed(&(Point3D::new(s, 0.0, 0.0), nn(b)));
        check(r == within(if s > 0.0 { dot } else { -dot }, sq(a), sq(b), e), "direction filter allows exactly normals within the angle"); obs(r as u64); if r { cover(1) } else { cover(2) }
    }
    fn h_fdir2() {
        let (a, b) = (dir2(), dir2()); let e = pick(0, 2); let s = if bit() { 1.0 } else { -1.0 };
        let nn = |d: [i64; 2]| Norm2D::new(Point2D::new(d[0] as f64, d[1] as f64)).unwrap();
        let f = FilterDirectionField2D::new(Fld2([nn(a), nn([-a[0], -a[1]])]), Rad(EPS[e].0));
        let dot = a[0] * b[0] + a[1] * b[1]; let sq = |d: [i64; 2]| d[0] * d[0] + d[1] * d[1];
        let r = f.is_allowed(&(Point2D::new(s, 0.0), nn(b)));
        check(r == within(if s > 0.0 { dot } else { -dot }, sq(a), sq(b), e), "direction filter allows exactly normals within the angle"); obs(r as u64); if r { cover(1) } else { cover(2) }
    }
    fn h_f_mag() { mag(); match pick(0, 4) { 0 => fbox2_(), 1 => fbox3_(), 2 => fbb_(), 3 => fcircle_(), _ => foutlier_() } }
    fn h_f_mag_sphere() { mag(); fsphere_() }
}

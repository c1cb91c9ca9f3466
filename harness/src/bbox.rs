//! C08 bounding box construction, C09 bounding box queries
use crate::util::*;
use crate::vp::*;
use rust_3d::*;

pub trait Bx<const N: usize>: Sized + Clone {
    fn mk(a: [f64; N], b: [f64; N]) -> Option<Self>;
    fn it(ps: &[[f64; N]]) -> Option<Self>;
    fn into_it(ps: &[[f64; N]]) -> Option<Self>;
    fn mn(&self) -> [f64; N];
    fn mx(&self) -> [f64; N];
    fn sz(&self) -> [f64; N];
    fn ctr(&self) -> [f64; N];
    fn ctr_nd(&self) -> [Option<f64>; N];
    fn ins(&self, o: &Self) -> bool;
    fn has(&self, o: &Self) -> bool;
    fn con(&self, p: [f64; N]) -> bool;
    fn col(&self, o: &Self) -> bool;
    fn cross(&self, d: usize, v: f64) -> bool;
    fn cor(&self) -> Vec<[f64; N]>;
    fn sq(&self, p: [f64; N]) -> f64;
    fn di(&self, p: [f64; N]) -> f64;
    fn sqb(&self, o: &Self) -> f64;
    fn mv(&mut self, by: [f64; N]);
    fn sc(&mut self, f: f64);
    fn cons(&mut self, o: Self);
    fn comb(&self, o: &Self) -> Self;
    fn again(&self) -> Self;
    fn maybe(&self) -> Option<Self>;
}
fn q2(a: [f64; 2]) -> Point2D { Point2D::new(a[0], a[1]) }
fn q3(a: [f64; 3]) -> Point3D { Point3D::new(a[0], a[1], a[2]) }
fn a2(p: &Point2D) -> [f64; 2] { [p.x, p.y] }
fn a3(p: &Point3D) -> [f64; 3] { [p.x, p.y, p.z] }
macro_rules! bx {
    ($t:ty, $n:literal, $q:ident, $a:ident, $p:ty, $has:ident, $maybe:ident, ($($s:ident)*), ($($c:ident)*), mv($($i:literal)*)) => {
        impl Bx<$n> for $t {
            fn mk(a: [f64; $n], b: [f64; $n]) -> Option<Self> { <$t>::new(&$q(a), &$q(b)).ok() }
            fn it(ps: &[[f64; $n]]) -> Option<Self> { let v: Vec<$p> = ps.iter().map(|x| $q(*x)).collect(); <$t>::from_iterator(v.iter()).ok() }
            fn into_it(ps: &[[f64; $n]]) -> Option<Self> { <$t>::from_into_iterator(ps.iter().map(|x| $q(*x))).ok() }
            fn mn(&self) -> [f64; $n] { $a(&self.min_p()) }
            fn mx(&self) -> [f64; $n] { $a(&self.max_p()) }
            fn sz(&self) -> [f64; $n] { let a = [$(*self.$s()),*]; let b = self.sizes(); for i in 0..$n { check(a[i] == *b[i], "sizes lists the sizes of the axes"); } a }
            fn ctr(&self) -> [f64; $n] { $a(&self.center_bb()) }
            fn ctr_nd(&self) -> [Option<f64>; $n] { [$(self.position_nd($i)),*] }
            fn ins(&self, o: &Self) -> bool { self.is_inside(o) }
            fn has(&self, o: &Self) -> bool { self.has_inside(o) }
            fn con(&self, p: [f64; $n]) -> bool { self.contains(&$q(p)) }
            fn col(&self, o: &Self) -> bool { self.collides_with(o) }
            fn cross(&self, d: usize, v: f64) -> bool { let f: [&dyn Fn(f64) -> bool; $n] = [$(&|x| self.$c(x)),*]; f[d](v) }
            fn cor(&self) -> Vec<[f64; $n]> { self.corners().iter().map($a).collect() }
            fn sq(&self, p: [f64; $n]) -> f64 { *self.sqr_distance(&$q(p)) }
            fn di(&self, p: [f64; $n]) -> f64 { *self.distance(&$q(p)) }
            fn sqb(&self, o: &Self) -> f64 { *HasDistanceTo::sqr_distance(self, o) }
            fn mv(&mut self, by: [f64; $n]) { self.move_by($(by[$i]),*) }
            fn sc(&mut self, f: f64) { self.scale(Positive::new(f).unwrap()) }
            fn cons(&mut self, o: Self) { self.consume(o) }
            fn comb(&self, o: &Self) -> Self { self.combine(o) }
            fn again(&self) -> Self { self.bounding_box() }
            fn maybe(&self) -> Option<Self> { self.bounding_box_maybe() }
        }
    };
}
bx!(BoundingBox2D, 2, q2, a2, Point2D, HasBoundingBox2D, HasBoundingBox2DMaybe, (size_x size_y), (crossing_x_value crossing_y_value), mv(0 1));
bx!(BoundingBox3D, 3, q3, a3, Point3D, HasBoundingBox3D, HasBoundingBox3DMaybe, (size_x size_y size_z), (crossing_x_value crossing_y_value crossing_z_value), mv(0 1 2));

fn arr<const N: usize>(f: impl Fn() -> f64) -> [f64; N] { let mut a = [0.0; N]; for i in 0..N { a[i] = f(); } a }
fn eqa<const N: usize>(a: &[f64; N], b: &[f64; N]) -> bool { let mut r = true; for i in 0..N { r &= a[i] == b[i]; } r }
fn obsa<const N: usize>(a: &[f64; N]) { for x in a { obs_f(*x) } }

fn build<const N: usize, B: Bx<N>>() {
    let (a, b): ([f64; N], [f64; N]) = (arr(any_f64), arr(any_f64));
    let mut lt = true;
    for i in 0..N { lt &= a[i] < b[i]; }
    match B::mk(a, b) {
        Some(x) => {
            check(lt, "a box is built only when min is below max on every axis");
            check(eqa(&x.mn(), &a) & eqa(&x.mx(), &b), "a new box has the given corners");
            cover(1);
        }
        None => { check(!lt, "min below max on every axis is accepted"); cover(2); }
    }
}
/// sizes of a box that was accepted are usable (finite corners)
fn sizes<const N: usize, B: Bx<N>>() {
    let (mut a, mut b): ([f64; N], [f64; N]) = ([0.0; N], [1.0; N]);
    let i = pick(0, N - 1);
    a[i] = fin_f64(); b[i] = fin_f64();
    if let Some(x) = B::mk(a, b) {
        let s = x.sz();
        for i in 0..N { check(s[i] > 0.0, "sizes are positive"); check((s[i] == b[i] - a[i]), "size is max minus min"); }
        cover(1);
    }
}
fn tight<const N: usize, B: Bx<N>>(n: usize, f: fn() -> f64) {
    let k = pick(0, n);
    let mut ps: Vec<[f64; N]> = Vec::new();
    for _ in 0..k { ps.push(arr(f)); }
    let by_ref = bit();
    let r = if by_ref { B::it(&ps) } else { B::into_it(&ps) };
    let mut spread = k > 0;
    for i in 0..N { let mut s = false; for p in &ps { s |= p[i] != ps[0][i]; } spread &= s; }
    check(r.is_some() == spread, "a box can be derived exactly when the points spread along every axis");
    if let Some(x) = r {
        let (mn, mx) = (x.mn(), x.mx());
        for i in 0..N {
            let (mut ok, mut l, mut h) = (true, false, false);
            for p in &ps { ok &= (p[i] >= mn[i]) & (p[i] <= mx[i]); l |= p[i] == mn[i]; h |= p[i] == mx[i]; }
            check(ok, "the box of a set of points encloses each of them");
            check(l & h, "the box of a set of points is not larger than needed");
        }
        cover(1);
    } else { cover(2) }
}
fn boxi<const N: usize, B: Bx<N>>(m: i64) -> B {
    let (a, b): ([f64; N], [f64; N]) = (arr(|| fi(-m, m)), arr(|| fi(-m, m)));
    for i in 0..N { assume(a[i] < b[i]); }
    match B::mk(a, b) { Some(x) => x, None => { check(false, "min below max on every axis is accepted"); assume(false); unreachable!() } }
}
fn query_pt<const N: usize, B: Bx<N>>(m: i64) {
    let x = boxi::<N, B>(m);
    let (mn, mx, p) = (x.mn(), x.mx(), arr::<N>(|| fi(-m, m)));
    let mut ins = true; let mut sq = 0.0;
    for i in 0..N {
        ins &= (p[i] > mn[i]) & (p[i] < mx[i]);
        let d = if p[i] < mn[i] { mn[i] - p[i] } else if p[i] > mx[i] { p[i] - mx[i] } else { 0.0 };
        sq += d * d;
    }
    check(x.con(p) == ins, "contains holds exactly for points strictly inside");
    check(x.sq(p) == sq, "squared distance to a point is that to the nearest point of the box");
    for i in 0..N { check(x.cross(i, p[i]) == ((p[i] > mn[i]) & (p[i] < mx[i])), "crossing a plane means having it strictly between min and max"); }
    if ins { cover(1) } else { cover(2) }
}
fn dist<const N: usize, B: Bx<N>>() {
    let x = match B::mk([un(-1.0); N], [un(2.0); N]) { Some(x) => x, None => { check(false, "min below max on every axis is accepted"); return } };
    let mut p = [0.0; N];
    let i = pick(0, N - 1);
    p[i] = fi(-60, 60);
    let (d, s) = (x.di(p), x.sq(p));
    check(d * d == s, "distance is the root of the squared distance");
    check(d >= 0.0, "distance is not negative");
    cover(1); obs_f(d);
}
fn query_bb<const N: usize, B: Bx<N>>(m: i64) {
    let (x, y) = (boxi::<N, B>(m), boxi::<N, B>(m));
    let (a, b, c, d) = (x.mn(), x.mx(), y.mn(), y.mx());
    let (mut ins, mut has, mut col, mut sq) = (true, true, true, 0.0);
    for i in 0..N {
        ins &= (a[i] > c[i]) & (b[i] < d[i]);
        has &= (a[i] < c[i]) & (b[i] > d[i]);
        col &= (a[i] < d[i]) & (c[i] < b[i]);
        let g = if d[i] < a[i] { a[i] - d[i] } else if c[i] > b[i] { c[i] - b[i] } else { 0.0 };
        sq += g * g;
    }
    check(x.ins(&y) == ins, "is_inside holds exactly when strictly within on every axis");
    check(x.has(&y) == has, "has_inside is the converse of is_inside");
    check(x.col(&y) == col, "boxes collide exactly when their interiors overlap");
    check(x.sqb(&y) == sq, "squared distance between boxes is that of their nearest points");
    if ins { cover(1) } if has { cover(2) } if col { cover(3) } else { cover(4) }
}
fn merge<const N: usize, B: Bx<N>>(m: i64) {
    let (x, y) = (boxi::<N, B>(m), boxi::<N, B>(m));
    let z = x.comb(&y);
    let mut w = x.clone(); w.cons(y.clone());
    let (mut zm, mut zx) = ([0.0; N], [0.0; N]);
    for i in 0..N { zm[i] = if x.mn()[i] < y.mn()[i] { x.mn()[i] } else { y.mn()[i] }; zx[i] = if x.mx()[i] > y.mx()[i] { x.mx()[i] } else { y.mx()[i] }; }
    check(eqa(&z.mn(), &zm) & eqa(&z.mx(), &zx), "combining two boxes gives the smallest box enclosing both");
    check(eqa(&w.mn(), &zm) & eqa(&w.mx(), &zx), "consuming a box gives the smallest box enclosing both");
    cover(1);
}
fn alter<const N: usize, B: Bx<N>>(m: i64) {
    let x = boxi::<N, B>(m);
    let (a, b) = (x.mn(), x.mx());
    let by = arr::<N>(|| fi(-m, m));
    let mut y = x.clone(); y.mv(by);
    for i in 0..N { check((y.mn()[i] == a[i] + by[i]) & (y.mx()[i] == b[i] + by[i]), "moving a box moves both corners"); }
    let f = match pick(0, 3) { 0 => 0.5, 1 => 1.0, 2 => 2.0, _ => 3.0 };
    let mut z = x.clone(); z.sc(f);
    for i in 0..N {
        check((z.mx()[i] - z.mn()[i]) == f * (b[i] - a[i]), "scaling multiplies the sizes");
        check((z.mx()[i] + z.mn()[i]) == (a[i] + b[i]), "scaling keeps the center");
        let c = x.ctr()[i];
        check(2.0 * c == a[i] + b[i], "the center lies midway between the corners");
        match x.ctr_nd()[i] { Some(v) => check(v == c, "a box's position is its center"), None => check(false, "a box has a position on each axis") }
        check(z.sz()[i] > 0.0, "a scaled box keeps positive sizes");
    }
    let o = x.again(); check(eqa(&o.mn(), &a) & eqa(&o.mx(), &b), "a box is its own bounding box");
    match x.maybe() { Some(o) => check(eqa(&o.mn(), &a) & eqa(&o.mx(), &b), "a box is its own bounding box"), None => check(false, "a box is its own bounding box") }
    cover(1);
}
fn corners<const N: usize, B: Bx<N>>(m: i64) {
    let x = boxi::<N, B>(m);
    let c = x.cor();
    check(c.len() == 1 << N, "a box has 2^n corners");
    if c.len() != 1 << N { return; }
    for k in 0..1usize << N {
        let mut w = [0.0; N];
        for i in 0..N { w[i] = if k >> i & 1 == 1 { x.mx()[i] } else { x.mn()[i] }; }
        let mut f = false;
        for y in &c { f |= eqa(y, &w); }
        check(f, "every combination of min and max is a corner");
    }
    cover(1);
}
harnesses! {
fn h_bb_new2() { build::<2, BoundingBox2D>() }
fn h_bb_new3() { build::<3, BoundingBox3D>() }
fn h_bb_size2() { sizes::<2, BoundingBox2D>() }
fn h_bb_size3() { sizes::<3, BoundingBox3D>() }
fn h_bb_tight2() { tight::<2, BoundingBox2D>(3, fin_f64) }
fn h_bb_tight3() { tight::<3, BoundingBox3D>(2, fin_f64) }
fn h_bb_tight3i() { tight::<3, BoundingBox3D>(3, || fi(-100, 100)) }
fn h_bb_pt2() { query_pt::<2, BoundingBox2D>(8) }
fn h_bb_pt3() { query_pt::<3, BoundingBox3D>(8) }
fn h_bb_dist2() { dist::<2, BoundingBox2D>() }
fn h_bb_dist3() { dist::<3, BoundingBox3D>() }
fn h_bb_bb2() { query_bb::<2, BoundingBox2D>(8) }
fn h_bb_bb3() { query_bb::<3, BoundingBox3D>(8) }
fn h_bb_merge2() { merge::<2, BoundingBox2D>(8) }
fn h_bb_merge3() { merge::<3, BoundingBox3D>(8) }
fn h_bb_alter2() { alter::<2, BoundingBox2D>(16) }
fn h_bb_alter3() { alter::<3, BoundingBox3D>(16) }
fn h_bb_cor2() { corners::<2, BoundingBox2D>(8) }
fn h_bb_cor3() { corners::<3, BoundingBox3D>(8) }
fn h_bb_clouds() { bb_many() }
fn h_bb_default() {
    let x = BoundingBox2D::default(); let y = BoundingBox3D::default();
    for s in x.sz() { check(s == 1.0, "the default box is the unit box around the origin"); }
    for s in y.sz() { check(s == 1.0, "the default box is the unit box around the origin"); }
    let z = fi(-2, 2) / 4.0;
    check(x.con([z, 0.0]) == ((z > -0.5) & (z < 0.5)), "the default box is the unit box around the origin");
    check(y.con([0.0, 0.0, z]) == ((z > -0.5) & (z < 0.5)), "the default box is the unit box around the origin");
    cover(1);
}
fn h_bb_mag2() { mag(); match pick(0, 3) { 0 => query_pt::<2, BoundingBox2D>(8), 1 => query_bb::<2, BoundingBox2D>(8), 2 => merge::<2, BoundingBox2D>(8), _ => alter::<2, BoundingBox2D>(8) } cover(9) }
fn h_bb_mag3() { mag(); match pick(0, 3) { 0 => query_pt::<3, BoundingBox3D>(8), 1 => query_bb::<3, BoundingBox3D>(4), 2 => merge::<3, BoundingBox3D>(8), _ => alter::<3, BoundingBox3D>(8) } cover(9) }
fn h_bb_mag_dist() { mag_odd(); if bit() { dist::<2, BoundingBox2D>() } else { dist::<3, BoundingBox3D>() } }
}

//! value types: points, directions, numbers, matrices
use crate::util::*;
use crate::vp::*;
use rust_3d::*;
use std::hash::{Hash, Hasher};

struct Rec(Vec<u8>);
impl Hasher for Rec { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { for x in b { self.0.push(*x) } } }
fn hb<T: Hash>(x: &T) -> Vec<u8> { let mut r = Rec(Vec::new()); x.hash(&mut r); r.0 }
fn hash_ok<T: Hash + PartialEq>(a: &T, b: &T, what: &str) { let e = a == b; let (x, y) = (hb(a), hb(b)); check(x.len() == y.len(), what); let mut s = true; for i in 0..x.len().min(y.len()) { s = s & (x[i] == y[i]) } check(!e | s, what); obs(e as u64); if e { cover(1) } else { cover(2) } }
fn pos(x: f64) -> Positive { match Positive::new(x) { Some(p) => p, None => { check(false, "Positive::new accepts positive values"); Positive::one() } } }
fn is2(p: &Point2D, x: f64, y: f64, what: &str) { check(feq(p.x, x) & feq(p.y, y), what); obs2(p) }
fn is3(p: &Point3D, x: f64, y: f64, z: f64, what: &str) { check(feq(p.x, x) & feq(p.y, y) & feq(p.z, z), what); obs3(p) }
fn near2(a: f64, b: f64) -> bool { let t = un(un(1e-9)); (a - b <= t) & (b - a <= t) }
fn near(a: f64, b: f64) -> bool { (a - b <= 1e-9) & (b - a <= 1e-9) }

/// coordinates set by name are those answered by name and by dimension
fn axes3<P: IsBuildable3D + IsEditable3D + IsBuildableND>(what: &str) {
    let mut p = P::new(1.0, 2.0, 3.0); let (a, b, c) = (any_f64(), any_f64(), any_f64()); let k = pick(0, 7); let mut w = [1.0, 2.0, 3.0];
    if k & 1 == 1 { p.set_x(a); w[0] = a } if k & 2 == 2 { p.set_y(b); w[1] = b } if k & 4 == 4 { p.set_z(c); w[2] = c }
    check(feq(p.x(), w[0]) & feq(p.y(), w[1]) & feq(p.z(), w[2]), what); for d in 0..3 { match p.position_nd(d) { Some(v) => check(feq(v, w[d]), what), None => check(false, what) } } obs_f(p.x()); obs_f(p.z()); cover(1)
}
fn axes2<P: IsBuildable2D + IsEditable2D + IsBuildableND>(what: &str) {
    let mut p = P::new(1.0, 2.0); let (a, b) = (any_f64(), any_f64()); let k = pick(0, 3); let mut w = [1.0, 2.0];
    if k & 1 == 1 { p.set_x(a); w[0] = a } if k & 2 == 2 { p.set_y(b); w[1] = b }
    check(feq(p.x(), w[0]) & feq(p.y(), w[1]), what); for d in 0..2 { match p.position_nd(d) { Some(v) => check(feq(v, w[d]), what), None => check(false, what) } } obs_f(p.x()); obs_f(p.y()); cover(1)
}
fn nd<P: IsND + IsEditableND + IsBuildableND + Clone>(n: usize, what: &str) {
    check(P::n_dimensions() == n, what);
    let l = pick(0, 4); let cs: Vec<f64> = (0..l).map(|i| 1.0 + i as f64 * 2.0).collect();
    let r = P::new_nd(&cs); check(r.is_ok() == (l == n), what); obs(r.is_ok() as u64);
    let z = P::zero_nd(); for i in 0..n { check(z.position_nd(i) == Some(0.0), what) }
    if let Ok(mut p) = r {
        let d = sym(64) as usize; let v = any_f64();
        check(p.position_nd(d).is_some() == (d < n), what);
        let old = p.clone(); let s = p.set_position(d, v); check(s.is_ok() == (d < n), what); obs(s.is_ok() as u64);
        for i in 0..n {
            let (a, b) = (p.position_nd(i).unwrap_or(-1.0), old.position_nd(i).unwrap_or(-2.0)); check(b == cs[i], what);
            if d == i { check(same_bits(a, v), what); cover(1) } else { check(a == b, what); cover(2) }
        }
        let mut q = P::zero_nd(); check(q.from_nd(p.clone()).is_ok(), what);
        for i in 0..n { check(feq(q.position_nd(i).unwrap_or(-1.0), p.position_nd(i).unwrap_or(-2.0)), what) }
        let e2 = q.from_nd(Point2D::new(1.0, 2.0)); let e3 = q.from_nd(Point3D::new(1.0, 2.0, 3.0)); check((e2.is_ok() == (n == 2)) & (e3.is_ok() == (n == 3)), what);
    }
}

fn ord_ok<T: Ord>(a: &T, b: &T, c: &T, what: &str) {
    let (ab, ba, bc, ac) = (a.cmp(b), b.cmp(a), b.cmp(c), a.cmp(c)); obs(ab as i8 as u64);
    check(ab == ba.reverse(), what); check(a.cmp(a) == std::cmp::Ordering::Equal, what);
    if ab != std::cmp::Ordering::Greater && bc != std::cmp::Ordering::Greater { check(ac != std::cmp::Ordering::Greater, what); if ab != std::cmp::Ordering::Equal || bc != std::cmp::Ordering::Equal { check(ac == std::cmp::Ordering::Less, what) } cover(1) }
    cover(2);
}
fn m3(lo: i64, hi: i64) -> Matrix3 { let mut m = Matrix3::zeroes(); for i in 0..3 { for j in 0..3 { m.data[i][j] = fi(lo, hi) } } m }
fn m3a(lo: i64, hi: i64) -> Matrix3 { let mut m = Matrix3::identity(); for i in 0..2 { for j in 0..3 { m.data[i][j] = fi(lo, hi) } } m }
fn m4(lo: i64, hi: i64) -> Matrix4 { let mut m = Matrix4::zeroes(); for i in 0..4 { for j in 0..4 { m.data[i][j] = fi(lo, hi) } } m }
fn m4a(lo: i64, hi: i64) -> Matrix4 { let mut m = Matrix4::identity(); for i in 0..3 { for j in 0..4 { m.data[i][j] = fi(lo, hi) } } m }
fn tr2(m: &Matrix3, p: &Point2D) -> Point2D { Point2D::new(m.data[0][0] * p.x + m.data[0][1] * p.y + m.data[0][2], m.data[1][0] * p.x + m.data[1][1] * p.y + m.data[1][2]) }
fn tr3(m: &Matrix4, p: &Point3D) -> Point3D { let f = |r: usize| m.data[r][0] * p.x + m.data[r][1] * p.y + m.data[r][2] * p.z + m.data[r][3]; Point3D::new(f(0), f(1), f(2)) }
fn b2() -> Point2D { let k = pick(0, 2); Point2D::new((k == 1) as i32 as f64, (k == 2) as i32 as f64) }
fn b3() -> Point3D { let k = pick(0, 3); Point3D::new((k == 1) as i32 as f64, (k == 2) as i32 as f64, (k == 3) as i32 as f64) }
fn c3(k: usize) -> Matrix3 { let mut m = Matrix3::identity(); m.data[0] = [[0.0, -1.0, 2.0], [1.0, 3.0, -1.0]][k]; m.data[1] = [[1.0, 2.0, -3.0], [-2.0, 0.0, 1.0]][k]; m }
fn c4(k: usize) -> Matrix4 { let mut m = Matrix4::identity(); let c = [[[0.0, -1.0, 2.0, 1.0], [1.0, 0.0, 0.0, -2.0], [0.0, 3.0, 1.0, 0.0]], [[1.0, 0.0, -1.0, 3.0], [0.0, 2.0, 0.0, 1.0], [-1.0, 0.0, 0.0, -1.0]], [[0.0, 0.0, 1.0, 0.0], [-1.0, 1.0, 0.0, 2.0], [0.0, 1.0, 0.0, 1.0]]][k]; for i in 0..3 { m.data[i] = c[i] } m }
const ANG: [(f64, i64, i64); 5] = [(0.0, 1, 0), (std::f64::consts::FRAC_PI_2, 0, 1), (std::f64::consts::PI, -1, 0), (-std::f64::consts::FRAC_PI_2, 0, -1), (1.5 * std::f64::consts::PI, 0, -1)];

fn arith2_() {
    let (a, b, k) = (p2(-8, 8), p2(-8, 8), fi(-4, 4)); let (ax, ay, bx, by) = (a.x, a.y, b.x, b.y);
    is2(&(a.clone() + b.clone()), ax + bx, ay + by, "+"); is2(&(&a + &b), ax + bx, ay + by, "+"); is2(&(&a + b.clone()), ax + bx, ay + by, "+");
    is2(&(a.clone() - b.clone()), ax - bx, ay - by, "-"); is2(&(&a - &b), ax - bx, ay - by, "-"); is2(&(&a - b.clone()), ax - bx, ay - by, "-");
    is2(&(a.clone() * k), ax * k, ay * k, "*"); is2(&(&a * k), ax * k, ay * k, "*");
    let d = [1.0, 2.0, -4.0][pick(0, 2)]; is2(&(a.clone() / d), ax / d, ay / d, "/"); is2(&(&a / d), ax / d, ay / d, "/");
    is2(&(-a.clone()), -ax, -ay, "neg"); is2(&(-&a), -ax, -ay, "neg");
    check(a.dot(&b) == ax * bx + ay * by, "dot"); check(Is2D::cross(&a, &b) == ax * by - ay * bx, "cross"); check(a.xy() == [ax, ay], "xy");
    let mut m = a.clone(); m.move_by(bx, by); is2(&m, ax + bx, ay + by, "move_by");
    let mut m = a.clone(); IsEditable2D::add(&mut m, &b); is2(&m, ax + bx, ay + by, "add"); let mut m = a.clone(); m.subtract(&b); is2(&m, ax - bx, ay - by, "subtract");
    let mut m = a.clone(); m.scale_pos(k); is2(&m, ax * k, ay * k, "scale_pos"); let mut m = a.clone(); m.set_xy(by, bx); is2(&m, by, bx, "set_xy");
    let mut m = a.clone(); m.set_x(bx); is2(&m, bx, ay, "set_x"); let mut m = a.clone(); m.set_y(by); is2(&m, ax, by, "set_y");
    let mut m = a.clone(); m.increase_distance_to_by(&b, pos(2.0)); is2(&m, bx + 2.0 * (ax - bx), by + 2.0 * (ay - by), "increase_distance_to_by");
    let mut m = a.clone(); IsBuildable2D::from(&mut m, &b); is2(&m, bx, by, "from"); is2(&Point2D::new_from(&a), ax, ay, "new_from"); is2(&Point2D::zero(), 0.0, 0.0, "zero");
    is2(&a.center(&b), (ax + bx) / 2.0, (ay + by) / 2.0, "center"); is2(&center_2d(&a, &b), (ax + bx) / 2.0, (ay + by) / 2.0, "center_2d");
    let q: Point3D = a.transform_to_3d(k); is3(&q, ax, ay, k, "transform_to_3d");
    cover(1);
}
fn arith3_() {
    let (a, b, k) = (p3(-8, 8), p3(-8, 8), fi(-4, 4)); let (ax, ay, az, bx, by, bz) = (a.x, a.y, a.z, b.x, b.y, b.z);
    is3(&(a.clone() + b.clone()), ax + bx, ay + by, az + bz, "+"); is3(&(&a + &b), ax + bx, ay + by, az + bz, "+"); is3(&(&a + b.clone()), ax + bx, ay + by, az + bz, "+");
    is3(&(a.clone() - b.clone()), ax - bx, ay - by, az - bz, "-"); is3(&(&a - &b), ax - bx, ay - by, az - bz, "-"); is3(&(&a - b.clone()), ax - bx, ay - by, az - bz, "-");
    is3(&(a.clone() * k), ax * k, ay * k, az * k, "*"); is3(&(&a * k), ax * k, ay * k, az * k, "*");
    let d = [1.0, 2.0, -4.0][pick(0, 2)]; is3(&(a.clone() / d), ax / d, ay / d, az / d, "/"); is3(&(&a / d), ax / d, ay / d, az / d, "/");
    is3(&(-a.clone()), -ax, -ay, -az, "neg"); is3(&(-&a), -ax, -ay, -az, "neg");
    check(a.dot(&b) == ax * bx + ay * by + az * bz, "dot"); let c: Point3D = cross(&a, &b); is3(&c, ay * bz - az * by, az * bx - ax * bz, ax * by - ay * bx, "cross");
    check((a.xyz() == [ax, ay, az]) & (Is3D::xy(&a) == [ax, ay]) & (a.xz() == [ax, az]) & (a.yz() == [ay, az]), "xyz, xy, xz, yz");
    is3(&conn(&a, &b), bx - ax, by - ay, bz - az, "conn");
    let mut m = a.clone(); m.move_by(bx, by, bz); is3(&m, ax + bx, ay + by, az + bz, "move_by");
    cover(1);
}
fn edit3_() {
    let (a, b, k) = (p3(-8, 8), p3(-8, 8), fi(-4, 4)); let (ax, ay, az, bx, by, bz) = (a.x, a.y, a.z, b.x, b.y, b.z);
    let mut m = a.clone(); IsEditable3D::add(&mut m, &b); is3(&m, ax + bx, ay + by, az + bz, "add"); let mut m = a.clone(); m.subtract(&b); is3(&m, ax - bx, ay - by, az - bz, "subtract");
    let mut m = a.clone(); m.scale_pos(k); is3(&m, ax * k, ay * k, az * k, "scale_pos");
    let mut m = a.clone(); m.set_x(bx); is3(&m, bx, ay, az, "set_x"); let mut m = a.clone(); m.set_y(by); is3(&m, ax, by, az, "set_y"); let mut m = a.clone(); m.set_z(bz); is3(&m, ax, ay, bz, "set_z");
    let mut m = a.clone(); m.set_xyz(bz, bx, by); is3(&m, bz, bx, by, "set_xyz"); let mut m = a.clone(); m.set_xy(bz, bx); is3(&m, bz, bx, az, "set_xy"); let mut m = a.clone(); m.set_xz(by, bx); is3(&m, by, ay, bx, "set_xz"); let mut m = a.clone(); m.set_yz(bx, bz); is3(&m, ax, bx, bz, "set_yz");
    let mut m = a.clone(); m.increase_distance_to_by(&b, pos(2.0)); is3(&m, bx + 2.0 * (ax - bx), by + 2.0 * (ay - by), bz + 2.0 * (az - bz), "increase_distance_to_by");
    let mut m = a.clone(); IsBuildable3D::from(&mut m, &b); is3(&m, bx, by, bz, "from"); is3(&Point3D::new_from(&a), ax, ay, az, "new_from"); is3(&Point3D::zero(), 0.0, 0.0, 0.0, "zero");
    is3(&a.center(&b), (ax + bx) / 2.0, (ay + by) / 2.0, (az + bz) / 2.0, "center"); is3(&center_3d(&a, &b), (ax + bx) / 2.0, (ay + by) / 2.0, (az + bz) / 2.0, "center_3d");
    let mut buf = Vec::new(); match a.center_nd(&b, &mut buf) { Ok(c) => is3(&c, (ax + bx) / 2.0, (ay + by) / 2.0, (az + bz) / 2.0, "center_nd"), Err(_) => check(false, "center_nd") }
    check(a.center_nd(&Point2D::new(bx, by), &mut buf).is_err(), "center_nd rejects other dimensions");
    let q: Point2D = a.transform_to_2d(); is2(&q, ax, ay, "transform_to_2d");
    cover(1);
}
fn mat3_() {
    let (a, b, k) = (m3(-3, 3), m3(-3, 3), fi(-3, 3));
    let (r1, r2, r3) = (&a * &b, a.clone() * b.clone(), a.clone() * &b); let (s1, s2) = (&a * k, a.clone() * k); let i = Matrix3::identity();
    for r in 0..3 { for c in 0..3 {
        let w = a.data[r][0] * b.data[0][c] + a.data[r][1] * b.data[1][c] + a.data[r][2] * b.data[2][c];
        check((r1.data[r][c] == w) & (r2.data[r][c] == w) & (r3.data[r][c] == w), "matrix product"); check((s1.data[r][c] == a.data[r][c] * k) & (s2.data[r][c] == a.data[r][c] * k), "matrix times number");
        check((i.data[r][c] == if r == c { 1.0 } else { 0.0 }) & (Matrix3::zeroes().data[r][c] == 0.0) & (Matrix3::default().data[r][c] == i.data[r][c]), "identity and zeroes");
    } } cover(1); obs_f(k);
}
fn mat4_() {
    let (a, b, k) = (m4(-3, 3), m4(-3, 3), fi(-3, 3));
    let (r1, r2, r3) = (&a * &b, a.clone() * b.clone(), a.clone() * &b); let (s1, s2) = (&a * k, a.clone() * k); let i = Matrix4::identity();
    for r in 0..4 { for c in 0..4 {
        let w = a.data[r][0] * b.data[0][c] + a.data[r][1] * b.data[1][c] + a.data[r][2] * b.data[2][c] + a.data[r][3] * b.data[3][c];
        check((r1.data[r][c] == w) & (r2.data[r][c] == w) & (r3.data[r][c] == w), "matrix product"); check((s1.data[r][c] == a.data[r][c] * k) & (s2.data[r][c] == a.data[r][c] * k), "matrix times number");
        check((i.data[r][c] == if r == c { 1.0 } else { 0.0 }) & (Matrix4::zeroes().data[r][c] == 0.0) & (Matrix4::default().data[r][c] == i.data[r][c]), "identity and zeroes");
    } } cover(1); obs_f(k);
}
fn dist_() {
    let (a, b) = (p3(-8, 8), p3(-8, 8)); let (u, v) = (p2(-8, 8), p2(-8, 8));
    let s3 = (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z); let s2 = (u.x - v.x) * (u.x - v.x) + (u.y - v.y) * (u.y - v.y);
    check(sqr_dist_3d(&a, &b) == s3, "sqr_dist_3d"); check(sqr_dist_2d(&u, &v) == s2, "sqr_dist_2d"); check(sqr_dist_nd(&a, &b).ok() == Some(s3), "sqr_dist_nd 3D"); check(sqr_dist_nd(&u, &v).ok() == Some(s2), "sqr_dist_nd 2D");
    check(sqr_dist_nd(&a, &v).is_err() & dist_nd(&u, &b).is_err(), "distances between different dimensions are errors");
    let (da, du): (&dyn Is3D, &dyn Is2D) = (&a, &u); check(*da.sqr_distance(&b) == s3, "HasDistanceTo 3D"); check(*du.sqr_distance(&v) == s2, "HasDistanceTo 2D");
    let d = sym(8) as i8; let w = match d { 0 => Some(a.x - b.x), 1 => Some(a.y - b.y), 2 => Some(a.z - b.z), _ => None };
    match (dimension_dist(&a, &b, d), w) { (Ok(x), Some(y)) => { check(x == y.abs(), "dimension_dist"); cover(1) } (Err(_), None) => cover(2), _ => check(false, "dimension_dist knows exactly dimensions 0..2") }
    match (dimension_compare(&a, &b, d), w) { (Ok(x), Some(y)) => check((x == std::cmp::Ordering::Less) == (y < 0.0) && (x == std::cmp::Ordering::Greater) == (y > 0.0), "dimension_compare"), (Err(_), None) => (), _ => check(false, "dimension_compare knows exactly dimensions 0..2") }
    obs_f(s3); obs_f(s2);
}
fn dist_root_() {
    let k = pick(0, 2); let x = fi(-60, 60); let c = [un(3.0), un(4.0), un(-5.0)];
    let mut a = Point3D::new(un(1.0), un(1.0), un(1.0)); let mut b = Point3D::new(un(1.0) + c[0], un(1.0) + c[1], un(1.0) + c[2]); a.set_position(k, x).unwrap(); b.set_position(k, un(1.0)).unwrap();
    let e = (0..3).map(|i| if i == k { (x - un(1.0)) * (x - un(1.0)) } else { c[i] * c[i] }).sum::<f64>(); let r = dist_3d(&a, &b); obs_f(r);
    check((r >= 0.0) & near2(r * r, e), "dist_3d is the root of the squared distance"); check(dist_nd(&a, &b).ok() == Some(r), "dist_nd agrees with dist_3d");
    let (u, v) = (Point2D::new(a.x, a.z), Point2D::new(b.x, b.z)); let e2 = sqr_dist_2d(&u, &v); let r = dist_2d(&u, &v); check((r >= 0.0) & near2(r * r, e2), "dist_2d is the root of the squared distance"); obs_f(r);
    let l = Is3D::abs(&a); let e = a.x * a.x + a.y * a.y + a.z * a.z; check(near2(*l * *l, e), "abs is the length"); let l = Is2D::abs(&u); check(near2(*l * *l, u.x * u.x + u.y * u.y), "abs is the length 2D");
    cover(1);
}
fn norm3_() {
    let v = [un(pick(0, 6) as f64 - 3.0), un(pick(0, 4) as f64 - 2.0), fi(-3, 3)]; let p = Point3D::new(v[0], v[1], v[2]);
    let zero = (v[0] == 0.0) & (v[1] == 0.0) & (v[2] == 0.0);
    let r = Norm3D::new(p.clone()); let q = p.normalized(); check((r.is_err() == zero) & (q.is_err() == zero), "only the zero vector has no direction");
    if let (Ok(n), Ok(m)) = (r, q) {
        let l = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]; let sq = |x: f64| x * x;
        for (a, b) in [(n.x(), v[0]), (n.y(), v[1]), (n.z(), v[2]), (m.x, v[0]), (m.y, v[1]), (m.z, v[2])] { check(near2(sq(a) * l, sq(b)) & (a * b >= 0.0) & ((b == 0.0) == (a == 0.0)), "the direction is the vector scaled to length 1"); obs_f(a) }
        let k = -&n; check((k.x() == -n.x()) & (k.y() == -n.y()) & (k.z() == -n.z()), "negated direction"); let s = &n * 2.0; is3(&s, 2.0 * n.x(), 2.0 * n.y(), 2.0 * n.z(), "scaled direction");
        let k = -n.clone(); check((k.x() == -n.x()) & (k.y() == -n.y()) & (k.z() == -n.z()), "negated direction"); let s = n.clone() * 2.0; is3(&s, 2.0 * n.x(), 2.0 * n.y(), 2.0 * n.z(), "scaled direction"); cover(1)
    } else { cover(2) }
    let ax = |n: Norm3D, x: f64, y: f64, z: f64| check((n.x() == x) & (n.y() == y) & (n.z() == z), "axis directions");
    ax(Norm3D::norm_x(), 1.0, 0.0, 0.0); ax(Norm3D::norm_y(), 0.0, 1.0, 0.0); ax(Norm3D::norm_z(), 0.0, 0.0, 1.0); ax(Norm3D::norm_x_neg(), -1.0, 0.0, 0.0); ax(Norm3D::norm_y_neg(), 0.0, -1.0, 0.0); ax(Norm3D::norm_z_neg(), 0.0, 0.0, -1.0);
}
fn norm2_() {
    let v = [un(pick(0, 8) as f64 - 4.0), fi(-8, 8)]; let p = Point2D::new(v[0], v[1]); let zero = (v[0] == 0.0) & (v[1] == 0.0);
    let r = Norm2D::new(p.clone()); let q = p.normalized(); check((r.is_err() == zero) & (q.is_err() == zero), "only the zero vector has no direction");
    if let (Ok(n), Ok(m)) = (r, q) {
        let l = v[0] * v[0] + v[1] * v[1]; let sq = |x: f64| x * x;
        for (a, b) in [(n.x(), v[0]), (n.y(), v[1]), (m.x, v[0]), (m.y, v[1])] { check(near2(sq(a) * l, sq(b)) & (a * b >= 0.0) & ((b == 0.0) == (a == 0.0)), "the direction is the vector scaled to length 1"); obs_f(a) }
        let k = -&n; check((k.x() == -n.x()) & (k.y() == -n.y()), "negated direction"); let s = &n * 2.0; is2(&s, 2.0 * n.x(), 2.0 * n.y(), "scaled direction");
        let k = -n.clone(); check((k.x() == -n.x()) & (k.y() == -n.y()), "negated direction"); let s = n.clone() * 2.0; is2(&s, 2.0 * n.x(), 2.0 * n.y(), "scaled direction"); cover(1)
    } else { cover(2) }
    let ax = |n: Norm2D, x: f64, y: f64| check((n.x() == x) & (n.y() == y), "axis directions");
    ax(Norm2D::norm_x(), 1.0, 0.0); ax(Norm2D::norm_y(), 0.0, 1.0); ax(Norm2D::norm_x_neg(), -1.0, 0.0); ax(Norm2D::norm_y_neg(), 0.0, -1.0);
}
harnesses! {
    fn h_arith2() { arith2_() }
    fn h_arith3() { arith3_() }
    fn h_edit3() { edit3_() }
    fn h_dist() { dist_() }
    fn h_dist_root() { dist_root_() }
    fn h_nd_p2() { nd::<Point2D>(2, "Point2D by dimension") } fn h_nd_p3() { nd::<Point3D>(3, "Point3D by dimension") }
    fn h_nd_box2() { nd::<Box2D>(2, "Box2D by dimension") } fn h_nd_box3() { nd::<Box3D>(3, "Box3D by dimension") }
    fn h_nd_circle() { nd::<Circle>(2, "Circle by dimension") } fn h_nd_sphere() { nd::<Sphere>(3, "Sphere by dimension") }
    fn h_nd_fsphere() { nd::<FilterSphere>(3, "FilterSphere by dimension") } fn h_nd_fbox3() { nd::<FilterBox3D>(3, "FilterBox3D by dimension") }
    fn h_nd_fcircle() { nd::<FilterCircle>(2, "FilterCircle by dimension") } fn h_nd_fbox2() { nd::<FilterBox2D>(2, "FilterBox2D by dimension") }
    fn h_axes3() { match pick(0, 4) { 0 => axes3::<Point3D>("axes of Point3D"), 1 => axes3::<Box3D>("axes of Box3D"), 2 => axes3::<Sphere>("axes of Sphere"), 3 => axes3::<FilterSphere>("axes of FilterSphere"), _ => axes3::<FilterBox3D>("axes of FilterBox3D") } }
    fn h_axes2() { match pick(0, 4) { 0 => axes2::<Point2D>("axes of Point2D"), 1 => axes2::<Box2D>("axes of Box2D"), 2 => axes2::<Circle>("axes of Circle"), 3 => axes2::<FilterCircle>("axes of FilterCircle"), _ => axes2::<FilterBox2D>("axes of FilterBox2D") } }
    fn h_norm3() { norm3_() }
    fn h_norm2() { norm2_() }
    fn h_hash_num() {
        let (a, b) = (any_f64(), any_f64());
        let (p, q) = (Positive::new(a), Positive::new(b)); if let (Some(p), Some(q)) = (p, q) { hash_ok(&p, &q, "equal Positive hash equally") }
        let (p, q) = (NonNegative::new(a), NonNegative::new(b)); if let (Some(p), Some(q)) = (p, q) { hash_ok(&p, &q, "equal NonNegative hash equally") }
    }
    fn h_hash_p2() { let (a, b) = (any_p2(), any_p2()); hash_ok(&a, &b, "equal Point2D hash equally") }
    fn h_hash_p3() { let (a, b) = (any_p3(), any_p3()); hash_ok(&a, &b, "equal Point3D hash equally") }
    fn h_hash_bb() {
        let (a, b) = (any_f64(), any_f64());
        let (p, q) = (BoundingBox3D::new(&Point3D::new(a, 0.0, -1.0), &Point3D::new(7.0, 1.0, -0.0)), BoundingBox3D::new(&Point3D::new(b, -0.0, -1.0), &Point3D::new(7.0, 1.0, 0.0)));
        if let (Ok(p), Ok(q)) = (p, q) { hash_ok(&p, &q, "equal BoundingBox3D hash equally") }
        let (p, q) = (BoundingBox2D::new(&Point2D::new(a, 0.0), &Point2D::new(7.0, 1.0)), BoundingBox2D::new(&Point2D::new(b, -0.0), &Point2D::new(7.0, 1.0)));
        if let (Ok(p), Ok(q)) = (p, q) { hash_ok(&p, &q, "equal BoundingBox2D hash equally") }
    }
    fn h_hash_shape() {
        let (a, b) = (any_f64(), any_f64());
        hash_ok(&Sphere { center: Point3D::new(1.0, 0.0, a), radius: Positive::one() }, &Sphere { center: Point3D::new(1.0, -0.0, b), radius: Positive::one() }, "equal Sphere hash equally");
        hash_ok(&Box3D { center: Point3D::new(a, 0.0, 2.0), size_x: Positive::one(), size_y: pos(2.0), size_z: pos(3.0) }, &Box3D { center: Point3D::new(b, -0.0, 2.0), size_x: Positive::one(), size_y: pos(2.0), size_z: pos(3.0) }, "equal Box3D hash equally");
        let mut c = PointCloud3D::new(); c.push(Point3D::new(a, 1.0, 0.0)); let mut d = PointCloud3D::new(); d.push(Point3D::new(b, 1.0, 0.0)); hash_ok(&c, &d, "equal PointCloud3D hash equally");
    }
    fn h_hash_dir() {
        let z = |k: usize| if k == 0 { 0.0 } else { -0.0 }; let (i, j, k) = (pick(0, 1), pick(0, 1), pick(0, 2)); let (w, w2) = if k == 0 { (3.0, 3.0) } else { (z(k - 1), 0.0) };
        let d = |m: usize, a: f64, b: f64, c: f64| { let v = match m { 0 => [a, b, c], 1 => [b, c, a], _ => [c, a, b] }; Norm3D::new(Point3D::new(v[0], v[1], v[2])).unwrap() };
        for m in 0..3 { hash_ok(&d(m, 1.0, z(i), w), &d(m, 1.0, z(j), w2), "equal Norm3D hash equally") }
        let d2 = |m: usize, a: f64| Norm2D::new(if m == 0 { Point2D::new(-2.0, a) } else { Point2D::new(a, 2.0) }).unwrap(); for m in 0..2 { hash_ok(&d2(m, z(i)), &d2(m, z(j)), "equal Norm2D hash equally") }
        let (a, b) = (any_f64(), any_f64()); let l = |x: f64, s: usize| Line3D::new(Point3D::new(1.0, x, 2.0), d(0, 1.0, z(s), 2.0)); let l2 = |x: f64, s: usize| Line2D::new(Point2D::new(x, 2.0), d2(0, z(s)));
        hash_ok(&l(a, i), &l(b, j), "equal Line3D hash equally"); hash_ok(&Ray3D::new(l(a, i)), &Ray3D::new(l(b, j)), "equal Ray3D hash equally"); hash_ok(&l2(a, i), &l2(b, j), "equal Line2D hash equally"); hash_ok(&Ray2D::new(l2(a, i)), &Ray2D::new(l2(b, j)), "equal Ray2D hash equally");
        let p = |x: f64, s: usize| Plane3D::new(Point3D::new(x, 0.0, 2.0), d(0, 1.0, z(s), 0.0), d(1, 1.0, z(s), 0.0)); hash_ok(&p(a, i), &p(b, j), "equal Plane3D hash equally");
        let s3 = |x: f64, s: usize| LineSegment3D::new(Point3D::new(0.0, 1.0, z(s)), Point3D::new(1.0, 2.0, x)); hash_ok(&s3(a, i), &s3(b, j), "equal LineSegment3D hash equally");
        let s2 = |x: f64, s: usize| LineSegment2D::new(Point2D::new(1.0, z(s)), Point2D::new(x, 2.0)); hash_ok(&s2(a, i), &s2(b, j), "equal LineSegment2D hash equally");
    }
    fn h_hash_more() {
        let (a, b) = (any_f64(), any_f64());
        let c = |x: f64, y: f64| Circle { center: Point2D::new(y, x), radius: pos(2.0) }; hash_ok(&c(a, 0.0), &c(b, -0.0), "equal Circle hash equally"); hash_ok(&FilterCircle::new(c(a, 0.0)), &FilterCircle::new(c(b, -0.0)), "equal FilterCircle hash equally");
        let c = |x: f64, y: f64| Box2D { center: Point2D::new(y, x), size_x: pos(2.0), size_y: pos(3.0) }; hash_ok(&c(a, 0.0), &c(b, -0.0), "equal Box2D hash equally"); hash_ok(&FilterBox2D::new(c(a, 0.0)), &FilterBox2D::new(c(b, -0.0)), "equal FilterBox2D hash equally");
        let c = |x: f64, y: f64| FilterSphere::new(Sphere { center: Point3D::new(y, x, 1.0), radius: pos(2.0) }); hash_ok(&c(a, 0.0), &c(b, -0.0), "equal FilterSphere hash equally");
        let c = |x: f64, y: f64| FilterBox3D::new(Box3D { center: Point3D::new(y, 1.0, x), size_x: pos(2.0), size_y: pos(3.0), size_z: pos(1.0) }); hash_ok(&c(a, 0.0), &c(b, -0.0), "equal FilterBox3D hash equally");
        let c = |x: f64, y: f64| { let mut p: PointCloud2D<Point2D> = PointCloud2D::new(); p.push(Point2D::new(1.0, y)); p.push(Point2D::new(x, 2.0)); p }; hash_ok(&c(a, 0.0), &c(b, -0.0), "equal PointCloud2D hash equally"); hash_ok(&Polygon2D::from(c(a, 0.0)), &Polygon2D::from(c(b, -0.0)), "equal Polygon2D hash equally");
        let c = |x: f64, y: f64| { let mut p = PointCloud3D::new(); p.push(Point3D::new(1.0, y, 2.0)); p.push(Point3D::new(x, 2.0, 1.0)); p.push(Point3D::new(0.0, 2.0, y)); p }; let (p, q) = (c(a, 0.0), c(b, -0.0)); hash_ok(&Polygon3D::from(p.clone()), &Polygon3D::from(q.clone()), "equal Polygon3D hash equally");
        let m = |p: &PointCloud3D<Point3D>| { let mut m: Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>> = Mesh3D::default(); for v in &p.data { m.add_vertex(v.clone()); } m.try_add_connection(VId(0), VId(1), VId(2)).unwrap(); m }; hash_ok(&m(&p), &m(&q), "equal Mesh3D hash equally");
        let r = |x: u8, y: u8| hash_ok(&Rgb::new(x, 2, y), &Rgb::new(y, 2, x), "equal Rgb hash equally"); r(byte(), byte());
    }
    fn h_ord_p() { ord_ok(&p3(-3, 3), &p3(-3, 3), &p3(-3, 3), "Point3D order"); ord_ok(&p2(-3, 3), &p2(-3, 3), &p2(-3, 3), "Point2D order"); }
    fn h_ord_shape() {
        let bx = || Box3D { center: Point3D::new(fi(-2, 2), 0.0, 1.0), size_x: pos(fi(1, 2)), size_y: pos(fi(1, 2)), size_z: pos(1.0) }; ord_ok(&bx(), &bx(), &bx(), "Box3D order");
        let sp = || Sphere { center: Point3D::new(fi(-2, 2), 0.0, 1.0), radius: pos(fi(1, 3)) }; ord_ok(&sp(), &sp(), &sp(), "Sphere order");
        let ci = || Circle { center: Point2D::new(fi(-2, 2), 0.0), radius: pos(fi(1, 3)) }; ord_ok(&ci(), &ci(), &ci(), "Circle order");
    }
    fn h_num_new() {
        let a = any_f64(); let (p, n) = (Positive::new(a), NonNegative::new(a)); obs(p.is_some() as u64); obs(n.is_some() as u64);
        check(p.is_some() == (a > 0.0), "Positive holds exactly values above 0"); check(n.is_some() == (a >= 0.0), "NonNegative holds exactly values of at least 0");
        if let Some(p) = p { check(*p == a, "Positive keeps its value"); check(*NonNegative::from(p) == a, "conversion keeps the value"); let f: f64 = p.into(); check((f == a) & (*p.as_ref() == a), "Positive converts to its value"); cover(1) }
        if let Some(n) = n { check(*n == a, "NonNegative keeps its value"); let f: f64 = n.into(); check((f == a) & (*n.as_ref() == a), "NonNegative converts to its value"); cover(2) }
        check((*Positive::one() == 1.0) & (*Positive::default() == 1.0) & (*NonNegative::zero() == 0.0) & (*NonNegative::one() == 1.0) & (*NonNegative::default() == 0.0), "constants");
    }
    fn h_num_ops() {
        let (a, b, c) = (dy(1, 16, -2), dy(1, 16, -2), dy(0, 16, -2)); let (p, q, n) = (pos(a), pos(b), NonNegative::new(c).unwrap());
        check((*(p + q) == a + b) & (*(p + n) == a + c) & (*(n + p) == a + c) & (*(n + n) == c + c), "sums"); check((*(p * q) == a * b) & (*(p * n) == a * c) & (*(n * p) == a * c) & (*(n * n) == c * c), "products");
        let mut x = p; x += q; check(*x == a + b, "+="); let mut x = p; x += n; check(*x == a + c, "+="); let mut x = p; x *= q; check(*x == a * b, "*=");
        let mut x = n; x += n; check(*x == c + c, "+="); let mut x = n; x += p; check(*x == a + c, "+="); let mut x = n; x *= n; check(*x == c * c, "*="); let mut x = n; x *= p; check(*x == a * c, "*=");
        let d = [0.5, 1.0, 2.0, 4.0][pick(0, 3)]; let (dp, dn) = (pos(d), NonNegative::new(d).unwrap()); check((*(p / dp) == a / d) & (*(p / dn) == a / d) & (*(n / dp) == c / d) & (*(n / dn) == c / d), "quotients");
        let mut x = n; x /= dp; check(*x == c / d, "/="); let mut x = n; x /= dn; check(*x == c / d, "/=");
        check((p < q) == (a < b), "order of Positive"); check((p == q) == (a == b), "equality of Positive");
        let s = p.sqrt(); check((*s > 0.0) & near(*s * *s, a), "root of Positive"); let s = n.sqrt(); check((*s >= 0.0) & near(*s * *s, c), "root of NonNegative"); obs_f(*s); obs_f(a * b); cover(1);
    }
    fn h_num_same() {
        // every operator, also in place, on arbitrary doubles
        let (a, b) = (any_f64(), any_f64()); let lo = f64::from_bits((1023 - 400) << 52); let hi = f64::from_bits((1023 + 400) << 52); assume((a >= lo) & (a <= hi) & (b >= lo) & (b <= hi));
        let (p, q, n, m) = (pos(a), pos(b), NonNegative::new(a).unwrap(), NonNegative::new(b).unwrap());
        let ok = |x: f64, w: f64| check(same_bits(x, w), "arithmetic on numbers with a sign is that of their values");
        match pick(0, 2) {
            0 => { let w = a + b; ok(*(p + q), w); ok(*(p + m), w); ok(*(n + q), w); ok(*(n + m), w); let mut x = p; x += q; ok(*x, w); let mut x = p; x += m; ok(*x, w); let mut x = n; x += q; ok(*x, w); let mut x = n; x += m; ok(*x, w) }
            1 => { let w = a * b; ok(*(p * q), w); ok(*(p * m), w); ok(*(n * q), w); ok(*(n * m), w); let mut x = p; x *= q; ok(*x, w); let mut x = n; x *= q; ok(*x, w); let mut x = n; x *= m; ok(*x, w) }
            _ => { let w = a / b; ok(*(p / q), w); ok(*(p / m), w); ok(*(n / q), w); ok(*(n / m), w); let mut x = n; x /= q; ok(*x, w); let mut x = n; x /= m; ok(*x, w) }
        }
        cover(1);
    }
    fn h_num_sign() {
        let (a, b) = (any_f64(), any_f64()); let lo = f64::from_bits((1023 - 500) << 52); let hi = f64::from_bits((1023 + 500) << 52);
        assume((a >= lo) & (a <= hi) & (b >= lo) & (b <= hi)); let (p, q) = (pos(a), pos(b));
        check(*(p + q) > 0.0, "sums of positive numbers are positive"); check(*(p * q) > 0.0, "products of positive numbers are positive"); cover(1);
    }
    fn h_minmax() {
        let (a, b) = (fin_f64(), fin_f64()); let (mn, mx) = (min64(a, b), max64(a, b)); obs_f(mn); obs_f(mx);
        check((mn <= a) & (mn <= b) & ((mn == a) | (mn == b)), "min64 is the smaller value"); check((mx >= a) & (mx >= b) & ((mx == a) | (mx == b)), "max64 is the bigger value"); cover(1);
    }
    fn h_mat3() { mat3_() }
    fn h_mat4() { mat4_() }
    fn h_trans3() {
        let (a, b, p) = (m3a(-2, 2), m3a(-2, 2), p2(-3, 3)); let w = tr2(&a, &p); is2(&p.transformed(&a), w.x, w.y, "transformed"); let mut q = p.clone(); q.transform(&a); is2(&q, w.x, w.y, "transform"); is2(&p.multiply_m(&a), w.x, w.y, "multiply_m");
        let (a, p) = (c3(pick(0, 1)), b2()); let w = tr2(&a, &tr2(&b, &p)); is2(&p.transformed(&(&a * &b)), w.x, w.y, "transforming by a product applies the right factor first");
        let (x, y) = (fi(-3, 3), fi(-3, 3)); is2(&p.transformed(&Matrix3::translation(x, y)), p.x + x, p.y + y, "translation"); is2(&p.transformed(&Matrix3::scale(x, y)), p.x * x, p.y * y, "scale"); is2(&p.transformed(&Matrix3::identity()), p.x, p.y, "identity"); cover(1);
    }
    fn h_trans4() {
        let (a, b, p) = (m4a(-2, 2), m4a(-1, 1), p3(-3, 3)); let w = tr3(&a, &p); is3(&p.transformed(&a), w.x, w.y, w.z, "transformed"); let mut q = p.clone(); q.transform(&a); is3(&q, w.x, w.y, w.z, "transform"); is3(&p.multiply_m(&a), w.x, w.y, w.z, "multiply_m");
        let (a, p) = (c4(pick(0, 1)), b3()); let w = tr3(&a, &tr3(&b, &p)); is3(&p.transformed(&(&a * &b)), w.x, w.y, w.z, "transforming by a product applies the right factor first");
        let (x, y, z) = (fi(-3, 3), fi(-3, 3), fi(-3, 3)); is3(&p.transformed(&Matrix4::translation(x, y, z)), p.x + x, p.y + y, p.z + z, "translation"); is3(&p.transformed(&Matrix4::scale(x, y, z)), p.x * x, p.y * y, p.z * z, "scale"); is3(&p.transformed(&Matrix4::identity()), p.x, p.y, p.z, "identity"); cover(1);
    }
    fn h_named3() {
        // translations, scales and rotations as either factor of a product
        let (x, y, p) = (fi(-3, 3), fi(-3, 3), b2()); let a = c3(pick(0, 1)); let r = Matrix3::rotation(Rad(0.0)); let k = pick(0, 3);
        let m = match k { 0 => Matrix3::translation(x, y), 1 => Matrix3::scale(x, y), 2 => Matrix3::identity(), _ => r };
        let f = |p: &Point2D| match k { 0 => Point2D::new(p.x + x, p.y + y), 1 => Point2D::new(p.x * x, p.y * y), _ => p.clone() };
        let w = tr2(&a, &f(&p)); is2(&p.transformed(&(&a * &m)), w.x, w.y, "translation, scale and rotation matrices compose"); let w = f(&tr2(&a, &p)); is2(&p.transformed(&(&m * &a)), w.x, w.y, "translation, scale and rotation matrices compose");
        let t = &(&a * &m) * &a; let w = tr2(&a, &f(&tr2(&a, &p))); is2(&p.transformed(&t), w.x, w.y, "translation, scale and rotation matrices compose"); cover(1);
    }
    fn h_named4() {
        let (x, y, z, p) = (fi(-3, 3), fi(-3, 3), fi(-3, 3), b3()); let a = c4(pick(0, 1)); let k = pick(0, 3);
        let m = match k { 0 => Matrix4::translation(x, y, z), 1 => Matrix4::scale(x, y, z), 2 => Matrix4::identity(), _ => Matrix4::rotation(Rad(0.0), Rad(0.0), Rad(0.0)) };
        let f = |p: &Point3D| match k { 0 => Point3D::new(p.x + x, p.y + y, p.z + z), 1 => Point3D::new(p.x * x, p.y * y, p.z * z), _ => p.clone() };
        let w = tr3(&a, &f(&p)); is3(&p.transformed(&(&a * &m)), w.x, w.y, w.z, "translation, scale and rotation matrices compose"); let w = f(&tr3(&a, &p)); is3(&p.transformed(&(&m * &a)), w.x, w.y, w.z, "translation, scale and rotation matrices compose");
        let t = &(&a * &m) * &a; let w = tr3(&a, &f(&tr3(&a, &p))); is3(&p.transformed(&t), w.x, w.y, w.z, "translation, scale and rotation matrices compose"); cover(1);
    }
    fn h_pipe3() {
        let (tx, ty, sx, sy, p) = (fi(-3, 3), fi(-3, 3), fi(-3, 3), fi(-3, 3), p2(-3, 3)); let rot = m3a(-1, 1);
        let mut m = Matrix3Pipe::default(); let (t, r, s) = (bit(), bit(), bit());
        if bit() { m.add_translation(sy, sx); m.add_scale(tx, ty); m.mrotation = Matrix3::zeroes(); m.remove_translation(); m.remove_scale(); m.remove_rotation(); }
        if t { m.add_translation(tx, ty) } if r { m.mrotation = rot.clone() } if s { m.add_scale(sx, sy) }
        let mut w = p.clone(); if s { w = Point2D::new(w.x * sx, w.y * sy) } if r { w = tr2(&rot, &w) } if t { w = Point2D::new(w.x + tx, w.y + ty) }
        is2(&p.transformed(&m.result()), w.x, w.y, "pipe scales, rotates, translates"); if t & r & s { cover(1) }
        let a = ANG[pick(0, 4)].0; m.add_rotation(Rad(a)); check(m.mrotation == Matrix3::rotation(Rad(a)), "pipe holds the rotation");
    }
    fn h_pipe4() {
        let (tx, ty, tz, sx, sy, sz, p) = (fi(-2, 2), fi(-2, 2), fi(-2, 2), fi(-2, 2), fi(-2, 2), fi(-2, 2), b3()); let (rot, look, persp) = (c4(0), c4(1), c4(2));
        let mut m = Matrix4Pipe::default(); let k = pick(0, 63);
        if bit() { m.add_translation(sy, sx, tz); m.add_scale(tx, ty, tz); m.add_camera_translation(sx, sy, sz); m.mrotation = Matrix4::zeroes(); m.mcamlook = Matrix4::zeroes(); m.mperspective = Matrix4::zeroes();
            m.remove_translation(); m.remove_scale(); m.remove_rotation(); m.remove_camera_translation(); m.remove_look_at(); m.remove_perspective(); }
        let on = |i: usize| k >> i & 1 == 1;
        if on(0) { m.add_translation(tx, ty, tz) } if on(1) { m.mrotation = rot.clone() } if on(2) { m.add_scale(sx, sy, sz) } if on(3) { m.add_camera_translation(sz, sx, sy) } if on(4) { m.mcamlook = look.clone() } if on(5) { m.mperspective = persp.clone() }
        let mut w = p.clone(); if on(2) { w = Point3D::new(w.x * sx, w.y * sy, w.z * sz) } if on(1) { w = tr3(&rot, &w) } if on(0) { w = Point3D::new(w.x + tx, w.y + ty, w.z + tz) }
        if on(3) { w = Point3D::new(w.x - sz, w.y - sx, w.z - sy) } if on(4) { w = tr3(&look, &w) } if on(5) { w = tr3(&persp, &w) }
        is3(&p.transformed(&m.result()), w.x, w.y, w.z, "pipe scales, rotates, translates, moves the camera, looks, projects"); cover(1);
    }
    fn h_rot2() {
        let (a, c, s) = ANG[pick(0, 4)]; let (c, s) = (c as f64, s as f64); let (y, cx) = (pick(0, 6) as f64 - 3.0, pick(0, 2) as f64 - 1.0); let x = fi(-3, 3); let p = Point2D::new(x, y);
        let r = p.transformed(&Matrix3::rotation(Rad(a))); check(near(r.x, c * x - s * y) & near(r.y, s * x + c * y), "rotation matrix 2D"); obs2(&r);
        let mut m = Matrix3Pipe::default(); m.add_rotation(Rad(a)); let q = p.transformed(&m.result()); check(near(r.x, q.x) & near(r.y, q.y), "rotation by the pipe");
        let ce = Point2D::new(cx, 1.0); let mut q = p.clone(); q.rotate(Rad(a), &ce); check(near(q.x, cx + c * (x - cx) - s * (y - 1.0)) & near(q.y, 1.0 + s * (x - cx) + c * (y - 1.0)), "rotation about a center"); obs2(&q); cover(1);
    }
    fn h_rot3() {
        let k = pick(0, 2); let (a, c, s) = ANG[pick(0, 4)]; let (c, s) = (c as f64, s as f64); let (y, z) = (pick(0, 4) as f64 - 2.0, pick(0, 4) as f64 - 2.0); let x = fi(-3, 3); let p = Point3D::new(x, y, z); let o = Rad(0.0);
        let (m, n) = match k { 0 => (Matrix4::rotation(Rad(a), o, o), Norm3D::norm_x()), 1 => (Matrix4::rotation(o, Rad(a), o), Norm3D::norm_y()), _ => (Matrix4::rotation(o, o, Rad(a)), Norm3D::norm_z()) };
        let w = match k { 0 => [x, c * y - s * z, s * y + c * z], 1 => [c * x + s * z, y, c * z - s * x], _ => [c * x - s * y, s * x + c * y, z] };
        let r = p.transformed(&m); check(near(r.x, w[0]) & near(r.y, w[1]) & near(r.z, w[2]), "rotation about an axis (Euler)"); obs3(&r);
        let r = p.transformed(&Matrix4::rotation_axis(&n, Rad(a))); check(near(r.x, w[0]) & near(r.y, w[1]) & near(r.z, w[2]), "rotation about an axis"); obs3(&r);
        let mut m = Matrix4Pipe::default(); m.add_rotation_axis(&n, Rad(a)); let r = p.transformed(&m.result()); check(near(r.x, w[0]) & near(r.y, w[1]) & near(r.z, w[2]), "rotation about an axis by the pipe"); cover(1);
    }
    fn h_rot3_mul() {
        let i = [pick(0, 3), pick(0, 3), pick(0, 3)]; let f = |k: usize| Rad(ANG[i[k]].0); let o = Rad(0.0); let p = Point3D::new(1.0, 2.0, 3.0);
        let m = Matrix4::rotation(f(0), f(1), f(2)); let w = p.transformed(&Matrix4::rotation(o, o, f(2))).transformed(&Matrix4::rotation(o, f(1), o)).transformed(&Matrix4::rotation(f(0), o, o)); let r = p.transformed(&m);
        check(near(r.x, w.x) & near(r.y, w.y) & near(r.z, w.z), "combined rotation turns about z, then y, then x"); obs3(&r);
        let mut q = Matrix4Pipe::default(); q.add_rotation(f(0), f(1), f(2)); check(q.mrotation == m, "pipe holds the rotation"); cover(1);
    }
    fn h_look_at() {
        let s = fi(-8, 8); let k = pick(0, 2); let o = [[0.0, 0.0], [3.0, -2.0], [0.0, 4.0]][pick(0, 2)]; let t = match k { 0 => Point3D::new(s, o[0], o[1]), 1 => Point3D::new(o[0], s, o[1]), _ => Point3D::new(o[0], o[1], s) };
        let up = Norm3D::new([Point3D::new(0.0, 0.0, 1.0), Point3D::new(0.0, 2.0, 0.0), Point3D::new(1.0, 1.0, -1.0)][pick(0, 2)].clone()).unwrap(); let u = Point3D::new(up.x(), up.y(), up.z()); let c: Point3D = cross(&u, &t);
        match Matrix4::look_at(&t, &up) { Err(_) => { obs(0); check((c.x == 0.0) & (c.y == 0.0) & (c.z == 0.0), "a target beside the up direction can be looked at"); cover(2) }
            Ok(m) => { let (r, w) = (t.transformed(&m), u.transformed(&m)); obs3(&r); obs3(&w); let l = (t.x * t.x + t.y * t.y + t.z * t.z).sqrt(); check(near(r.x, 0.0) & near(r.y, 0.0) & near(r.z, l), "the target lies straight ahead, in its distance"); check(near(w.x, 0.0) & (w.y > 0.0) & near(w.y * w.y + w.z * w.z, 1.0), "up stays up and keeps its length");
                let z = Point3D::new(0.0, 0.0, 0.0).transformed(&m); check(eq3(&z, &Point3D::new(0.0, 0.0, 0.0)), "the eye stays at the origin"); let q = c.transformed(&m); check(near(q.x * q.x, c.x * c.x + c.y * c.y + c.z * c.z) & (q.x > 0.0) & near(q.y, 0.0) & near(q.z, 0.0), "sideways stays sideways and keeps its length"); cover(1) } }
    }
    fn h_rot_axis() {
        // about an arbitrary axis: the axis stays, lengths and angles to the axis stay, orientation by the right hand rule
        let ax = [[1.0, 1.0, 0.0], [0.0, 1.0, -1.0], [1.0, 1.0, 1.0], [1.0, -2.0, 2.0], [-1.0, 0.0, 1.0]][pick(0, 4)]; let a = [0.5, 1.0, 2.0, -1.0][pick(0, 3)]; let x = fi(-3, 3); let v = Point3D::new(x, 1.0, -2.0);
        let n = Norm3D::new(Point3D::new(ax[0], ax[1], ax[2])).unwrap(); let m = Matrix4::rotation_axis(&n, Rad(a)); let r = v.transformed(&m); obs3(&r);
        let nn = Point3D::new(n.x(), n.y(), n.z()); let k = nn.transformed(&m); check(near(k.x, nn.x) & near(k.y, nn.y) & near(k.z, nn.z), "the axis stays");
        let c: Point3D = cross(&nn, &v); let d = nn.dot(&v) * (1.0 - a.cos());
        check(near(r.x, v.x * a.cos() + c.x * a.sin() + nn.x * d) & near(r.y, v.y * a.cos() + c.y * a.sin() + nn.y * d) & near(r.z, v.z * a.cos() + c.z * a.sin() + nn.z * d), "rotation about an arbitrary axis follows the right hand rule"); cover(1);
    }
    fn h_arith_mag() { mag(); match pick(0, 2) { 0 => arith2_(), 1 => arith3_(), _ => edit3_() } }
    fn h_dist_mag() { mag(); dist_() }
    fn h_root_mag() { mag_odd(); dist_root_() }
    fn h_norm_mag() { mag_odd(); if bit() { norm3_() } else { norm2_() } }
    fn h_mat_mag() { mag(); if bit() { mat3_() } else { mat4_() } }
    fn h_arith_any() {
        let (a, b, k) = (any_p3(), any_p3(), any_f64()); let (u, v) = (Point2D::new(a.x, a.y), Point2D::new(b.x, b.y)); let (ax, ay, az, bx, by, bz) = (a.x, a.y, a.z, b.x, b.y, b.z);
        match pick(0, 3) {
            0 => { is2(&(u.clone() + v.clone()), ax + bx, ay + by, "+"); is2(&(&u + &v), ax + bx, ay + by, "+"); is2(&(u.clone() - v.clone()), ax - bx, ay - by, "-"); is2(&(&u - &v), ax - bx, ay - by, "-");
                is3(&(a.clone() + b.clone()), ax + bx, ay + by, az + bz, "+"); is3(&(&a + &b), ax + bx, ay + by, az + bz, "+"); is3(&(a.clone() - b.clone()), ax - bx, ay - by, az - bz, "-"); is3(&(&a - &b), ax - bx, ay - by, az - bz, "-"); is3(&conn(&a, &b), bx - ax, by - ay, bz - az, "conn") }
            1 => { is2(&(u.clone() * k), ax * k, ay * k, "*"); is2(&(&u * k), ax * k, ay * k, "*"); is3(&(a.clone() * k), ax * k, ay * k, az * k, "*"); is3(&(&a * k), ax * k, ay * k, az * k, "*"); let mut m = a.clone(); m.scale_pos(k); is3(&m, ax * k, ay * k, az * k, "scale_pos"); let mut m = u.clone(); m.scale_pos(k); is2(&m, ax * k, ay * k, "scale_pos") }
            2 => { let d = [3.0, -0.1, 1e100][pick(0, 2)]; is2(&(u.clone() / d), ax / d, ay / d, "/"); is2(&(&u / d), ax / d, ay / d, "/"); is3(&(a.clone() / d), ax / d, ay / d, az / d, "/"); is3(&(&a / d), ax / d, ay / d, az / d, "/"); is2(&(-u.clone()), -ax, -ay, "neg"); is2(&(-&u), -ax, -ay, "neg"); is3(&(-a.clone()), -ax, -ay, -az, "neg"); is3(&(-&a), -ax, -ay, -az, "neg") }
            _ => { let mut m = u.clone(); m.move_by(bx, by); is2(&m, ax + bx, ay + by, "move_by"); let mut m = a.clone(); m.move_by(bx, by, bz); is3(&m, ax + bx, ay + by, az + bz, "move_by"); let mut m = a.clone(); IsEditable3D::add(&mut m, &b); is3(&m, ax + bx, ay + by, az + bz, "add"); let mut m = a.clone(); m.subtract(&b); is3(&m, ax - bx, ay - by, az - bz, "subtract");
                let mut m = u.clone(); IsEditable2D::add(&mut m, &v); is2(&m, ax + bx, ay + by, "add"); let mut m = u.clone(); m.subtract(&v); is2(&m, ax - bx, ay - by, "subtract"); let q: Point3D = u.transform_to_3d(k); is3(&q, ax, ay, k, "transform_to_3d"); let q: Point2D = a.transform_to_2d(); is2(&q, ax, ay, "transform_to_2d") }
        }
        cover(1);
    }
}

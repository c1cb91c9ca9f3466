//! collections of points, polygons, sorting, hulls, rays, segments
use crate::util::*;
use crate::vp::*;
use rust_3d::*;
use std::collections::{LinkedList, VecDeque};

fn pos(x: f64) -> Positive { match Positive::new(x) { Some(p) => p, None => { check(false, "Positive::new accepts positive values"); Positive::one() } } }
fn near(a: f64, b: f64) -> bool { let t = un(1e-9); (a - b <= t) & (b - a <= t) }
fn bits3(a: &Point3D, b: &Point3D) -> bool { same_bits(a.x, b.x) & same_bits(a.y, b.y) & same_bits(a.z, b.z) }
fn bits2(a: &Point2D, b: &Point2D) -> bool { same_bits(a.x, b.x) & same_bits(a.y, b.y) }
fn pc3(v: &[Point3D]) -> PointCloud3D<Point3D> { let mut p = PointCloud3D::new(); for x in v { p.push(x.clone()) } p }
fn pc2(v: &[Point2D]) -> PointCloud2D<Point2D> { let mut p = PointCloud2D::new(); for x in v { p.push(x.clone()) } p }
fn count2(v: &[Point2D], p: &Point2D) -> usize { let mut n = 0; for q in v { n += eq2(p, q) as usize } n }
fn count3(v: &[Point3D], p: &Point3D) -> usize { let mut n = 0; for q in v { n += eq3(p, q) as usize } n }
fn same3(a: &[Point3D], b: &[Point3D], what: &str) { check(a.len() == b.len(), what); for i in 0..a.len().min(b.len()) { check(bits3(&a[i], &b[i]), what); obs3(&a[i]) } }
fn same2(a: &[Point2D], b: &[Point2D], what: &str) { check(a.len() == b.len(), what); for i in 0..a.len().min(b.len()) { check(bits2(&a[i], &b[i]), what); obs2(&a[i]) } }
fn f32eq(a: f64, b: f64) -> bool { same_bits(a, b as f32 as f64) }

/// the container under test behaves like a sequence: a history of operations against a model
fn seq3<C: IsPushable<Point3D> + IsRandomAccessible<Point3D> + IsRandomInsertible<Point3D> + Default>(front: bool) {
    let mut c = C::default(); let mut m: Vec<Point3D> = Vec::new();
    for s in 0..4 {
        let p = Point3D::new(any_f64(), s as f64, -1.0);
        match pick(0, 2) {
            0 => { c.push(p.clone()); m.push(p); }
            1 => {
                let i = us(0, 5); let i = conc(i as u64) as usize;
                let r = c.insert(i, p.clone()); obs(r.is_ok() as u64);
                if i < m.len() || (front && i == m.len()) { check(r.is_ok(), "insert at an index of the sequence succeeds"); m.insert(i, p); cover(1) }
                else if i > m.len() { check(r.is_err(), "insert beyond the end is refused"); cover(2) }
                else if r.is_ok() { m.insert(i, p) }
            }
            _ => { if !m.is_empty() { let i = conc(us(0, m.len() - 1) as u64) as usize; c[i] = p.clone(); m[i] = p; } }
        }
        check(c.len() == m.len(), "the length counts the elements");
        for i in 0..m.len().min(c.len()) { check(bits3(&c[i], &m[i]), "elements keep their order and value"); obs3(&c[i]) }
    }
}
fn dc3<C: IsDataContainer<Point3D> + Default>(exact: bool) {
    let mut c = C::default(); let mut m: Vec<Point3D> = Vec::new(); let n = pick(0, 2);
    let p = any_p3(); if !exact { assume((p.x == p.x) & (p.y == p.y) & (p.z == p.z)); }
    for s in 0..n { let q = if s == 0 { p.clone() } else { Point3D::new(s as f64, 0.5, -2.0) }; c.reserve_d(3); c.push_d(q.clone()); m.push(q); }
    if n > 0 && pick(0, 1) == 1 { let i = pick(0, n - 1); let q = Point3D::new(8.0, any_f64(), -7.0); if !exact { assume(q.y == q.y); } c.set_d(i, q.clone()); m[i] = q; }
    check(c.len_d() == m.len(), "the length counts the elements");
    let i = sym(64) as usize; let g = c.get_d(i); check(g.is_some() == (i < m.len()), "get_d finds an element exactly below the length"); obs(g.is_some() as u64);
    for k in 0..m.len() { match c.get_d(k) { Some(q) => { check(if exact { bits3(&q, &m[k]) } else { f32eq(q.x, m[k].x) & f32eq(q.y, m[k].y) & f32eq(q.z, m[k].z) }, "elements keep their order and value"); obs3(&q); cover(1) } None => check(false, "get_d finds an element exactly below the length") } }
}
fn seg_ids<P>(n: usize, p: &dyn IsPolygon<P>) {
    check((p.num_segments() == n) & (p.num_vertices() == n), "a polygon has as many segments as vertices");
    let s = sym(64) as usize; let ids = p.segment_vertex_ids(SId(s));
    check(ids.is_some() == (s < n), "segment ids below num_segments are valid, others not");
    check(p.vertex(VId(s)).is_some() == (s < n), "vertex ids below num_vertices are valid, others not");
    check(p.segment_vertices(SId(s)).is_some() == (s < n), "segment ids below num_segments are valid, others not");
    if let Some((a, b)) = ids { check((a.0 == s) & (b.0 == if s + 1 == n { 0 } else { s + 1 }), "segment i connects vertex i to its successor, the last to the first"); obs(a.0 as u64); obs(b.0 as u64); cover(1) } else { cover(2) }
}
fn sorted3(f: usize, ps: &[Point3D]) {
    let mut c = pc3(ps);
    match f { 0 => c.sort_x(), 1 => c.sort_y(), 2 => c.sort_z(), k => { check(c.sort_dim(k - 3).is_ok(), "sort_dim accepts the dimensions") } }
    check(c.len() == ps.len(), "sorting keeps the points");
    for p in ps { check(count3(&c.data, p) == count3(ps, p), "sorting keeps the points"); }
    for i in 1..c.len() { let (a, b) = (c.data[i - 1].clone(), c.data[i].clone()); check([a.x <= b.x, a.y <= b.y, a.z <= b.z][f % 3], "sorted by the dimension"); cover(1) }
    for p in &c.data { obs3(p) }
}
fn sorted2(f: usize, ps: &[Point2D]) {
    let mut c = pc2(ps);
    match f { 0 => c.sort_x(), 1 => c.sort_y(), k => { check(c.sort_dim(k - 2).is_ok(), "sort_dim accepts the dimensions") } }
    check(c.len() == ps.len(), "sorting keeps the points");
    for p in ps { check(count2(&c.data, p) == count2(ps, p), "sorting keeps the points"); }
    for i in 1..c.len() { let (a, b) = (c.data[i - 1].clone(), c.data[i].clone()); check([a.x <= b.x, a.y <= b.y][f % 2], "sorted by the dimension"); cover(1) }
    for p in &c.data { obs2(p) }
}
fn cr(a: &Point2D, b: &Point2D, c: &Point2D) -> f64 { (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x) }
fn hull(ps: &[Point2D]) {
    let h = convex_hull_2d(&pc2(ps)); let n = h.len();
    obs(n as u64); for p in &h { obs2(p) }
    check((n == 0) == ps.is_empty(), "the hull of a non empty cloud is not empty");
    for p in &h { check(count2(ps, p) > 0, "hull points are points of the cloud"); }
    if n >= 3 {
        for i in 0..n { let (a, b) = (&h[i], &h[(i + 1) % n]); check(cr(a, b, &h[(i + 2) % n]) > 0.0, "the hull turns left at every corner"); for p in ps { check(cr(a, b, p) >= 0.0, "every point is within the hull"); } }
        cover(1)
    } else if n == 2 {
        check(count2(&h, &h[0]) == 1, "hull corners are distinct");
        for p in ps { check(cr(&h[0], &h[1], p) == 0.0, "every point is within the hull"); let d = (h[1].x - h[0].x) * (p.x - h[0].x) + (h[1].y - h[0].y) * (p.y - h[0].y); let l = (h[1].x - h[0].x) * (h[1].x - h[0].x) + (h[1].y - h[0].y) * (h[1].y - h[0].y); check((d >= 0.0) & (d <= l), "every point is within the hull"); }
        cover(2)
    } else if n == 1 { for p in ps { check(eq2(p, &h[0]), "every point is within the hull"); } cover(3) }
}
fn g2(n: usize, hi: i64) -> Vec<Point2D> { (0..n).map(|_| p2(0, hi)).collect() }
fn dp(ps: &[Point2D], eps: f64, what: &str) {
    let r = douglas_peucker_2d(pc2(ps), eps); let n = ps.len(); let k = r.len();
    obs(k as u64); for p in &r.data { obs2(p) }
    check((k <= n) & ((k == 0) == (n == 0)), what);
    if k == 0 { return }
    check(eq2(&r.data[0], &ps[0]) & eq2(&r.data[k - 1], &ps[n - 1]), "the first and last point are kept");
    // the result is a subsequence
    // the kept points are a subsequence, and every point left out is within eps of the line through its kept neighbours (checked for some matching; points are distinct)
    let mut kept = vec![false; n]; let mut j = 0;
    for i in 0..n { let h = j < k && eq2(&ps[i], &r.data[j]); if h { kept[i] = true; j += 1 } }
    check(j == k, "the result is a subsequence of the points");
    let mut last = 0;
    for i in 1..n { if kept[i] {
        let (a, b) = (&ps[last], &ps[i]); let l2 = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y);
        for m in last + 1..i { let c = cr(a, b, &ps[m]); check(c * c <= eps * eps * l2, "points left out are within epsilon of the simplified line"); cover(1) }
        if i > last + 1 { cover(2) } last = i } }
    if k == n { cover(3) }
}

fn c4(k: usize) -> Matrix4 { let mut m = Matrix4::identity(); let c = [[[0.0, -1.0, 2.0, 1.0], [1.0, 0.0, 0.0, -2.0], [0.0, 3.0, 1.0, 0.0]], [[1.0, 0.0, -1.0, 3.0], [0.0, 2.0, 0.0, 1.0], [-1.0, 0.0, 0.0, -1.0]]][k]; for i in 0..3 { m.data[i] = c[i]; m.data[i][3] = un(c[i][3]) } m }
fn c3(k: usize) -> Matrix3 { let mut m = Matrix3::identity(); m.data[0] = [[0.0, -1.0, 2.0], [1.0, 3.0, -1.0]][k]; m.data[1] = [[1.0, 2.0, -3.0], [-2.0, 0.0, 1.0]][k]; m.data[0][2] = un(m.data[0][2]); m.data[1][2] = un(m.data[1][2]); m }
fn m3p(m: &Matrix4, p: &Point3D) -> Point3D { let f = |r: usize| m.data[r][0] * p.x + m.data[r][1] * p.y + m.data[r][2] * p.z + m.data[r][3]; Point3D::new(f(0), f(1), f(2)) }
fn m2p(m: &Matrix3, p: &Point2D) -> Point2D { let f = |r: usize| m.data[r][0] * p.x + m.data[r][1] * p.y + m.data[r][2]; Point2D::new(f(0), f(1)) }
/// rotate the roles of the axes
fn ax(a: usize, u: f64, v: f64, w: f64) -> Point3D { match a { 0 => Point3D::new(u, v, w), 1 => Point3D::new(w, u, v), _ => Point3D::new(v, w, u) } }
fn cp2(hi: usize) -> Point2D { up2(pick(0, hi) as f64, pick(0, hi) as f64) }
/// position in units
fn up2(x: f64, y: f64) -> Point2D { Point2D::new(un(x), un(y)) }
fn uax(a: usize, u: f64, v: f64, w: f64) -> Point3D { ax(a, un(u), un(v), un(w)) }
fn nax(a: usize, s: f64) -> Norm3D { match Norm3D::new(ax(a, 0.0, 0.0, s)) { Ok(n) => n, Err(_) => { check(false, "axis directions can be normalized"); Norm3D::norm_x() } } }
fn ray(o: Point3D, d: Norm3D) -> Ray3D { Ray3D::new(Line3D::new(o, d)) }
fn ray_tri(a: usize, o: &Point2D, h: f64, sgn: f64, t: &[Point2D; 3]) {
    // triangle in the plane w = 1, ray from (o, h) along +-w
    let v: Vec<Point3D> = t.iter().map(|p| ax(a, p.x, p.y, un(1.0))).collect();
    let r = intersection_ray_triangle(&ray(ax(a, o.x, o.y, h), nax(a, sgn)), &v[0], &v[1], &v[2]);
    let (c1, c2, c3) = (cr(&t[0], &t[1], o), cr(&t[1], &t[2], o), cr(&t[2], &t[0], o)); let area = cr(&t[0], &t[1], &t[2]);
    let ins = ((area > 0.0) & (c1 > 0.0) & (c2 > 0.0) & (c3 > 0.0)) | ((area < 0.0) & (c1 < 0.0) & (c2 < 0.0) & (c3 < 0.0));
    let out = ((area > 0.0) & ((c1 < 0.0) | (c2 < 0.0) | (c3 < 0.0))) | ((area < 0.0) & ((c1 > 0.0) | (c2 > 0.0) | (c3 > 0.0)));
    let ahead = (un(1.0) - h) * sgn > 0.0; let behind = (un(1.0) - h) * sgn < 0.0;
    obs(r.is_some() as u64);
    match r { Some(p) => { check(!out & !behind, "a ray hits no triangle it misses or has behind it"); let w = ax(a, o.x, o.y, un(1.0)); check(eq3(&p, &w) | (area == 0.0), "the hit is where the ray crosses the triangle"); obs3(&p); cover(1) } None => { check(!(ins & ahead), "a ray hits every triangle whose inside it crosses"); cover(2) } }
}
struct BB(BoundingBox3D, u64);
impl HasBoundingBox3DMaybe for BB { fn bounding_box_maybe(&self) -> Option<BoundingBox3D> { if self.1 == 99 { None } else { Some(self.0.clone()) } } }
fn bbx(a: usize, u: f64, v: f64, w: f64, l: f64) -> BoundingBox3D { match BoundingBox3D::new(&ax(a, u, v, w), &ax(a, u + un(1.0), v + un(1.0), w + un(l))) { Ok(b) => b, Err(_) => { check(false, "a box can be built from ordered corners"); panic!() } } }
fn closest(a: usize, sgn: f64, n: usize) {
    // boxes of size 1 along w; the ray runs along +-w through (0.5, 0.5); a box may lie beside the ray
    let o = un(3.5); let h5 = un(0.5); let mut ws = Vec::new(); let mut on = Vec::new(); let mut v = Vec::new();
    for i in 0..n { let w = fi(0, 6); assume(w != un(3.0)); let b = pick(0, 1) == 1; let u = if b { 0.0 } else { un(2.0) }; ws.push(w); on.push(b); v.push(BB(bbx(a, u, 0.0, w, 1.0), i as u64)); }
    if pick(0, 1) == 1 { v[0].1 = 99; on[0] = false; }
    let r = ray(ax(a, h5, h5, o), nax(a, sgn));
    let hit = |i: usize| on[i] & ((ws[i] + h5 - o) * sgn > 0.0);
    let mut any = false; for i in 0..n { any = any | hit(i) }
    let (x, y) = (index_closest_intersecting(&r, v.iter()), closest_intersecting(&r, v.iter()).map(|(p, b)| (p, b.0.clone(), b.1)));
    check((x.is_some() == any) & (y.is_some() == any), "a closest element is found exactly when the ray hits an element");
    if let (Some((p, i)), Some((q, b, _))) = (&x, &y) {
        check(hit(*i), "the closest element is one the ray hits"); obs(*i as u64); obs3(p); cover(1);
        for j in 0..n { check(!hit(j) | ((ws[j] - ws[*i]) * sgn >= 0.0), "no element the ray hits is closer") }
        let e = if sgn > 0.0 { ws[*i] } else { ws[*i] + un(1.0) }; check(eq3(p, &ax(a, h5, h5, e)) & eq3(p, q), "the reported point is where the ray enters the element");
        check(eq3(&b.min_p(), &v[*i].0.min_p()), "all variants find the same element");
    } else { cover(2) }
    let mut seen = vec![0u64; n]; for_each_intersecting(&r, v.iter_mut(), &mut |p, b: &mut BB| { let k = if b.1 == 99 { 0 } else { b.1 as usize }; seen[k] += 1; check(hit(k), "only elements the ray hits are visited"); obs3(p); });
    for i in 0..n { check((seen[i] == 1) == hit(i), "every element the ray hits is visited once") }
    let z = closest_intersecting_mut(&r, v.iter_mut()).map(|(p, b)| { b.1 += 10; (p, b.1) });
    match (&z, &x) { (Some((p, k)), Some((q, i))) => { check(eq3(p, q), "all variants find the same element"); check((*k == *i as u64 + 10) & (v[*i].1 == *k), "all variants find the same element") } (None, None) => {} _ => check(false, "all variants find the same element") }
}

/// scattered distinct points
fn cloud3(n: usize) -> Vec<Point3D> { (0..n).map(|i| Point3D::new((i * 7 % 31) as f64, (i * 13 % 29) as f64, (i * 11 % 37) as f64 - 9.0)).collect() }
fn some_of(n: usize) -> usize { [0, n / 3, n - 2, n - 1][pick(0, 3)] }
fn seq_many<C: IsPushable<Point3D> + IsRandomAccessible<Point3D> + IsRandomInsertible<Point3D> + Default>() {
    let n = 20; let ps = cloud3(n); let mut c = C::default(); for p in &ps { c.push(p.clone()) } let mut m = ps.clone(); let i = us(0, 25); let i = conc(i as u64) as usize; let p = any_p3();
    let r = c.insert(i, p.clone()); if i < n { check(r.is_ok(), "insert at an index of the sequence succeeds"); m.insert(i, p.clone()); cover(1) } else if i > n { check(r.is_err(), "insert beyond the end is refused"); cover(2) } else if r.is_ok() { m.insert(i, p.clone()) }
    let k = some_of(m.len()); c[k] = p.clone(); m[k] = p; check(c.len() == m.len(), "the length counts the elements"); for i in 0..m.len().min(c.len()) { check(bits3(&c[i], &m[i]), "elements keep their order and value"); obs3(&c[i]) }
}

fn segments_() {
    let (a, b, d) = (p3(-8, 8), p3(-8, 8), p3(-8, 8)); let mut s = LineSegment3D::new(a.clone(), b.clone());
    let g = s.center_of_gravity().unwrap_or_default(); check((g.x * 2.0 == a.x + b.x) & (g.y * 2.0 == a.y + b.y) & (g.z * 2.0 == a.z + b.z), "the center of a segment is its middle"); obs3(&g);
    s.move_by(d.x, d.y, d.z); check((s.start.x == a.x + d.x) & (s.start.y == a.y + d.y) & (s.start.z == a.z + d.z) & (s.end.x == b.x + d.x) & (s.end.y == b.y + d.y) & (s.end.z == b.z + d.z), "moving a segment moves both ends");
    let bb = s.bounding_box_maybe(); check(bb.is_some() == ((a.x != b.x) & (a.y != b.y) & (a.z != b.z)), "a segment that spans a volume has a bounding box"); if let Some(bb) = bb { let (l, h) = (bb.min_p(), bb.max_p()); check((l.x == s.start.x.min(s.end.x)) & (h.x == s.start.x.max(s.end.x)) & (l.y == s.start.y.min(s.end.y)) & (h.y == s.start.y.max(s.end.y)) & (l.z == s.start.z.min(s.end.z)) & (h.z == s.start.z.max(s.end.z)), "the bounding box of a segment is that of its ends"); cover(1) } else { cover(2) }
    let m = c4(pick(0, 1)); let t = LineSegment3D::new(a.clone(), b.clone()).transformed(&m); check(eq3(&t.start, &m3p(&m, &a)) & eq3(&t.end, &m3p(&m, &b)), "transforming a segment transforms both ends");
}
fn segments2_() {
    let (a, b, d) = (p2(-8, 8), p2(-8, 8), p2(-8, 8)); let mut s = LineSegment2D::new(a.clone(), b.clone());
    let g = s.center_of_gravity().unwrap_or_default(); check((g.x * 2.0 == a.x + b.x) & (g.y * 2.0 == a.y + b.y), "the center of a segment is its middle"); obs2(&g);
    s.move_by(d.x, d.y); check((s.start.x == a.x + d.x) & (s.start.y == a.y + d.y) & (s.end.x == b.x + d.x) & (s.end.y == b.y + d.y), "moving a segment moves both ends");
    let bb = s.bounding_box_maybe(); check(bb.is_some() == ((a.x != b.x) & (a.y != b.y)), "a segment that spans an area has a bounding box"); if let Some(bb) = bb { let (l, h) = (bb.min_p(), bb.max_p()); check((l.x == s.start.x.min(s.end.x)) & (h.x == s.start.x.max(s.end.x)) & (l.y == s.start.y.min(s.end.y)) & (h.y == s.start.y.max(s.end.y)), "the bounding box of a segment is that of its ends"); cover(1) } else { cover(2) }
    let m = c3(pick(0, 1)); let t = LineSegment2D::new(a.clone(), b.clone()).transformed(&m); check(eq2(&t.start, &m2p(&m, &a)) & eq2(&t.end, &m2p(&m, &b)), "transforming a segment transforms both ends");
}
fn seg_scale_() {
    let (a, b) = (p3(-8, 8), p3(-8, 8)); let f = [0.5, 1.0, 2.0, 4.0][pick(0, 3)]; let mut s = LineSegment3D::new(a.clone(), b.clone()); s.scale(pos(f)); obs3(&s.start); obs3(&s.end);
    let sc = |u: f64, v: f64| (u + v) * 0.5 + f * (u - v) * 0.5; check((s.start.x == sc(a.x, b.x)) & (s.start.y == sc(a.y, b.y)) & (s.start.z == sc(a.z, b.z)) & (s.end.x == sc(b.x, a.x)) & (s.end.y == sc(b.y, a.y)) & (s.end.z == sc(b.z, a.z)), "scaling a segment moves its ends away from its middle"); cover(1)
}
fn seg_scale2_() {
    let (a, b) = (p2(-8, 8), p2(-8, 8)); let f = [0.5, 1.0, 2.0, 4.0][pick(0, 3)]; let mut s = LineSegment2D::new(a.clone(), b.clone()); s.scale(pos(f)); obs2(&s.start); obs2(&s.end);
    let sc = |u: f64, v: f64| (u + v) * 0.5 + f * (u - v) * 0.5; check((s.start.x == sc(a.x, b.x)) & (s.start.y == sc(a.y, b.y)) & (s.end.x == sc(b.x, a.x)) & (s.end.y == sc(b.y, a.y)), "scaling a segment moves its ends away from its middle"); cover(1)
}
fn pc_scale_() {
    let ps = [p3(-4, 4), p3(-4, 4), p3(-4, 4)]; let f = [0.5, 2.0][pick(0, 1)]; let poly = pick(0, 1) == 1; let (l, h) = (|g: &dyn Fn(&Point3D) -> f64| g(&ps[0]).min(g(&ps[1])).min(g(&ps[2])), |g: &dyn Fn(&Point3D) -> f64| g(&ps[0]).max(g(&ps[1])).max(g(&ps[2])));
    let c = [(l(&|p| p.x) + h(&|p| p.x)) * 0.5, (l(&|p| p.y) + h(&|p| p.y)) * 0.5, (l(&|p| p.z) + h(&|p| p.z)) * 0.5];
    assume((l(&|p| p.x) < h(&|p| p.x)) & (l(&|p| p.y) < h(&|p| p.y)) & (l(&|p| p.z) < h(&|p| p.z)));
    let r: Vec<Point3D> = if poly { let mut q = Polygon3D::from(pc3(&ps)); q.scale(pos(f)); (0..3).map(|i| q.vertex(VId(i)).unwrap_or_default()).collect() } else { let mut q = pc3(&ps); q.scale(pos(f)); q.data };
    for i in 0..3 { let w = [c[0] + f * (ps[i].x - c[0]), c[1] + f * (ps[i].y - c[1]), c[2] + f * (ps[i].z - c[2])]; check((r[i].x == w[0]) & (r[i].y == w[1]) & (r[i].z == w[2]), "scaling moves every point away from the center of the bounding box"); obs3(&r[i]); cover(1) }
}
fn pc_scale2_() {
    let ps = [p2(-4, 4), p2(-4, 4), p2(-4, 4)]; let f = [0.5, 2.0][pick(0, 1)]; let poly = pick(0, 1) == 1; let (lx, hx, ly, hy) = (ps[0].x.min(ps[1].x).min(ps[2].x), ps[0].x.max(ps[1].x).max(ps[2].x), ps[0].y.min(ps[1].y).min(ps[2].y), ps[0].y.max(ps[1].y).max(ps[2].y));
    assume((lx < hx) & (ly < hy)); let c = [(lx + hx) * 0.5, (ly + hy) * 0.5];
    let r: Vec<Point2D> = if poly { let mut q = Polygon2D::from(pc2(&ps)); q.scale(pos(f)); (0..3).map(|i| q.vertex(VId(i)).unwrap_or_default()).collect() } else { let mut q = pc2(&ps); q.scale(pos(f)); q.data };
    for i in 0..3 { let w = [c[0] + f * (ps[i].x - c[0]), c[1] + f * (ps[i].y - c[1])]; check((r[i].x == w[0]) & (r[i].y == w[1]), "scaling moves every point away from the center of the bounding box"); obs2(&r[i]); cover(1) }
}
fn pc_transform_() {
    let n = pick(0, 2); let ps: Vec<Point3D> = (0..n).map(|_| p3(-8, 8)).collect(); let m = c4(pick(0, 1)); let c = pc3(&ps); let t = c.transformed(&m); let mut u = c.clone(); u.transform(&m); let pl = Polygon3D::from(c.clone()).transformed(&m);
    check((t.len() == n) & (u.len() == n) & (pl.num_vertices() == n), "transforming keeps the number of points"); same3(&c.data, &ps, "transformed leaves the original alone");
    for i in 0..n { let w = m3p(&m, &ps[i]); check(eq3(&t[i], &w) & eq3(&u[i], &w) & eq3(&pl.vertex(VId(i)).unwrap_or_default(), &w), "every point is transformed by the matrix"); cover(1) }
    let s2: Vec<Point2D> = ps.iter().map(|p| Point2D::new(p.x, p.y)).collect(); let m = c3(pick(0, 1)); let c = pc2(&s2); let t = c.transformed(&m); let mut u = c.clone(); u.transform(&m); let pl = Polygon2D::from(c.clone()).transformed(&m);
    check((t.len() == n) & (u.len() == n) & (pl.num_vertices() == n), "transforming keeps the number of points");
    for i in 0..n { let w = m2p(&m, &s2[i]); check(eq2(&t[i], &w) & eq2(&u[i], &w) & eq2(&pl.vertex(VId(i)).unwrap_or_default(), &w), "every point is transformed by the matrix") }
}
fn extrude_() {
    let n = pick(0, 3); let ps: Vec<Point2D> = (0..n).map(|_| p2(-8, 8)).collect(); let d = p3(-8, 8); let (a, b) = extrude(&ps, &d); check((a.len() == n) & (b.len() == n), "extruding yields both ends of every point");
    for i in 0..n { check(eq3(&a[i], &Point3D::new(ps[i].x, ps[i].y, 0.0)) & eq3(&b[i], &Point3D::new(ps[i].x + d.x, ps[i].y + d.y, d.z)), "extruding yields both ends of every point"); obs3(&b[i]); cover(1) }
}
fn center_() {
    let n = pick(1, 3); let ps: Vec<Point3D> = (0..n).map(|_| p3(-8, 8)).collect(); let mut c = pc3(&ps); let had = c.bounding_box_maybe(); center(&mut c); check(c.len() == n, "centering keeps the points");
    match had { Some(b) => { let (l, h) = (b.min_p(), b.max_p()); for i in 0..n { check((c[i].x * 2.0 == ps[i].x * 2.0 - (l.x + h.x)) & (c[i].y * 2.0 == ps[i].y * 2.0 - (l.y + h.y)) & (c[i].z * 2.0 == ps[i].z * 2.0 - (l.z + h.z)), "centering moves the center of the bounding box to the origin"); obs3(&c[i]) } cover(1) } None => { for i in 0..n { check(eq3(&c[i], &ps[i]), "without bounding box nothing is moved") } cover(2) } }
}
fn seg_len_() {
    let d = fi(-4, 4); let a = pick(0, 2); let s = LineSegment3D::new(ax(a, un(1.0), un(2.0), un(3.0)), ax(a, un(1.0) + 3.0 * d, un(2.0), un(3.0) + 4.0 * d)); let l = s.length(); check(near(l, 5.0 * d.abs()), "the length of a segment is the distance of its ends"); obs_f(l);
    let s = LineSegment2D::new(Point2D::new(un(1.0), un(2.0)), Point2D::new(un(1.0) + 4.0 * d, un(2.0) - 3.0 * d)); let l = s.length(); check(near(l, 5.0 * d.abs()), "the length of a segment is the distance of its ends"); obs_f(l); cover(1)
}
fn set_size_() {
    let a = pick(0, 2); let (x, w) = (fi(-8, 7), if un(1.0) == 1.0 { fi(1, 8) } else { un([1.0, 6.0][pick(0, 1)]) }); let ps = [ax(a, x, -un(1.0), 0.0), ax(a, x + w, un(1.0), un(4.0)), ax(a, x, 0.0, un(2.0))]; let mut c = pc3(&ps); let t = [pos(un(2.0)), pos(un(0.5)), pos(un(3.0))]; set_size(&mut c, t);
    match c.bounding_box_maybe() { Some(b) => { let (l, h) = (b.min_p(), b.max_p()); check(near(h.x - l.x, un(2.0)) & near(h.y - l.y, un(0.5)) & near(h.z - l.z, un(3.0)), "set_size scales the bounding box to the given size"); obs3(&l); obs3(&h); cover(1) } None => check(false, "set_size scales the bounding box to the given size") }
}
fn project_() {
    let ns = [Norm3D::norm_x(), Norm3D::norm_y(), Norm3D::norm_z()]; let (i, j) = (pick(0, 2), pick(0, 2)); assume(i != j);
    let o = p3(-8, 8); let p = p3(-8, 8); let pl: Plane3D<Point3D, Norm3D> = Plane3D::new(o.clone(), ns[i].clone(), ns[j].clone());
    check(eq3(&pl.origin(), &o) & (pl.u() == ns[i]) & (pl.v() == ns[j]), "a plane keeps its origin and axes");
    let r: Point2D = project_point_on_plane(&pl, &p); let d = [p.x - o.x, p.y - o.y, p.z - o.z]; check((r.x == d[i]) & (r.y == d[j]), "projected coordinates are those along the axes of the plane"); obs2(&r); cover(1)
}
fn ray_tri_() { let a = pick(0, 2); let s = if pick(0, 1) == 0 { 1.0 } else { -1.0 }; let t = [[up2(0.0, 0.0), up2(4.0, 0.0), up2(0.0, 4.0)], [up2(0.0, 0.0), up2(1.0, 4.0), up2(3.0, 1.0)]]; let t = &t[pick(0, 1)]; ray_tri(a, &p2(-1, 5), fi(-1, 3), s, t) }
fn ray_tri_v_() { let t = [cp2(2), cp2(2), up2(2.0, 2.0)]; ray_tri(2, &p2(0, 2), 0.0, 1.0, &t) }
fn ray_mesh_() {
    // a quad of two triangles at w = 1 and one behind at w = 2
    let a = pick(0, 2); let q = [uax(a, 0.0, 0.0, 1.0), uax(a, 4.0, 0.0, 1.0), uax(a, 4.0, 4.0, 1.0), uax(a, 0.0, 4.0, 1.0), uax(a, -4.0, -4.0, 2.0), uax(a, 16.0, -4.0, 2.0), uax(a, -4.0, 16.0, 2.0)];
    let m: M3 = mesh(&q, &[0, 1, 2, 0, 2, 3, 4, 5, 6]); let (x, y) = (dy(-3, 13, -1), dy(-3, 13, -1)); let h = fi(0, 3); let up = pick(0, 1) == 1; let s = if up { 1.0 } else { -1.0 };
    let mut v = vec![]; collect_intersections_ray_mesh(&ray(ax(a, x, y, h), nax(a, s)), &m, &mut v); obs(v.len() as u64); for p in &v { obs3(p) }
    let (u4, u12) = (un(4.0), un(12.0)); let inq = (x > 0.0) & (x < u4) & (y > 0.0) & (y < u4) & (x != y); let outq = (x < 0.0) | (x > u4) | (y < 0.0) | (y > u4); let inb = (x > -u4) & (y > -u4) & (x + y < u12); let outb = (x + y > u12) | (x < -u4) | (y < -u4);
    let (d1, d2) = ((un(1.0) - h) * s, (un(2.0) - h) * s); assume((d1 != 0.0) & (d2 != 0.0));
    let lo = (inq & (d1 > 0.0)) as usize + (inb & (d2 > 0.0)) as usize; let hi = (!outq & (d1 > 0.0)) as usize + (!outb & (d2 > 0.0)) as usize;
    check((v.len() >= lo) & (v.len() <= hi.max(lo)), "one intersection per face the ray crosses"); if v.len() > 1 { cover(1) } else { cover(2) }
    for p in &v { let (e1, e2) = (ax(a, x, y, un(1.0)), ax(a, x, y, un(2.0))); check(eq3(p, &e1) | eq3(p, &e2), "intersections lie on the ray and on a face") }
}
fn normal_() {
    let a = pick(0, 2); let t = [Point2D::new(fi(-4, 4), un(pick(0, 1) as f64)), up2(1.0, pick(0, 2) as f64), up2(2.0, 1.0)]; let v: Vec<Point3D> = t.iter().map(|p| ax(a, p.x, p.y, un(1.0))).collect(); let area = cr(&t[0], &t[1], &t[2]);
    let m: M3 = mesh(&v, &[0, 1, 2]); let f = m.face_normal(FId(0)); obs(f.is_ok() as u64); check(f.is_ok() == (area != 0.0), "a face has a normal exactly when its corners span a triangle");
    check(m.face_normal(FId(us(1, 9))).is_err(), "faces that do not exist have no normal");
    if let Ok(n) = f { let w = ax(a, 0.0, 0.0, if area > 0.0 { 1.0 } else { -1.0 }); let nf = normal_of_face(&v[0], &v[1], &v[2]); check((n.x() == w.x) & (n.y() == w.y) & (n.z() == w.z) & (nf == n), "the normal is perpendicular to the face, its corners counter clockwise around it");
        for x in normals_of_mesh::<Point3D, _>(&m) { check(x == n, "the normal of a vertex is that of its faces"); } cover(1) } else { cover(2) }
}
fn hull3_() { hull(&g2(3, 3)) }
fn hull_small_() { let n = pick(0, 2); hull(&g2(n, 2)) }
fn hull5_() { let mut ps = vec![up2(0.0, 1.0), up2(2.0, 0.0), up2(3.0, 3.0)]; ps.extend(g2(2, 4)); hull(&ps) }
fn dp_() { let n = pick(0, 4); let ps: Vec<Point2D> = (0..n).map(|i| Point2D::new(un(i as f64), fi(0, 2))).collect(); dp(&ps, un([0.25, 1.5][pick(0, 1)]), "no points are added, none from none") }
fn dp_y_() { let n = pick(3, 4); let ps: Vec<Point2D> = (0..n).map(|i| Point2D::new(fi(0, 2), un(i as f64))).collect(); dp(&ps, un([0.25, 1.5][pick(0, 1)]), "no points are added, none from none") }
fn cog_() {
    let n = pick(0, 3); let ps: Vec<Point3D> = (0..n).map(|_| p3(-8, 8)).collect(); let s2: Vec<Point2D> = ps.iter().map(|p| Point2D::new(p.x, p.y)).collect();
    let k = n as f64; let (mut x, mut y, mut z) = (0.0, 0.0, 0.0); for p in &ps { x += p.x; y += p.y; z += p.z }
    let near = |a: f64, b: f64| near(a * k, b);
    for c in [pc3(&ps).center_of_gravity(), Polygon3D::from(pc3(&ps)).center_of_gravity()] { match c { None => { check(n == 0, "a non empty cloud has a center of gravity"); cover(1) } Some(c) => { check(n > 0, "an empty cloud has no center of gravity"); check(near(c.x, x) & near(c.y, y) & near(c.z, z), "the center of gravity is the mean of the points"); obs3(&c); cover(2) } } }
    for c in [pc2(&s2).center_of_gravity(), Polygon2D::from(pc2(&s2)).center_of_gravity()] { match c { None => check(n == 0, "a non empty cloud has a center of gravity"), Some(c) => { check(n > 0, "an empty cloud has no center of gravity"); check(near(c.x, x) & near(c.y, y), "the center of gravity is the mean of the points"); obs2(&c) } } }
}
fn length_() {
    let n = pick(0, 3); let a = pick(0, 2); let xs: Vec<f64> = (0..n).map(|_| fi(-3, 3)).collect();
    let ps: Vec<Point3D> = xs.iter().map(|x| { let mut c = [un(1.0); 3]; c[a] = *x; Point3D::new(c[0], c[1], c[2]) }).collect(); let s2: Vec<Point2D> = xs.iter().map(|x| if a == 0 { Point2D::new(*x, un(2.0)) } else { Point2D::new(un(2.0), *x) }).collect();
    let mut l = 0.0; for i in 1..n { l += (xs[i] - xs[i - 1]).abs() } let cl = if n > 0 { l + (xs[n - 1] - xs[0]).abs() } else { 0.0 };
    check((pc3(&ps).length() == l) & (pc2(&s2).length() == l), "the length of a cloud sums the distances of consecutive points"); check((Polygon3D::from(pc3(&ps)).length() == cl) & (Polygon2D::from(pc2(&s2)).length() == cl), "the length of a polygon includes the closing segment");
    obs_f(l); obs_f(cl); if n > 2 { cover(1) }
}
harnesses! {
    fn h_seq_many() { match pick(0, 2) { 0 => seq_many::<PointCloud3D<Point3D>>(), 1 => seq_many::<Vec<Point3D>>(), _ => seq_many::<VecDeque<Point3D>>() } }
    fn h_merge_many() {
        let (na, nb) = ([5, 20][pick(0, 1)], [9, 30][pick(0, 1)]); let (mut a, b) = (cloud3(na), cloud3(nb)); a[some_of(na)] = any_p3(); let mut want = a.clone(); want.extend(b.iter().cloned()); let (ca, cb) = (pc3(&a), pc3(&b));
        same3(&ca.combine(&cb).data, &want, "combine lists the points of both in order"); let mut c = ca.clone(); c.consume(cb); same3(&c.data, &want, "consume appends the points of the other"); let mut c = ca.clone(); c.append_ra(&b); same3(&c.data, &want, "append_ra appends the points of the other");
        let f = |v: &[Point3D]| -> Vec<Point2D> { v.iter().map(|p| Point2D::new(p.x, p.z)).collect() }; let (a, b, want) = (f(&a), f(&b), f(&want)); let (ca, cb) = (pc2(&a), pc2(&b));
        same2(&ca.combine(&cb).data, &want, "combine lists the points of both in order"); let mut c = ca.clone(); c.consume(cb); same2(&c.data, &want, "consume appends the points of the other"); let mut c = ca.clone(); c.append_ra(&b); same2(&c.data, &want, "append_ra appends the points of the other"); cover(1)
    }
    fn h_cog_many() {
        let n = 16; let mut ps = cloud3(n); let k = some_of(n); ps[k].x = fi(-64, 64); let s2: Vec<Point2D> = ps.iter().map(|p| Point2D::new(p.x, p.y)).collect(); let (mut x, mut y, mut z) = (0.0, 0.0, 0.0); for p in &ps { x += p.x; y += p.y; z += p.z }
        for c in [pc3(&ps).center_of_gravity(), Polygon3D::from(pc3(&ps)).center_of_gravity()] { match c { None => check(false, "a non empty cloud has a center of gravity"), Some(c) => { check(near(c.x * 16.0, x) & near(c.y * 16.0, y) & near(c.z * 16.0, z), "the center of gravity is the mean of the points"); obs3(&c) } } }
        for c in [pc2(&s2).center_of_gravity(), Polygon2D::from(pc2(&s2)).center_of_gravity()] { match c { None => check(false, "a non empty cloud has a center of gravity"), Some(c) => { check(near(c.x * 16.0, x) & near(c.y * 16.0, y), "the center of gravity is the mean of the points"); obs2(&c) } } } cover(1)
    }
    fn h_length_many() {
        let n = 12; let mut xs: Vec<f64> = (0..n).map(|i| (i * 5 % 12) as f64).collect(); xs[some_of(n)] = fi(-20, 20); let s2: Vec<Point2D> = xs.iter().map(|x| Point2D::new(*x, 2.0)).collect(); let ps: Vec<Point3D> = xs.iter().map(|x| Point3D::new(1.0, *x, 3.0)).collect();
        let mut l = 0.0; for i in 1..n { l += (xs[i] - xs[i - 1]).abs() } let cl = l + (xs[n - 1] - xs[0]).abs(); let r = [pc3(&ps).length(), pc2(&s2).length(), Polygon3D::from(pc3(&ps)).length(), Polygon2D::from(pc2(&s2)).length()]; for x in &r { obs_f(*x) }
        check(near(r[0], l) & near(r[1], l), "the length of a cloud sums the distances of consecutive points"); check(near(r[2], cl) & near(r[3], cl), "the length of a polygon includes the closing segment"); cover(1)
    }
    fn h_poly_many() {
        let n = 20; let ps = cloud3(n); let s2: Vec<Point2D> = ps.iter().map(|p| Point2D::new(p.x, p.y)).collect(); let (mut p, mut q) = (Polygon3D::from(pc3(&ps)), Polygon2D::from(pc2(&s2))); seg_ids(n, &p); seg_ids(n, &q);
        let s = us(0, 25); let r = p.change_vertex(VId(s), Point3D::new(0.5, 0.5, 0.5)).is_ok(); let r2 = q.change_vertex(VId(s), Point2D::new(0.5, 0.5)).is_ok(); check((r == (s < n)) & (r2 == (s < n)), "change_vertex succeeds exactly for a vertex of the polygon");
        for i in 0..n { let (v, w) = (p.vertex(VId(i)).unwrap_or_default(), q.vertex(VId(i)).unwrap_or_default()); let (a, b) = if i == s { (Point3D::new(0.5, 0.5, 0.5), Point2D::new(0.5, 0.5)) } else { (ps[i].clone(), s2[i].clone()) }; check(bits3(&v, &a) & bits2(&w, &b), "vertices keep their value unless changed") }
    }
    fn h_sort_many() { let n = 30; let f = pick(0, 5); let mut v = cloud3(n); let k = some_of(n); let x = fi(-2, 38); match f % 3 { 0 => v[k].x = x, 1 => v[k].y = x, _ => v[k].z = x } sorted3(f, &v); if f < 4 { let s: Vec<Point2D> = v.iter().map(|p| Point2D::new(p.x, p.y)).collect(); sorted2(f, &s) } }
    fn h_hull_many() { let n = [9, 14][pick(0, 1)]; let mut v: Vec<Point2D> = cloud3(n).iter().map(|p| Point2D::new(p.x, p.y)).collect(); let k = some_of(n); v[k] = if bit() { Point2D::new(fi(-5, 35), 13.0) } else { Point2D::new(8.0, fi(-5, 35)) }; hull(&v) }
    fn h_dp_many() { let n = [9, 16][pick(0, 1)]; let k = some_of(n); let ps: Vec<Point2D> = (0..n).map(|i| Point2D::new(i as f64, if i == k { fi(-4, 12) } else { [(i % 2) as f64, (i * i) as f64 / 8.0][n % 2] })).collect(); dp(&ps, [0.25, 1.5][pick(0, 1)], "no points are added, none from none") }
    fn h_closest_many() {
        // eight boxes in front of and behind the ray, one anywhere
        let a = pick(0, 2); let sgn = if bit() { 1.0 } else { -1.0 }; let k = [0, 4, 7][pick(0, 2)]; let mut ws = [6.0, -3.0, 9.0, 4.0, -8.0, 11.0, 14.0, -6.0]; ws[k] = (2 * pick(0, 13)) as f64 - 12.0; assume(ws[k] != 1.0); let mut v: Vec<BB> = (0..8).map(|i| BB(bbx(a, 0.0, 0.0, ws[i], 1.0), i as u64)).collect();
        let r = ray(ax(a, 0.5, 0.5, 1.5), nax(a, sgn)); let hit = |i: usize| (ws[i] + 0.5 - 1.5) * sgn > 0.0;
        match index_closest_intersecting(&r, v.iter()) { None => check(false, "a closest element is found exactly when the ray hits an element"), Some((_, i)) => { obs(i as u64); check(hit(i), "the closest element is one the ray hits"); for j in 0..8 { check(!hit(j) | ((ws[j] - ws[i]) * sgn >= 0.0), "no element the ray hits is closer") } let c = closest_intersecting(&r, v.iter()).map(|(_, b)| b.1); check(c == Some(i as u64), "all variants find the same element"); let c = closest_intersecting_mut(&r, v.iter_mut()).map(|(_, b)| b.1); check(c == Some(i as u64), "all variants find the same element"); cover(1) } }
        let mut seen = [0u64; 8]; for_each_intersecting(&r, v.iter_mut(), &mut |_, b: &mut BB| seen[b.1 as usize] += 1); for i in 0..8 { check((seen[i] == 1) == hit(i), "every element the ray hits is visited once") }
    }
    fn h_seq_pc3() { seq3::<PointCloud3D<Point3D>>(true) }
    fn h_seq_vec() { seq3::<Vec<Point3D>>(false) }
    fn h_seq_deque() { seq3::<VecDeque<Point3D>>(false) }
    fn h_seq_pc2() {
        let n = pick(0, 3); let ps: Vec<Point2D> = (0..n).map(|i| Point2D::new(any_f64(), i as f64)).collect(); let mut c = pc2(&ps); let mut m = ps.clone();
        let i = us(0, 5); let i = conc(i as u64) as usize; let p = any_p2(); let r = c.insert(i, p.clone());
        check(r.is_ok() == (i <= n), "insert at an index of the sequence succeeds, beyond the end it is refused"); if i <= n { m.insert(i, p); cover(1) } else { cover(2) }
        if !m.is_empty() { let q = any_p2(); c[0] = q.clone(); m[0] = q; }
        check(c.len() == m.len(), "the length counts the elements"); same2(&c.data, &m, "elements keep their order and value");
        for k in 0..m.len() { check(bits2(&c[k], &m[k]), "elements keep their order and value") }
    }
    fn h_dc_pc3() { dc3::<PointCloud3D<Point3D>>(true) }
    fn h_dc_vec() { dc3::<Vec<Point3D>>(true) }
    fn h_dc_deque() { dc3::<VecDeque<Point3D>>(true) }
    fn h_dc_f32() { dc3::<PointCloud3Df32<Point3D>>(false) }
    fn h_merge() {
        let (na, nb) = (pick(0, 2), pick(0, 2)); let a: Vec<Point3D> = (0..na).map(|_| any_p3()).collect(); let b: Vec<Point3D> = (0..nb).map(|_| any_p3()).collect();
        let mut want = a.clone(); want.extend(b.iter().cloned());
        let (ca, cb) = (pc3(&a), pc3(&b));
        same3(&ca.combine(&cb).data, &want, "combine lists the points of both in order"); same3(&ca.data, &a, "combine leaves its operands alone");
        let mut c = ca.clone(); c.consume(cb.clone()); same3(&c.data, &want, "consume appends the points of the other");
        let mut c = ca.clone(); c.append_ra(&b); same3(&c.data, &want, "append_ra appends the points of the other");
        let v: Vec<Point3D> = ca.clone().into(); same3(&v, &a, "conversion keeps the points"); same3(&PointCloud3D::from(v).data, &a, "conversion keeps the points");
        cover(1)
    }
    fn h_merge2() {
        let (na, nb) = (pick(0, 2), pick(0, 2)); let a: Vec<Point2D> = (0..na).map(|_| any_p2()).collect(); let b: Vec<Point2D> = (0..nb).map(|_| any_p2()).collect();
        let mut want = a.clone(); want.extend(b.iter().cloned());
        let (ca, cb) = (pc2(&a), pc2(&b));
        same2(&ca.combine(&cb).data, &want, "combine lists the points of both in order"); same2(&ca.data, &a, "combine leaves its operands alone");
        let mut c = ca.clone(); c.consume(cb.clone()); same2(&c.data, &want, "consume appends the points of the other");
        let mut c = ca.clone(); c.append_ra(&b); same2(&c.data, &want, "append_ra appends the points of the other");
        let v: Vec<Point2D> = ca.clone().into(); same2(&v, &a, "conversion keeps the points"); same2(&PointCloud2D::from(v).data, &a, "conversion keeps the points");
        cover(1)
    }
    fn h_move() {
        let n = pick(0, 3); let ps: Vec<Point3D> = (0..n).map(|_| any_p3()).collect(); let d = any_p3();
        let mut c = pc3(&ps); c.move_by(d.x, d.y, d.z); check(c.len() == n, "moving keeps the points");
        let mut v = ps.clone(); IsMovable3D::move_by(&mut v, d.x, d.y, d.z); let mut q: VecDeque<Point3D> = ps.iter().cloned().collect(); q.move_by(d.x, d.y, d.z); let mut k: LinkedList<Point3D> = ps.iter().cloned().collect(); k.move_by(d.x, d.y, d.z); check(k.len() == n, "moving keeps the points"); let k: Vec<Point3D> = k.into_iter().collect();
        let mut pl = Polygon3D::from(pc3(&ps)); pl.move_by(d.x, d.y, d.z);
        for i in 0..n { let w = [ps[i].x + d.x, ps[i].y + d.y, ps[i].z + d.z]; let l = pl.vertex(VId(i)).unwrap_or_default();
            for p in [&c[i], &v[i], &q[i], &k[i], &l] { check(feq(p.x, w[0]) & feq(p.y, w[1]) & feq(p.z, w[2]), "every point is moved by the offset") } obs3(&c[i]); cover(1) }
        let mut k = 0; let mut c = pc3(&ps); c.for_each_point(|p| { p.x = k as f64; k += 1; }); check(k == n, "for_each_point visits every point once"); for i in 0..n { check((c[i].x == i as f64) & feq(c[i].y, ps[i].y), "for_each_point visits every point once") }
    }
    fn h_move2() {
        let n = pick(0, 3); let ps: Vec<Point2D> = (0..n).map(|_| any_p2()).collect(); let d = any_p2();
        let mut c = pc2(&ps); c.move_by(d.x, d.y); check(c.len() == n, "moving keeps the points");
        let mut v = ps.clone(); IsMovable2D::move_by(&mut v, d.x, d.y); let mut q: VecDeque<Point2D> = ps.iter().cloned().collect(); q.move_by(d.x, d.y); let mut k: LinkedList<Point2D> = ps.iter().cloned().collect(); k.move_by(d.x, d.y); check(k.len() == n, "moving keeps the points"); let k: Vec<Point2D> = k.into_iter().collect();
        let mut pl = Polygon2D::from(pc2(&ps)); pl.move_by(d.x, d.y);
        for i in 0..n { let w = [ps[i].x + d.x, ps[i].y + d.y]; let l = pl.vertex(VId(i)).unwrap_or_default();
            for p in [&c[i], &v[i], &q[i], &k[i], &l] { check(feq(p.x, w[0]) & feq(p.y, w[1]), "every point is moved by the offset") } obs2(&c[i]); cover(1) }
        let mut k = 0; let mut c = pc2(&ps); c.for_each_point(|p| { p.x = k as f64; k += 1; }); check(k == n, "for_each_point visits every point once"); for i in 0..n { check((c[i].x == i as f64) & feq(c[i].y, ps[i].y), "for_each_point visits every point once") }
    }
    fn h_move_f32() {
        let n = pick(1, 3); let ps: Vec<Point3D> = (0..n).map(|_| p3(-1000, 1000)).collect(); let d = p3(-1000, 1000); let mut c = PointCloud3Df32::new(); for p in &ps { c.push(p.clone()) }
        c.move_by(d.x, d.y, d.z); check(c.len_d() == n, "moving keeps the points");
        for i in 0..n { let p: Point3D = c.get_d(i).unwrap_or_default(); check((p.x == ps[i].x + d.x) & (p.y == ps[i].y + d.y) & (p.z == ps[i].z + d.z), "every point is moved by the offset"); obs3(&p); cover(1) }
    }
    fn h_bb_f32() {
        let n = pick(0, 3); let ps: Vec<Point3D> = (0..n).map(|_| p3(-8, 8)).collect(); let mut c = PointCloud3Df32::new(); for p in &ps { c.push(p.clone()) }
        let b = c.bounding_box_maybe(); let w = pc3(&ps).bounding_box_maybe(); obs(b.is_some() as u64);
        check(b.is_some() == w.is_some(), "a cloud of floats has the bounding box of its points");
        if let (Some(b), Some(w)) = (b, w) { check(eq3(&b.min_p(), &w.min_p()) & eq3(&b.max_p(), &w.max_p()), "a cloud of floats has the bounding box of its points"); cover(1) } else { cover(2) }
    }
    fn h_bb_many() { bb_many() }
    fn h_move_many() {
        let n = [4, 7, 40][pick(0, 2)]; let k = some_of(n); let mut ps: Vec<Point3D> = (0..n).map(|i| Point3D::new(i as f64, 2.0, -3.0 * i as f64)).collect(); ps[k] = p3(-1000, 1000); let d = Point3D::new(fi(-1000, 1000), 5.0, 7.0);
        let mut c = PointCloud3Df32::new(); for p in &ps { c.push(p.clone()) } c.move_by(d.x, d.y, d.z); let mut e = pc3(&ps); e.move_by(d.x, d.y, d.z); let mut v = ps.clone(); IsMovable3D::move_by(&mut v, d.x, d.y, d.z);
        check((c.len_d() == n) & (e.len() == n) & (v.len() == n), "moving keeps the points");
        for i in 0..n { let w = Point3D::new(ps[i].x + d.x, ps[i].y + d.y, ps[i].z + d.z); check(eq3(&c.get_d(i).unwrap_or_default(), &w) & eq3(&e[i], &w) & eq3(&v[i], &w), "every point is moved by the offset") } obs(n as u64); cover(1)
    }
    fn h_cog() { cog_() }
    fn h_length() { length_() }
    fn h_poly3() {
        let n = pick(0, 3); let ps: Vec<Point3D> = (0..n).map(|i| Point3D::new(any_f64(), i as f64, 0.0)).collect(); let mut p = Polygon3D::from(pc3(&ps)); seg_ids(n, &p);
        let mut m = ps.clone(); let q = any_p3(); let s = sym(64) as usize; let r = p.change_vertex(VId(s), q.clone()); check(r.is_ok() == (s < n), "change_vertex succeeds exactly for a vertex of the polygon");
        let w = any_p3(); let id = p.add_vertex(w.clone()); check(id.0 == n, "add_vertex appends and returns the id"); m.push(w);
        for i in 0..n + 1 { match p.vertex(VId(i)) { Some(v) => { let w = if (i == s) & (i < n) { q.clone() } else { m[i].clone() }; check(bits3(&v, &w), "vertices keep their value unless changed"); obs3(&v) } None => check(false, "every vertex id below num_vertices is valid") }
            if let (Some((a, b)), Some(v), Some(w)) = (p.segment_vertices(SId(i)), p.vertex(VId(i)), p.vertex(VId((i + 1) % (n + 1)))) { check(bits3(&a, &v) & bits3(&b, &w), "segment_vertices are the vertices of the segment") } else { check(false, "every segment id below num_segments is valid") } }
    }
    fn h_poly2() {
        let n = pick(0, 3); let ps: Vec<Point2D> = (0..n).map(|i| Point2D::new(any_f64(), i as f64)).collect(); let mut p = Polygon2D::from(pc2(&ps)); seg_ids(n, &p);
        let mut m = ps.clone(); let q = any_p2(); let s = sym(64) as usize; let r = p.change_vertex(VId(s), q.clone()); check(r.is_ok() == (s < n), "change_vertex succeeds exactly for a vertex of the polygon");
        let w = any_p2(); let id = p.add_vertex(w.clone()); check(id.0 == n, "add_vertex appends and returns the id"); m.push(w);
        for i in 0..n + 1 { match p.vertex(VId(i)) { Some(v) => { let w = if (i == s) & (i < n) { q.clone() } else { m[i].clone() }; check(bits2(&v, &w), "vertices keep their value unless changed"); obs2(&v) } None => check(false, "every vertex id below num_vertices is valid") }
            if let (Some((a, b)), Some(v), Some(w)) = (p.segment_vertices(SId(i)), p.vertex(VId(i)), p.vertex(VId((i + 1) % (n + 1)))) { check(bits2(&a, &v) & bits2(&b, &w), "segment_vertices are the vertices of the segment") } else { check(false, "every segment id below num_segments is valid") } }
    }
    fn h_sort3() { let f = pick(0, 5); let ps: Vec<Point3D> = (0..3).map(|_| p3(0, 3)).collect(); sorted3(f, &ps) }
    fn h_sort3_4() { let f = pick(0, 2); let ps: Vec<Point3D> = (0..4).map(|i| { let mut c = [i as f64; 3]; c[f] = fi(0, 4); Point3D::new(c[0], c[1], c[2]) }).collect(); sorted3(f, &ps) }
    fn h_sort3_any() { let f = pick(0, 2); let ps: Vec<Point3D> = (0..3).map(|i| { let mut c = [i as f64; 3]; c[f] = fin_f64(); Point3D::new(c[0], c[1], c[2]) }).collect(); sorted3(f, &ps) }
    fn h_sort2() { let f = pick(0, 3); let ps: Vec<Point2D> = (0..3).map(|_| p2(0, 3)).collect(); sorted2(f, &ps) }
    fn h_sort2_4() { let f = pick(0, 1); let ps: Vec<Point2D> = (0..4).map(|i| { let x = fi(0, 4); if f == 0 { Point2D::new(x, i as f64) } else { Point2D::new(i as f64, x) } }).collect(); sorted2(f, &ps) }
    fn h_sort_dim() { let d = sym(64) as usize; let mut a = pc3(&[p3(0, 1)]); let mut b = pc2(&[p2(0, 1)]); check((a.sort_dim(d).is_ok() == (d < 3)) & (b.sort_dim(d).is_ok() == (d < 2)), "sort_dim accepts the dimensions and refuses others"); check((<PointCloud3D<Point3D> as IsSortableND>::n_dimensions() == 3) & (<PointCloud2D<Point2D> as IsSortableND>::n_dimensions() == 2), "n_dimensions"); if d < 2 { cover(1) } else { cover(2) } }
    fn h_hull_small() { hull_small_() }
    fn h_hull3() { hull3_() }
    fn h_hull4() { hull(&g2(4, 2)) }
    fn h_hull5() { hull5_() }
    fn h_dp() { dp_() }
    fn h_dp_y() { dp_y_() }
    fn h_dp_short() { let n = pick(3, 4); let big = pick(0, 1) == 1; let (sc, e) = if big { (64.0, 4) } else { (0.125, -5) }; let k = pick(1, n - 1); let ps: Vec<Point2D> = (0..n).map(|i| Point2D::new(i as f64 * sc, if i == k { dy(-12, 12, e) } else { sc * pick(0, 1) as f64 })).collect(); dp(&ps, sc * [0.25, 1.5][pick(0, 1)], "no points are added, none from none") }
    fn h_dp_4() { let ps: Vec<Point2D> = (0..5).map(|i| Point2D::new(i as f64, if i == 0 || i == 4 { 0.0 } else if i < 3 { pick(0, 2) as f64 } else { fi(0, 3) })).collect(); dp(&ps, [0.25, 1.5][pick(0, 1)], "no points are added, none from none") }
    fn h_ray_tri() { ray_tri_() }
    fn h_ray_tri_v() { ray_tri_v_() }
    fn h_ray_mesh() { ray_mesh_() }
    fn h_closest() { closest(pick(0, 2), 1.0, 2) }
    fn h_closest_neg() { closest(pick(0, 2), -1.0, 2) }
    fn h_closest3() { closest(1, 1.0, 3) }
    fn h_project() { project_() }
    fn h_normal() { normal_() }
    fn h_normals() {
        // corners of a unit cube at the origin: three faces meeting in vertex 0
        let v = [Point3D::new(0.0, 0.0, 0.0), Point3D::new(1.0, 0.0, 0.0), Point3D::new(0.0, 1.0, 0.0), Point3D::new(0.0, 0.0, 1.0), Point3D::new(5.0, 5.0, 5.0)];
        let all = [[0, 1, 2], [0, 2, 3], [0, 3, 1]]; let use_ = [bit(), bit(), bit()]; let flip = pick(0, 1) == 1; let mut t = vec![]; let mut sum = [[0.0f64; 3]; 5];
        for k in 0..3 { if use_[k] { let mut f = all[k]; if flip { f.swap(1, 2) } t.extend_from_slice(&f); for i in f.iter() { sum[*i][[2, 0, 1][k]] += if flip { -1.0 } else { 1.0 } } } }
        let m: M3 = mesh(&v, &t); let ns = normals_of_mesh::<Point3D, _>(&m); check(ns.len() == 5, "every vertex gets a normal");
        for i in 0..ns.len() { let s = sum[i]; let l = (s[0] * s[0] + s[1] * s[1] + s[2] * s[2]).sqrt(); let n = &ns[i]; obs_f(n.x());
            if l > 0.0 { check(near(n.x() * l, s[0]) & near(n.y() * l, s[1]) & near(n.z() * l, s[2]), "the normal of a vertex is the mean direction of the normals of its faces"); cover(1) } else { cover(2) } }
    }
    fn h_segments() { segments_() }
    fn h_segments2() { segments2_() }
    fn h_seg_len() { seg_len_() }
    fn h_seg_scale() { seg_scale_() }
    fn h_seg_scale2() { seg_scale2_() }
    fn h_pc_scale() { pc_scale_() }
    fn h_pc_scale2() { pc_scale2_() }
    fn h_pc_transform() { pc_transform_() }
    fn h_extrude() { extrude_() }
    fn h_center() { center_() }
    fn h_set_size() { set_size_() }
    fn h_segs_mag() { mag(); match pick(0, 3) { 0 => segments_(), 1 => segments2_(), 2 => seg_scale_(), _ => seg_scale2_() } }
    fn h_len_mag() { mag_odd(); seg_len_() }
    fn h_pcs_mag() { mag(); match pick(0, 2) { 0 => pc_scale_(), 1 => pc_scale2_(), _ => pc_transform_() } }
    fn h_move_mag() { mag(); match pick(0, 3) { 0 => extrude_(), 1 => center_(), 2 => set_size_(), _ => project_() } }
    fn h_ray_mag() { mag(); ray_tri_() }
    fn h_ray_mesh_mag() { mag(); ray_mesh_() }
    fn h_closest_mag() { mag(); closest(pick(0, 2), if pick(0, 1) == 0 { 1.0 } else { -1.0 }, 2) }
    fn h_normal_mag() { mag(); normal_() }
    fn h_hull_mag() { mag(); match pick(0, 2) { 0 => hull_small_(), 1 => hull3_(), _ => hull5_() } }
    fn h_dp_mag() { mag(); if bit() { dp_() } else { dp_y_() } }
    fn h_cog_mag() { mag(); if bit() { cog_() } else { length_() } }
}

//! KdTree, OcTree, AABBTree2D/3D, Cluster against brute force
use crate::util::*;
use crate::vp::*;
use rust_3d::*;

fn sq(a: &Point3D, b: &Point3D) -> f64 { (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z) }
fn count(ps: &[Point3D], p: &Point3D) -> usize { let mut n = 0; for q in ps { n += eq3(p, q) as usize; } n }
fn tree(ps: &[Point3D]) -> KdTree<Point3D> {
    let mut pc = PointCloud3D::new();
    for p in ps { pc.push(p.clone()); }
    let mut t = KdTree::default();
    check(t.build(pc).is_ok(), "a k-d tree is built from every non-empty cloud");
    t
}
/// each of `r` occurs in `ps`, at most as often as there
fn sub_multiset(r: &[Point3D], ps: &[Point3D], id: &'static str) { for p in r { check((count(ps, p) >= 1) & (count(r, p) <= count(ps, p)), id); } }

/// points with two symbolic coordinates on the axes (a, b), the third one fixed
fn pts(n: usize, a: usize, b: usize, hi: i64) -> Vec<Point3D> {
    let mut v = Vec::new();
    for i in 0..n {
        let mut c = [un((i * 2 % 3) as f64); 3];
        c[a] = fi(0, hi); c[b] = fi(0, hi);
        v.push(Point3D::new(c[0], c[1], c[2]));
    }
    v
}
fn pts_tied(n: usize, a: usize, b: usize, hi: i64) -> Vec<Point3D> {
    let mut v = Vec::new();
    for _ in 0..n {
        let mut c = [un(1.0); 3];
        c[a] = fi(0, hi); c[b] = fi(0, hi);
        v.push(Point3D::new(c[0], c[1], c[2]));
    }
    v
}
fn near(n: usize, k: usize, ps: Vec<Point3D>, s: Point3D) {
    let t = tree(&ps);
    let mut r = Vec::new();
    t.knearest(&s, k, &mut r);
    check(r.len() == k.min(n), "knearest finds k points, or all when there are fewer");
    sub_multiset(&r, &ps, "knearest finds points of the tree, each as often as stored at most");
    for i in 0..r.len() {
        let di = sq(&s, &r[i]);
        let (mut lt, mut le) = (0usize, 0usize);
        for p in &ps { lt += (sq(&s, p) < di) as usize; le += (sq(&s, p) <= di) as usize; }
        check((lt <= i) & (le > i), "the i-th of the k nearest is the i-th closest point");
    }
    match t.nearest(&s) {
        Some(p) => { for q in &ps { check(sq(&s, &p) <= sq(&s, q), "nearest finds the closest point"); } obs3(&p); }
        None => check(n == 0, "nearest finds a point in a non-empty tree"),
    }
    for p in &r { obs3(p); }
}
fn sphere(ps: Vec<Point3D>, c: Point3D, rad: f64) {
    let t = tree(&ps);
    let mut r = Vec::new();
    t.in_sphere(&Sphere { center: c.clone(), radius: Positive::new(rad).unwrap() }, &mut r);
    sub_multiset(&r, &ps, "in_sphere finds points of the tree, each as often as stored at most");
    for p in &ps {
        let ins = sq(&c, p) <= rad * rad;
        check((count(&r, p) == count(&ps, p)) == ins | (count(&ps, p) == 0), "in_sphere finds exactly the points within the radius");
        if !r.is_empty() { cover(1) } else { cover(2) }
    }
    for p in &r { obs3(p); }
}
fn boxq(ps: Vec<Point3D>, c: Point3D, s: [f64; 3]) {
    let t = tree(&ps);
    let mut r = Vec::new();
    let b = Box3D { center: c.clone(), size_x: Positive::new(s[0]).unwrap(), size_y: Positive::new(s[1]).unwrap(), size_z: Positive::new(s[2]).unwrap() };
    t.in_box(&b, &mut r);
    sub_multiset(&r, &ps, "in_box finds points of the tree, each as often as stored at most");
    for p in &ps {
        let ins = (2.0 * (p.x - c.x).abs() <= s[0]) & (2.0 * (p.y - c.y).abs() <= s[1]) & (2.0 * (p.z - c.z).abs() <= s[2]);
        check((count(&r, p) == count(&ps, p)) == ins, "in_box finds exactly the points within the box");
        if !r.is_empty() { cover(1) } else { cover(2) }
    }
    for p in &r { obs3(p); }
}
fn content(ps: Vec<Point3D>) {
    let t = tree(&ps);
    check(t.size() == ps.len(), "a k-d tree holds as many points as it was built from");
    let pc = t.to_pointcloud();
    check(pc.len() == ps.len(), "to_pointcloud lists every point of the tree");
    sub_multiset(&pc.data, &ps, "to_pointcloud lists exactly the points of the tree");
    for p in &pc.data { obs3(p); }
}

fn oct(ps: Vec<Point3D>) {
    let (mut fl, mut n) = ([true; 3], 0usize);
    for i in 0..ps.len() {
        fl[0] &= ps[i].x == ps[0].x; fl[1] &= ps[i].y == ps[0].y; fl[2] &= ps[i].z == ps[0].z;
        let mut first = true;
        for j in 0..i { first &= !eq3(&ps[i], &ps[j]); }
        n += first as usize;
    }
    let mut pc = PointCloud3D::new();
    for p in &ps { pc.push(p.clone()); }
    let mut t: OcTree<Point3D> = OcTree::default();
    let ok = t.build(pc).is_ok();
    check(ok == !(fl[0] | fl[1] | fl[2]), "an octree is built exactly from clouds spanning a volume");
    if !ok { cover(2); return; }
    cover(1);
    check(t.size() == n, "an octree holds every distinct point once");
    let r = t.to_pointcloud();
    check(r.len() == n, "to_pointcloud lists every distinct point once");
    for p in &ps { check(count(&r.data, p) == 1, "to_pointcloud lists every distinct point once"); }
    let all = t.collect(127);
    check(all.len() == r.len(), "collecting to an unreached depth lists every point");
    let d = t.collect(0);
    check((d.len() <= n) & (d.len() >= 1) & (d.len() <= 64), "collecting to a depth merges points only");
    if n <= 2 { check(d.len() == n, "two points lie in different nodes") }
    for p in &r.data { obs3(p); }
    for p in &d.data { obs3(p); }
}
#[derive(Clone)]
struct El3 { id: usize, bb: BoundingBox3D }
impl HasBoundingBox3D for El3 { fn bounding_box(&self) -> BoundingBox3D { self.bb.clone() } }
impl HasBoundingBox3DMaybe for El3 { fn bounding_box_maybe(&self) -> Option<BoundingBox3D> { Some(self.bb.clone()) } }
#[derive(Clone)]
struct El2 { id: usize, bb: BoundingBox2D }
impl HasBoundingBox2D for El2 { fn bounding_box(&self) -> BoundingBox2D { self.bb.clone() } }
impl HasBoundingBox2DMaybe for El2 { fn bounding_box_maybe(&self) -> Option<BoundingBox2D> { Some(self.bb.clone()) } }

/// boxes whose extent is symbolic along `ax` and fixed (all overlapping) elsewhere
fn els3(n: usize, ax: usize, hi: i64) -> Vec<El3> {
    (0..n).map(|id| {
        let mut a = [un(id as f64), un(1.0), un(0.5 + id as f64 / 2.0)]; let mut b = [un(id as f64 + 2.0), un(1.0 + 2.0 * (id + 1) as f64), un(4.0)];
        a[ax] = fi(0, hi); b[ax] = a[ax] + fi(1, 2);
        El3 { id, bb: BoundingBox3D::new(&Point3D::new(a[0], a[1], a[2]), &Point3D::new(b[0], b[1], b[2])).unwrap() }
    }).collect()
}
fn els2(n: usize, ax: usize, hi: i64) -> Vec<El2> {
    (0..n).map(|id| {
        let mut a = [un(id as f64), un(1.0)]; let mut b = [un(id as f64 + 2.0), un(1.0 + 2.0 * (id + 1) as f64)];
        a[ax] = fi(0, hi); b[ax] = a[ax] + fi(1, 2);
        El2 { id, bb: BoundingBox2D::new(&Point2D::new(a[0], a[1]), &Point2D::new(b[0], b[1])).unwrap() }
    }).collect()
}
fn ids3(r: &[&El3]) -> [usize; 32] { let mut c = [0; 32]; for e in r { c[e.id] += 1; } c }
fn ids2(r: &[&El2]) -> [usize; 32] { let mut c = [0; 32]; for e in r { c[e.id] += 1; } c }

fn aabb3_col(n: usize, ax: usize, depth: usize, bucket: usize) { aabb3_col_of(els3(n, ax, 3), ax, depth, bucket) }
fn aabb3_col_of(es: Vec<El3>, ax: usize, depth: usize, bucket: usize) {
    let n = es.len();
    let t = AABBTree3D::new(es.clone(), depth, bucket);
    let q = { let mut a = [un(0.0), un(1.0), un(1.0)]; let mut b = [un(4.0), un(4.0), un(3.0)]; if n > 4 { a[ax] = un(pick(0, 2) as f64 * 3.0); b[ax] = a[ax] + un(1.5) } else { a[ax] = fi(0, 5); b[ax] = a[ax] + fi(1, 2) } BoundingBox3D::new(&Point3D::new(a[0], a[1], a[2]), &Point3D::new(b[0], b[1], b[2])).unwrap() };
    let mut r = Vec::new();
    t.bb_colliding(&q, &mut r);
    let got = ids3(&r);
    let mut c = [0usize; 32];
    t.for_each_collision_candidate(&q, &mut |e| c[e.id] += 1);
    for e in &es {
        let (i, x) = (e.id, e.bb.collides_with(&q));
        check((got[i] > 0) == x, "bb_colliding finds exactly the colliding elements");
        check((c[i] > 0) == x, "for_each_collision_candidate visits exactly the colliding elements");
        if x { cover(1) } else { cover(2) }
        obs(got[i] as u64); obs(c[i] as u64);
    }
    let k = us(0, 3);
    check(t.any(&|e| e.id == k) == (k < n), "any tells whether an element satisfies the predicate");
}
fn aabb3_cross(n: usize, ax: usize, depth: usize, bucket: usize) { aabb3_cross_of(els3(n, ax, 3), ax, depth, bucket) }
fn aabb3_cross_of(es: Vec<El3>, ax: usize, depth: usize, bucket: usize) {
    let n = es.len();
    let t = AABBTree3D::new(es.clone(), depth, bucket);
    let v = if n > 4 { un(pick(0, 4) as f64 * 2.0) } else { fi(0, 8) };
    let mut r = Vec::new();
    match ax { 0 => t.bb_crossing_x_value(v, &mut r), 1 => t.bb_crossing_y_value(v, &mut r), _ => t.bb_crossing_z_value(v, &mut r) }
    let got = ids3(&r);
    for e in &es {
        let x = match ax { 0 => e.bb.crossing_x_value(v), 1 => e.bb.crossing_y_value(v), _ => e.bb.crossing_z_value(v) };
        check((got[e.id] > 0) == x, "bb_crossing finds exactly the elements crossing the value");
        if x { cover(1) } else { cover(2) }
    }
}
fn aabb2_col(n: usize, ax: usize, depth: usize, bucket: usize) { aabb2_col_of(els2(n, ax, 3), ax, depth, bucket) }
fn aabb2_col_of(es: Vec<El2>, ax: usize, depth: usize, bucket: usize) {
    let n = es.len();
    let t = AABBTree2D::new(es.clone(), depth, bucket);
    let q = { let mut a = [un(0.0), un(1.0)]; let mut b = [un(4.0), un(4.0)]; if n > 4 { a[ax] = un(pick(0, 2) as f64 * 3.0); b[ax] = a[ax] + un(1.5) } else { a[ax] = fi(0, 5); b[ax] = a[ax] + fi(1, 2) } BoundingBox2D::new(&Point2D::new(a[0], a[1]), &Point2D::new(b[0], b[1])).unwrap() };
    let mut r = Vec::new();
    t.bb_colliding(&q, &mut r);
    let got = ids2(&r);
    let mut c = [0usize; 32];
    t.for_each_collision_candidate(&q, &mut |e| c[e.id] += 1);
    for e in &es {
        let (i, x) = (e.id, e.bb.collides_with(&q));
        check((got[i] > 0) == x, "bb_colliding finds exactly the colliding elements");
        check((c[i] > 0) == x, "for_each_collision_candidate visits exactly the colliding elements");
        if x { cover(1) } else { cover(2) }
        obs(got[i] as u64); obs(c[i] as u64);
    }
    let k = us(0, 3);
    check(t.any(&|e| e.id == k) == (k < n), "any tells whether an element satisfies the predicate");
}
fn aabb2_cross(n: usize, ax: usize, depth: usize, bucket: usize) { aabb2_cross_of(els2(n, ax, 3), ax, depth, bucket) }
fn aabb2_cross_of(es: Vec<El2>, ax: usize, depth: usize, bucket: usize) {
    let n = es.len();
    let t = AABBTree2D::new(es.clone(), depth, bucket);
    let v = if n > 4 { un(pick(0, 4) as f64 * 2.0) } else { fi(0, 8) };
    let mut r = Vec::new();
    if ax == 0 { t.bb_crossing_x_value(v, &mut r) } else { t.bb_crossing_y_value(v, &mut r) }
    let got = ids2(&r);
    for e in &es {
        let x = if ax == 0 { e.bb.crossing_x_value(v) } else { e.bb.crossing_y_value(v) };
        check((got[e.id] > 0) == x, "bb_crossing finds exactly the elements crossing the value");
        if x { cover(1) } else { cover(2) }
    }
}
/// scattered points, some of them twice
fn cloud(n: usize) -> Vec<Point3D> { (0..n).map(|i| { let i = if i % 8 == 7 { i - 5 } else { i }; Point3D::new(un((i * 7 % 12) as f64), un((i * 5 % 9) as f64), un((i * 11 % 7) as f64)) }).collect() }
/// one coordinate of one of them is free
fn many(n: usize) -> Vec<Point3D> {
    let mut v = cloud(n); let (k, a) = ([0, n / 3, n - 1][pick(0, 2)], pick(0, 2)); let x = fi(-1, 12); match a { 0 => v[k].x = x, 1 => v[k].y = x, _ => v[k].z = x } v
}
fn els_many(ax: usize) -> Vec<El3> {
    let k = [0, 9, 19][pick(0, 2)]; cloud(20).iter().enumerate().map(|(id, p)| { let mut a = [p.x, p.y, p.z]; if id == k { a[ax] = fi(0, 8) } let s = un(1.0 + (id % 3) as f64); El3 { id, bb: BoundingBox3D::new(&Point3D::new(a[0], a[1], a[2]), &Point3D::new(a[0] + s, a[1] + s, a[2] + un(4.0) - s)).unwrap() } }).collect()
}
fn flat(es: Vec<El3>) -> Vec<El2> { es.into_iter().map(|e| El2 { id: e.id, bb: BoundingBox2D::new(&Point2D::new(e.bb.min_p().x, e.bb.min_p().y), &Point2D::new(e.bb.max_p().x, e.bb.max_p().y)).unwrap() }).collect() }
fn eln3(n: usize, ax: usize) {
    // a line along axis `ax` or a diagonal one, through a symbolic position
    let es = els3(n, (ax + 1) % 3, 3);
    let t = AABBTree3D::new(es.clone(), 4, 1);
    let mut o = [un(2.0); 3]; o[ax] = fi(-2, 6); o[(ax + 1) % 3] = fi(0, 6);
    let l = Line3D::new(Point3D::new(o[0], o[1], o[2]), match ax { 0 => Norm3D::norm_x(), 1 => Norm3D::norm_y_neg(), _ => Norm3D::norm_z() });
    let mut c = [0usize; 32];
    t.for_each_intersection_candidate(&l, &mut |e| c[e.id] += 1);
    for e in &es {
        let x = intersection(&l, &e.bb).is_some();
        let (mn, mx) = (e.bb.min_p(), e.bb.max_p());
        let (a, b) = ([mn.x, mn.y, mn.z], [mx.x, mx.y, mx.z]);
        let (u, v) = ((ax + 1) % 3, (ax + 2) % 3);
        let ahead = if ax == 1 { a[ax] <= o[ax] } else { b[ax] >= o[ax] };
        let within = (a[u] < o[u]) & (o[u] < b[u]) & (a[v] < o[v]) & (o[v] < b[v]);
        let touch = (a[u] <= o[u]) & (o[u] <= b[u]) & (a[v] <= o[v]) & (o[v] <= b[v]);
        check(!(within & ahead) | x, "a line ahead through the inside of a box hits it");
        check(!x | (touch & ahead), "a line that misses a box, or has it behind, does not hit it");
        check((c[e.id] > 0) == x, "for_each_intersection_candidate visits exactly the elements whose box the line hits");
        if x { cover(1) } else { cover(2) }
        obs(c[e.id] as u64);
    }
}

fn cluster_x() {
    let (nx, ny) = (pick(1, 3) as u16, pick(1, 3) as u16);
    let es: Vec<El3> = (0..2).map(|id| {
        let a = [fi(0, 3), un(id as f64), 0.0]; let b = [a[0] + fi(1, 2), un(3.0), un(1.0)];
        El3 { id, bb: BoundingBox3D::new(&Point3D::new(a[0], a[1], a[2]), &Point3D::new(b[0], b[1], b[2])).unwrap() }
    }).collect();
    let c = match Cluster::new(es.clone(), nx, ny) { Ok(c) => c, Err(_) => { check(false, "a cluster is built from elements with boxes"); return } };
    let (x, y) = (fi(0, 5), un(1.5));
    let mut got = [0usize; 2];
    c.for_each_candidate(x, y, &mut |e| got[e.id] += 1);
    for e in &es {
        let ins = (e.bb.min_p().x < x) & (x < e.bb.max_p().x) & (e.bb.min_p().y < y) & (y < e.bb.max_p().y);
        check(!ins | (got[e.id] == 1), "every element over a position is a candidate there, once");
        check(got[e.id] <= 1, "an element is a candidate at most once");
        if ins { cover(1) } else { cover(2) }
        obs(got[e.id] as u64);
    }
}
fn cluster_y() {
    let (nx, ny) = (pick(1, 2) as u16, pick(1, 3) as u16);
    let es: Vec<El3> = (0..2).map(|id| {
        let a = [un(id as f64), fi(0, 3), 0.0]; let b = [un(3.0), a[1] + fi(1, 2), un(1.0)];
        El3 { id, bb: BoundingBox3D::new(&Point3D::new(a[0], a[1], a[2]), &Point3D::new(b[0], b[1], b[2])).unwrap() }
    }).collect();
    let c = match Cluster::new(es.clone(), nx, ny) { Ok(c) => c, Err(_) => { check(false, "a cluster is built from elements with boxes"); return } };
    let (x, y) = (un(1.5), fi(0, 5));
    let mut got = [0usize; 2];
    c.for_each_candidate(x, y, &mut |e| got[e.id] += 1);
    for e in &es {
        let ins = (e.bb.min_p().x < x) & (x < e.bb.max_p().x) & (e.bb.min_p().y < y) & (y < e.bb.max_p().y);
        check(!ins | (got[e.id] == 1), "every element over a position is a candidate there, once");
        check(got[e.id] <= 1, "an element is a candidate at most once");
        if ins { cover(1) } else { cover(2) }
        obs(got[e.id] as u64);
    }
}
harnesses! {
    fn h_kd_many() { let k = [1, 6, 30][pick(0, 2)]; let s = [Point3D::new(5.0, 4.0, 3.0), Point3D::new(-1.0, 9.5, 2.0), Point3D::new(7.0, 0.0, 7.0)][pick(0, 2)].clone(); cover(1); near(24, k, many(24), s) }
    fn h_kd_many_query() { let v = many(24); let c = Point3D::new([2.0, 6.5][pick(0, 1)], 4.0, [1.0, 5.0][pick(0, 1)]); if bit() { sphere(v, c, [1.0, 3.0, 5.0][pick(0, 2)]) } else { let s = [[2.0, 9.0, 3.0], [8.0, 4.0, 12.0], [1.0, 2.0, 1.0]][pick(0, 2)]; boxq(v, c, s) } }
    fn h_kd_many_content() { cover(1); content(many(24)) }
    fn h_oct_many() { let n = [16, 24][pick(0, 1)]; oct(many(n)) }
    fn h_aabb_many() {
        let (d, b) = [(3, 2), (8, 1), (2, 6)][pick(0, 2)]; let ax = pick(0, 2);
        match pick(0, 3) { 0 => aabb3_col_of(els_many(ax), ax, d, b), 1 => aabb3_cross_of(els_many(ax), ax, d, b), 2 => { let ax = ax % 2; aabb2_col_of(flat(els_many(ax)), ax, d, b) } _ => { let ax = ax % 2; aabb2_cross_of(flat(els_many(ax)), ax, d, b) } }
    }
    fn h_cluster_many() {
        let (nx, ny) = [(4, 4), (7, 2), (1, 5)][pick(0, 2)]; let ax = pick(0, 1); let es = els_many(ax);
        let c = match Cluster::new(es.clone(), nx, ny) { Ok(c) => c, Err(_) => { check(false, "a cluster is built from elements with boxes"); return } };
        let (x, y) = [(0.25, 0.25), (5.5, 4.25), (11.75, 8.5), (3.25, 7.75)][pick(0, 3)]; let mut got = [0usize; 20]; c.for_each_candidate(x, y, &mut |e| got[e.id] += 1);
        for e in &es { let ins = (e.bb.min_p().x < x) & (x < e.bb.max_p().x) & (e.bb.min_p().y < y) & (y < e.bb.max_p().y); check(!ins | (got[e.id] == 1), "every element over a position is a candidate there, once"); check(got[e.id] <= 1, "an element is a candidate at most once"); if ins { cover(1) } else { cover(2) } obs(got[e.id] as u64) }
    }
    fn h_kd_near() {
        let n = pick(1, 3); let k = pick(1, 3);
        let ps = pts(n, 0, 1, 3); let s = Point3D::new(fi(0, 3), un(1.0), un(1.0));
        if n > k { cover(1) } else { cover(2) }
        near(n, k, ps, s);
    }
    fn h_kd_near_xz() {
        let n = pick(2, 3); let k = pick(1, 2);
        let ps = pts(n, 0, 2, 3); let s = Point3D::new(fi(0, 3), un(1.0), un(1.0));
        cover(1);
        near(n, k, ps, s);
    }
    fn h_kd_near4() {
        let k = pick(1, 3);
        let mut ps = Vec::new();
        for i in 0..4 { ps.push(Point3D::new(fi(0, 5), un((i * 3 % 5) as f64), un((i % 2) as f64))); }
        cover(1);
        near(4, k, ps, Point3D::new(un(3.0), un(2.0), 0.0));
    }
    fn h_kd_any() {
        // arbitrary finite doubles along one axis: the tree keeps and orders points of any magnitude
        let ps: Vec<Point3D> = (0..3).map(|i| Point3D::new(fin_f64(), i as f64, 0.0)).collect();
        cover(1);
        content(ps);
    }
    fn h_kd_sphere() { let ps = pts(3, 0, 1, 3); let c = Point3D::new(fi(0, 3), un(1.0), un(1.0)); let r = [un(1.0), un(2.0), un(2.5)][pick(0, 2)]; sphere(ps, c, r); }
    fn h_kd_sphere_z() { let ps = pts(3, 1, 2, 3); let c = Point3D::new(un(1.0), un(1.0), fi(0, 3)); let r = [un(1.0), un(2.0), un(2.5)][pick(0, 2)]; sphere(ps, c, r); }
    fn h_kd_sphere_tied() { let ps = pts_tied(3, 0, 1, 3); let c = Point3D::new(fi(0, 3), un(1.0), un(1.0)); let r = [un(1.0), un(2.0)][pick(0, 1)]; sphere(ps, c, r); }
    fn h_kd_box_tied() { let ps = pts_tied(3, 0, 1, 3); let c = Point3D::new(fi(0, 3), un(1.0), un(1.0)); let s = [fi(1, 4), fi(1, 4), un(2.0)]; boxq(ps, c, s); }
    fn h_kd_box() { let ps = pts(3, 0, 1, 3); let c = Point3D::new(fi(0, 3), un(1.0), un(1.0)); let s = [fi(1, 4), fi(1, 4), un(3.0)]; boxq(ps, c, s); }
    fn h_kd_box_z() { let ps = pts(3, 1, 2, 3); let c = Point3D::new(un(1.0), un(1.0), fi(0, 3)); let s = [un(3.0), fi(1, 4), fi(1, 4)]; boxq(ps, c, s); }
    fn h_kd_content() { let n = pick(1, 4); cover(1); content(pts(n, 0, 1, 3)); }
    fn h_kd_empty() {
        let mut t: KdTree<Point3D> = KdTree::default();
        check(t.build(PointCloud3D::new()).is_err(), "no tree is built from an empty cloud");
        check(t.size() == 0, "an empty tree has size 0");
        check(t.to_pointcloud().len() == 0, "an empty tree lists no points");
        let s = p3(0, 3); let mut r = Vec::new();
        t.knearest(&s, us(0, 5), &mut r);
        check(r.is_empty() & t.nearest(&s).is_none(), "an empty tree finds nothing");
        let ps = pts(2, 0, 1, 3);
        let t = tree(&ps); t.knearest(&s, 0, &mut r);
        check(r.is_empty(), "asking for no points finds none");
        cover(1);
    }
    fn h_aabb3_col_x() { aabb3_col(3, 0, 3, 1) }
    fn h_aabb3_col_y() { aabb3_col(3, 1, 4, 1) }
    fn h_aabb3_col_z() { aabb3_col(3, 2, 4, 1) }
    fn h_aabb3_cross_x() { aabb3_cross(3, 0, 3, 1) }
    fn h_aabb3_cross_y() { aabb3_cross(3, 1, 4, 1) }
    fn h_aabb3_cross_z() { aabb3_cross(3, 2, 4, 1) }
    fn h_aabb3_cfg() { let d = pick(0, 4); let b = pick(0, 3); aabb3_col(2, 1, d, b); aabb3_cross(2, 2, d, b) }
    fn h_aabb2_col_x() { aabb2_col(3, 0, 4, 1) }
    fn h_aabb2_col_y() { aabb2_col(3, 1, 3, 1) }
    fn h_aabb2_cross_x() { aabb2_cross(3, 0, 4, 1) }
    fn h_aabb2_cross_y() { aabb2_cross(3, 1, 3, 1) }
    fn h_aabb2_cfg() { let d = pick(0, 4); let b = pick(0, 3); aabb2_col(2, 0, d, b); aabb2_cross(2, 1, d, b) }
    fn h_aabb_line_x() { eln3(3, 0) }
    fn h_aabb_line_y() { eln3(3, 1) }
    fn h_aabb_line_z() { eln3(3, 2) }
    fn h_oct2() { oct(vec![p3(0, 3), p3(0, 3)]) }
    fn h_oct3() { oct(vec![Point3D::new(0.0, fi(0, 2), fi(0, 2)), Point3D::new(4.0, 1.0, fi(0, 4)), Point3D::new(fi(0, 4), fi(0, 4), 3.0)]) }
    fn h_oct4() { oct(vec![Point3D::new(0.0, 0.0, 0.0), Point3D::new(4.0, 4.0, 4.0), Point3D::new(fi(0, 4), fi(0, 4), 1.0), Point3D::new(fi(0, 4), 2.0, 1.0)]) }
    fn h_oct_near() {
        // points of very different distances: adjacent doubles up to far apart
        let e = us(0, 200); let d = f64::from_bits(((1023 - e) as u64) << 52);
        let mut ps = vec![Point3D::new(0.0, 0.0, 0.0), Point3D::new(d, 0.5 * d, 0.0), Point3D::new(8.0, 8.0, 8.0)];
        if bit() { ps.swap(0, 2) }
        oct(ps);
    }
    fn h_oct_deep() {
        // adjacent doubles
        let i = us(0, 7); let a = 1.0 + i as f64; let b = f64::from_bits(a.to_bits() + 1);
        oct(vec![Point3D::new(a, a, a), Point3D::new(b, b, b), Point3D::new(b, a, b), Point3D::new(a, a, b)]);
    }
    fn h_oct_dup() { let p = p3(0, 2); let mut ps = vec![p.clone(), p3(0, 2), p]; ps.push(ps[1].clone()); oct(ps) }
    fn h_cluster() { cluster_x() }
    fn h_cluster_y() { cluster_y() }
    fn h_kd_mag_near() { mag(); let k = pick(1, 2); let ps = pts(3, 0, 1, 3); cover(1); near(3, k, ps, Point3D::new(fi(0, 3), un(1.0), un(1.0))) }
    fn h_kd_mag_range() { mag(); let ps = pts(3, 0, 1, 3); let c = Point3D::new(fi(0, 3), un(1.0), un(1.0)); if bit() { sphere(ps, c, un([1.0, 2.0, 2.5][pick(0, 2)])) } else { boxq(ps, c, [fi(1, 4), un(2.0), un(3.0)]) } }
    fn h_kd_mag_content() { mag_odd(); cover(1); content(pts(3, 0, 1, 3)) }
    fn h_kd_mag_many() { mag_odd(); let n = 12; let v = many(n); cover(1); match pick(0, 2) { 0 => near(n, [1, 5][pick(0, 1)], v, Point3D::new(un(5.0), un(4.0), un(3.0))), 1 => sphere(v, Point3D::new(un(2.0), un(4.0), un(1.0)), un([3.0, 5.0][pick(0, 1)])), _ => boxq(v, Point3D::new(un(6.5), un(4.0), un(5.0)), [un(2.0), un(9.0), un(8.0)]) } }
    fn h_oct_mag() { mag_odd(); oct(vec![p3(0, 3), p3(0, 3)]) }
    fn h_oct_mag3() { mag_odd(); oct(vec![Point3D::new(un(0.0), fi(0, 2), un(1.0)), Point3D::new(un(4.0), un(1.0), fi(0, 4)), Point3D::new(fi(0, 4), un(4.0), un(3.0))]) }
    fn h_aabb_mag() { mag_odd(); let ax = pick(0, 2); match pick(0, 4) { 0 => aabb3_col(2, ax, 3, 1), 1 => aabb3_cross(2, ax, 3, 1), 2 => aabb2_col(2, ax % 2, 3, 1), 3 => aabb2_cross(2, ax % 2, 3, 1), _ => eln3(2, ax) } }
    fn h_cluster_mag() { mag(); if bit() { cluster_x() } else { cluster_y() } }
}

//! helpers shared by the harness modules
use crate::vp::*;
use rust_3d::*;

pub type M3 = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
pub type MV<IC> = Mesh3D<Point3D, PointCloud3D<Point3D>, IC>;

pub fn p3(lo: i64, hi: i64) -> Point3D { Point3D::new(fi(lo, hi), fi(lo, hi), fi(lo, hi)) }
pub fn p2(lo: i64, hi: i64) -> Point2D { Point2D::new(fi(lo, hi), fi(lo, hi)) }
pub fn any_p3() -> Point3D { Point3D::new(any_f64(), any_f64(), any_f64()) }
pub fn any_p2() -> Point2D { Point2D::new(any_f64(), any_f64()) }
pub fn fin_p3() -> Point3D { Point3D::new(fin_f64(), fin_f64(), fin_f64()) }
pub fn fin_p2() -> Point2D { Point2D::new(fin_f64(), fin_f64()) }
pub fn eq3(a: &Point3D, b: &Point3D) -> bool { (a.x == b.x) & (a.y == b.y) & (a.z == b.z) }
pub fn eq2(a: &Point2D, b: &Point2D) -> bool { (a.x == b.x) & (a.y == b.y) }
pub fn obs3(a: &Point3D) { obs_f(a.x); obs_f(a.y); obs_f(a.z); }
pub fn obs2(a: &Point2D) { obs_f(a.x); obs_f(a.y); }
/// equal as bit patterns (tells 0.0 from -0.0 and NaN payloads apart)
pub fn same_bits(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }
/// equal up to IEEE equality, or both NaN
pub fn feq(a: f64, b: f64) -> bool { (a == b) | ((a != a) & (b != b)) }
/// the three rotations of a face
pub fn cyc(a: [usize; 3], b: [usize; 3]) -> bool {
    ((a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]))
        | ((a[0] == b[1]) & (a[1] == b[2]) & (a[2] == b[0]))
        | ((a[0] == b[2]) & (a[1] == b[0]) & (a[2] == b[1]))
}
/// same vertices, either orientation
pub fn same_set(a: [usize; 3], b: [usize; 3]) -> bool { cyc(a, b) | cyc(a, [b[0], b[2], b[1]]) }
pub fn face<M: IsMesh<Point3D, Face3>>(m: &M, i: usize) -> [usize; 3] {
    match m.face_vertex_ids(FId(i)) { Some(f) => [f.a.0, f.b.0, f.c.0], None => { check(false, "every face id below num_faces has vertex ids"); [0, 0, 0] } }
}
/// a mesh over `nv` given vertices with `nf` valid symbolic faces (distinct vertex ids, in range)
pub fn sym_topo(nv: usize, nf: usize) -> Vec<usize> {
    let mut t = Vec::new();
    for _ in 0..nf {
        let (a, b, c) = (us(0, nv - 1), us(0, nv - 1), us(0, nv - 1));
        assume((a != b) & (a != c) & (b != c));
        t.push(a); t.push(b); t.push(c);
    }
    t
}
pub fn conc_topo(nv: usize, nf: usize) -> Vec<usize> {
    let mut t = Vec::new();
    for _ in 0..nf {
        let a = pick(0, nv - 1); let b = pick(0, nv - 1);
        assume(a != b);
        let c = pick(0, nv - 1);
        assume((a != c) & (b != c));
        t.push(a); t.push(b); t.push(c);
    }
    t
}
pub fn mesh<IC: IsIndexContainer>(pts: &[Point3D], t: &[usize]) -> MV<IC> {
    let mut pc = PointCloud3D::<Point3D>::new();
    for p in pts { pc.push(p.clone()); }
    let mut ic = IC::default();
    for x in t { ic.push(*x); }
    Mesh3D::from((pc, ic))
}
/// bounding boxes of collections of many points
pub fn bb_many() {
    use std::collections::VecDeque; let c3 = |v: &Vec<Point3D>| { let mut c = PointCloud3D::<Point3D>::new(); for p in v { c.push(p.clone()) } c }; let c2 = |v: &Vec<Point2D>| { let mut c = PointCloud2D::<Point2D>::new(); for p in v { c.push(p.clone()) } c };
    // an extreme anywhere among many points
    let n = [4, 7, 8, 40][pick(0, 3)]; let k = [0, 1, n / 2, n - 2, n - 1][pick(0, 4)]; let mut ps: Vec<Point3D> = (0..n).map(|i| Point3D::new((i % 3) as f64, (i % 2) as f64, (i * 5 % 4) as f64)).collect(); ps[k] = p3(-8, 8);
    let (mut mn, mut mx) = (ps[0].clone(), ps[0].clone()); for p in &ps { mn = Point3D::new(mn.x.min(p.x), mn.y.min(p.y), mn.z.min(p.z)); mx = Point3D::new(mx.x.max(p.x), mx.y.max(p.y), mx.z.max(p.z)) }
    let mut c = PointCloud3Df32::new(); for p in &ps { c.push(p.clone()) } let q: VecDeque<Point3D> = ps.iter().cloned().collect();
    for b in [c.bounding_box_maybe(), c3(&ps).bounding_box_maybe(), BoundingBox3D::from_iterator(ps.iter()).ok(), BoundingBox3D::from_iterator(q.iter()).ok(), Polygon3D::from(c3(&ps)).bounding_box_maybe()] { match b { None => check(false, "points that spread along every axis have a bounding box"), Some(b) => { check(eq3(&b.min_p(), &mn) & eq3(&b.max_p(), &mx), "the bounding box of a collection touches its outermost points"); obs3(&b.min_p()); cover(1) } } }
    let s2: Vec<Point2D> = ps.iter().map(|p| Point2D::new(p.x, p.y)).collect(); let q: VecDeque<Point2D> = s2.iter().cloned().collect();
    for b in [c2(&s2).bounding_box_maybe(), BoundingBox2D::from_iterator(s2.iter()).ok(), BoundingBox2D::from_iterator(q.iter()).ok(), Polygon2D::from(c2(&s2)).bounding_box_maybe()] { match b { None => check(false, "points that spread along every axis have a bounding box"), Some(b) => { let (l, h) = (b.min_p(), b.max_p()); check((l.x == mn.x) & (l.y == mn.y) & (h.x == mx.x) & (h.y == mx.y), "the bounding box of a collection touches its outermost points") } } }
}

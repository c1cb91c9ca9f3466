use crate::vp::*;
use rust_3d::{*, io::*};

fn text(n: usize, alpha: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..n {
        let b = byte();
        let mut ok = false;
        for a in alpha { ok |= b == *a; }
        assume(ok);
        v.push(b);
    }
    v
}
fn xyz(n: usize, full: bool) {
    let mut v = Vec::new();
    if full { for _ in 0..n { v.push(byte()) } } else { v = text(n, b"1.- \n;x"); }
    let mut pc = PointCloud3D::<Point3D>::new();
    let r = load_xyz(v.as_slice(), &mut pc);
    cover(if r.is_ok() {1} else {2});
    obs(pc.len() as u64);
    for p in &pc.data { obs_f(p.x); obs_f(p.y); obs_f(p.z); }
}
harnesses! {
fn h_xyz6() { xyz(6, false) }
fn h_xyz5f() { xyz(5, true) }
fn h_stlb() {
    let n = 84 + 50 + 10;
    let mut v = vec![b'x'; 80];
    for _ in 80..n { v.push(byte()) }
    let mut m: Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>> = Mesh3D::default();
    let mut nn: Vec<Point3D> = vec![]; let r = load_stl_mesh_duped(&mut v.as_slice(), StlFormat::Binary, &mut m, &mut nn);
    cover(if r.is_ok() {1} else {2});
    obs(m.num_vertices() as u64);
}
fn h_fmt() {
    let x = fi(-3, 12);
    let s = x.to_string();
    obs_bytes(s.as_bytes());
    let y: f64 = s.parse().unwrap();
    check(x == y, "rt");
}
fn h_kdk() {
    let mut pc = PointCloud3D::<Point3D>::new();
    let mut v = vec![];
    for _ in 0..4 { let p = Point3D::new(fi(0,3),fi(0,3),0.0); v.push(p.clone()); pc.push(p); }
    let mut t = KdTree::default();
    t.build(pc).unwrap();
    let q = Point3D::new(fi(0,3),fi(0,3),0.0);
    let mut r = vec![]; t.knearest(&q, 2, &mut r);
    check(r.len()==2, "len");
    let mut far = 0.0; for p in &r { let d = sqr_dist_3d(&q, p); if d > far { far = d } }
    let mut closer = 0; for p in &v { if sqr_dist_3d(&q, p) < far { closer += 1 } }
    check(closer < 2, "k nearest");
}
}

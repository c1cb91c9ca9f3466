//! shapes and meshes as a whole: corners, bounding boxes, moving, scaling
use crate::util::*;
use crate::vp::*;
use rust_3d::*;
use std::collections::VecDeque;

fn pos(x: f64) -> Positive { match Positive::new(x) { Some(p) => p, None => { check(false, "Positive::new accepts positive values"); Positive::one() } } }
fn is_bb2(b: &BoundingBox2D, l: [f64; 2], h: [f64; 2], what: &str) { let (p, q) = (b.min_p(), b.max_p()); check((p.x == l[0]) & (p.y == l[1]) & (q.x == h[0]) & (q.y == h[1]), what); obs2(&p); obs2(&q); }
fn is_bb3(b: &BoundingBox3D, l: [f64; 3], h: [f64; 3], what: &str) { let (p, q) = (b.min_p(), b.max_p()); check((p.x == l[0]) & (p.y == l[1]) & (p.z == l[2]) & (q.x == h[0]) & (q.y == h[1]) & (q.z == h[2]), what); obs3(&p); obs3(&q); }
fn near3(b: &BoundingBox3D, l: [f64; 3], h: [f64; 3], what: &str) {
    let (p, q) = (b.min_p(), b.max_p()); let n = |a: f64, b: f64| (a - b < 1e-9) & (b - a < 1e-9);
    check(n(p.x, l[0]) & n(p.y, l[1]) & n(p.z, l[2]) & n(q.x, h[0]) & n(q.y, h[1]) & n(q.z, h[2]), what); obs3(&p); obs3(&q);
}
fn some2(b: Option<BoundingBox2D>, w: BoundingBox2D, what: &str) { match b { Some(b) => check(b == w, what), None => check(false, what) } }
fn some3(b: Option<BoundingBox3D>, w: BoundingBox3D, what: &str) { match b { Some(b) => check(b == w, what), None => check(false, what) } }
fn factor() -> f64 { [0.5, 2.0, 3.0][pick(0, 2)] }

fn box2(b: &Box2D, c: [f64; 2], s: [f64; 2]) {
    let (l, h) = ([c[0] - s[0] / 2.0, c[1] - s[1] / 2.0], [c[0] + s[0] / 2.0, c[1] + s[1] / 2.0]);
    let (p, q, z) = (b.min_p(), b.max_p(), b.sizes());
    check((p.x == l[0]) & (p.y == l[1]), "the lower corner of a box lies half its size below its center"); check((q.x == h[0]) & (q.y == h[1]), "the upper corner of a box lies half its size above its center");
    check((*z[0] == s[0]) & (*z[1] == s[1]), "the sizes of a box are those it has along each axis"); obs2(&p); obs2(&q);
    is_bb2(&b.bounding_box(), l, h, "the bounding box of a box has its corners"); some2(b.bounding_box_maybe(), b.bounding_box(), "a box has a bounding box");
    check((Is2D::x(b) == c[0]) & (Is2D::y(b) == c[1]), "a box is positioned at its center");
}
fn box3(b: &Box3D, c: [f64; 3], s: [f64; 3]) {
    let (mut l, mut h) = ([0.0; 3], [0.0; 3]); for k in 0..3 { l[k] = c[k] - s[k] / 2.0; h[k] = c[k] + s[k] / 2.0; }
    let (p, q, z) = (b.min_p(), b.max_p(), b.sizes());
    check((p.x == l[0]) & (p.y == l[1]) & (p.z == l[2]), "the lower corner of a box lies half its size below its center"); check((q.x == h[0]) & (q.y == h[1]) & (q.z == h[2]), "the upper corner of a box lies half its size above its center");
    check((*z[0] == s[0]) & (*z[1] == s[1]) & (*z[2] == s[2]), "the sizes of a box are those it has along each axis"); obs3(&p); obs3(&q);
    is_bb3(&b.bounding_box(), l, h, "the bounding box of a box has its corners"); some3(b.bounding_box_maybe(), b.bounding_box(), "a box has a bounding box");
    check((Is3D::x(b) == c[0]) & (Is3D::y(b) == c[1]) & (Is3D::z(b) == c[2]), "a box is positioned at its center");
}

struct B2(Option<BoundingBox2D>, u8);
impl HasBoundingBox2DMaybe for B2 { fn bounding_box_maybe(&self) -> Option<BoundingBox2D> { self.0.clone() } }
struct B3(Option<BoundingBox3D>, u8);
impl HasBoundingBox3DMaybe for B3 { fn bounding_box_maybe(&self) -> Option<BoundingBox3D> { self.0.clone() } }

type Fc = Mesh3D<Point3D, PointCloud3Df32<Point3D>, U32IndexVec>;
type Mv = Mesh3D<Point3D, Vec<Point3D>, Vec<usize>>;
type Mq = Mesh3D<Point3D, VecDeque<Point3D>, DynamicPrecisionIndexVec>;
fn topo() -> Vec<usize> { vec![0, 1, 2, 2, 1, 0] }
fn pts3() -> Vec<Point3D> { (0..3).map(|_| p3(-8, 8)).collect() }
fn keeps<M: IsMesh<Point3D, Face3>>(m: &M) {
    check((m.num_faces() == 2) & (m.num_vertices() == 3), "moving, scaling or transforming a mesh keeps its faces and vertices"); let t = topo();
    for i in 0..2 { let f = face(m, i); check((f[0] == t[3 * i]) & (f[1] == t[3 * i + 1]) & (f[2] == t[3 * i + 2]), "moving, scaling or transforming a mesh keeps the vertex ids of its faces") }
}
fn verts<M: IsMesh<Point3D, Face3>>(m: &M, w: &[Point3D], what: &str) {
    keeps(m); let t = topo();
    for i in 0..3 { match m.vertex(VId(i)) { Some(p) => { check(eq3(&p, &w[i]), what); obs3(&p) } None => check(false, what) } }
    for i in 0..2 { match m.face_vertices(FId(i)) { Some(f) => for k in 0..3 { check(eq3(&f[k], &w[t[3 * i + k]]), what) }, None => check(false, what) } }
}

fn box2_() {
    let (c, s) = ([fi(-8, 8), fi(-8, 8)], [fi(1, 8), fi(1, 8)]); let d = [fi(-8, 8), fi(-8, 8)]; let f = factor();
    let mut b = Box2D { center: Point2D::new(c[0], c[1]), size_x: pos(s[0]), size_y: pos(s[1]) };
    box2(&b, c, s); b.move_by(d[0], d[1]); let c = [c[0] + d[0], c[1] + d[1]]; box2(&b, c, s);
    b.scale(pos(f)); box2(&b, c, [s[0] * f, s[1] * f]);
    let bb = b.bounding_box(); let e: Box2D = bb.clone().into(); box2(&e, c, [s[0] * f, s[1] * f]); cover(1)
}
fn box3_() {
    let (c, s) = ([fi(-8, 8), fi(-8, 8), fi(-8, 8)], [fi(1, 8), fi(1, 8), fi(1, 8)]); let d = [fi(-8, 8), fi(-8, 8), fi(-8, 8)]; let f = factor();
    let mut b = Box3D { center: Point3D::new(c[0], c[1], c[2]), size_x: pos(s[0]), size_y: pos(s[1]), size_z: pos(s[2]) };
    box3(&b, c, s); b.move_by(d[0], d[1], d[2]); let c = [c[0] + d[0], c[1] + d[1], c[2] + d[2]]; box3(&b, c, s);
    b.scale(pos(f)); let s = [s[0] * f, s[1] * f, s[2] * f]; box3(&b, c, s);
    let bb = b.bounding_box(); let e: Box3D = bb.clone().into(); box3(&e, c, s); cover(1)
}
fn round_() {
    let (c, r, f) = ([fi(-8, 8), fi(-8, 8), fi(-8, 8)], fi(1, 8), factor());
    let mut a = Circle { center: Point2D::new(c[0], c[1]), radius: pos(r) }; let mut s = Sphere { center: Point3D::new(c[0], c[1], c[2]), radius: pos(r) };
    for r in [r, r * f] {
        is_bb2(&a.bounding_box(), [c[0] - r, c[1] - r], [c[0] + r, c[1] + r], "the bounding box of a circle reaches its radius to all sides"); some2(a.bounding_box_maybe(), a.bounding_box(), "a circle has a bounding box");
        is_bb3(&s.bounding_box(), [c[0] - r, c[1] - r, c[2] - r], [c[0] + r, c[1] + r, c[2] + r], "the bounding box of a sphere reaches its radius to all sides"); some3(s.bounding_box_maybe(), s.bounding_box(), "a sphere has a bounding box");
        check((*a.radius == r) & (*s.radius == r) & (a.center.x == c[0]) & (a.center.y == c[1]) & (s.center.x == c[0]) & (s.center.y == c[1]) & (s.center.z == c[2]), "scaling multiplies the radius and keeps the center");
        a.scale(pos(f)); s.scale(pos(f));
    }
    cover(1)
}
fn filters_() {
    let (c, s, f) = ([fi(-8, 8), fi(-8, 8), fi(-8, 8)], [fi(1, 8), fi(1, 8), fi(1, 8)], factor());
    let mut a = FilterBox2D::new(Box2D { center: Point2D::new(c[0], c[1]), size_x: pos(s[0]), size_y: pos(s[1]) }); let mut b = FilterBox3D::new(Box3D { center: Point3D::new(c[0], c[1], c[2]), size_x: pos(s[0]), size_y: pos(s[1]), size_z: pos(s[2]) });
    let mut ci = FilterCircle::new(Circle { center: Point2D::new(c[0], c[1]), radius: pos(s[0]) }); let mut sp = FilterSphere::new(Sphere { center: Point3D::new(c[0], c[1], c[2]), radius: pos(s[0]) });
    for k in [1.0, f] {
        let (l, h) = ([c[0] - k * s[0] / 2.0, c[1] - k * s[1] / 2.0, c[2] - k * s[2] / 2.0], [c[0] + k * s[0] / 2.0, c[1] + k * s[1] / 2.0, c[2] + k * s[2] / 2.0]); let r = k * s[0];
        is_bb2(&a.bounding_box(), [l[0], l[1]], [h[0], h[1]], "the bounding box of a filter is that of its shape"); is_bb3(&b.bounding_box(), l, h, "the bounding box of a filter is that of its shape");
        is_bb2(&ci.bounding_box(), [c[0] - r, c[1] - r], [c[0] + r, c[1] + r], "the bounding box of a filter is that of its shape"); is_bb3(&sp.bounding_box(), [c[0] - r, c[1] - r, c[2] - r], [c[0] + r, c[1] + r, c[2] + r], "the bounding box of a filter is that of its shape");
        some2(a.bounding_box_maybe(), a.bounding_box(), "a filter has a bounding box"); some3(b.bounding_box_maybe(), b.bounding_box(), "a filter has a bounding box"); some2(ci.bounding_box_maybe(), ci.bounding_box(), "a filter has a bounding box"); some3(sp.bounding_box_maybe(), sp.bounding_box(), "a filter has a bounding box");
        a.scale(pos(f)); b.scale(pos(f)); ci.scale(pos(f)); sp.scale(pos(f));
    }
    cover(1)
}
fn frombb_() {
    let (a, s) = ([fi(-8, 8), fi(-8, 8), fi(-8, 8)], [fi(1, 8), fi(1, 8), fi(1, 8)]); let h = [a[0] + s[0], a[1] + s[1], a[2] + s[2]];
    let bb = match BoundingBox3D::new(&Point3D::new(a[0], a[1], a[2]), &Point3D::new(h[0], h[1], h[2])) { Ok(b) => b, Err(_) => { check(false, "a bounding box can be built"); return } };
    let u = BoxUnaligned3D::new_from_bb(&bb); is_bb3(&u.bounding_box(), a, h, "a box made from a bounding box has that bounding box");
    check((u.y_dir.y() == 1.0) & (u.z_dir.z() == 1.0) & (u.x_dir().y() == 0.0) & (u.x_dir().z() == 0.0) & (*u.size[0] == s[0]) & (*u.size[1] == s[1]) & (*u.size[2] == s[2]), "a box made from a bounding box is aligned with the axes and has its sizes");
    let k = pick(0, 1); let t = if k == 0 { [[0, 0, 0], [1, 1, 0], [1, 0, 1]] } else { [[0, 1, 1], [1, 0, 0], [0, 0, 1]] };
    let p = |i: usize| Point3D::new(if t[i][0] == 0 { a[0] } else { h[0] }, if t[i][1] == 0 { a[1] } else { h[1] }, if t[i][2] == 0 { a[2] } else { h[2] });
    let f = match TriFace3D::new(p(0), p(1), p(2)) { Ok(f) => f, Err(_) => { check(false, "a face spanning a volume can be built"); return } };
    check(eq3(f.a(), &p(0)) & eq3(f.b(), &p(1)) & eq3(f.c(), &p(2)), "a face has the corners it was made from"); is_bb3(&f.bounding_box(), a, h, "the bounding box of a face is that of its corners"); some3(f.bounding_box_maybe(), f.bounding_box(), "a face has a bounding box");
    for c in [Collider3D::AABB(bb.clone()), Collider3D::Box3(u), Collider3D::Face(f)] { is_bb3(&c.bounding_box(), a, h, "the bounding box of a collider is that of its shape"); some3(c.bounding_box_maybe(), c.bounding_box(), "a collider has a bounding box"); let mut n = 0; c.with_colliders(&mut |x| { n += 1; is_bb3(&x.bounding_box(), a, h, "a collider lists itself") }); check(n == 1, "a collider lists itself") }
    check(bb.bounding_box() == bb, "a bounding box is its own bounding box"); cover(1)
}
fn mesh_move_() {
    let ps = pts3(); let d = p3(-8, 8); let w: Vec<Point3D> = ps.iter().map(|p| Point3D::new(p.x + d.x, p.y + d.y, p.z + d.z)).collect();
    let mut m: M3 = mesh(&ps, &topo()); m.move_by(d.x, d.y, d.z); verts(&m, &w, "moving a mesh moves every vertex");
    let mut m = Mv::from((ps.clone(), topo())); m.move_by(d.x, d.y, d.z); verts(&m, &w, "moving a mesh moves every vertex");
    let mut ic = DynamicPrecisionIndexVec::default(); for x in topo() { ic.push(x) } let mut m = Mq::from((ps.iter().cloned().collect(), ic)); m.move_by(d.x, d.y, d.z); verts(&m, &w, "moving a mesh moves every vertex");
    let mut c = PointCloud3Df32::new(); for p in &ps { c.push(p.clone()) } let mut ic = U32IndexVec::default(); for x in topo() { ic.push(x) } let mut m = Fc::from((c, ic)); m.move_by(d.x, d.y, d.z); verts(&m, &w, "moving a mesh moves every vertex"); cover(1)
}
fn mesh_bb_() {
    let ps = pts3(); let pc = PointCloud3D::from(ps.clone()); let m: M3 = mesh(&ps, &topo()); let mut c = PointCloud3Df32::new(); for p in &ps { c.push(p.clone()) } let mut ic = U32IndexVec::default(); for x in topo() { ic.push(x) } let f = Fc::from((c, ic));
    let s = SearchableMesh::<M3, Point3D, Vec<usize>>::new(m.clone());
    let w = pc.bounding_box_maybe(); for b in [m.bounding_box_maybe(), f.bounding_box_maybe(), s.bounding_box_maybe()] { check(b == w, "the bounding box of a mesh is that of its vertices") }
    if let Some(b) = &w { obs3(&b.min_p()); obs3(&b.max_p()); cover(1) } else { cover(2) }
    let g = pc.center_of_gravity(); for b in [m.center_of_gravity(), s.center_of_gravity()] { match (b, &g) { (Some(b), Some(g)) => check(eq3(&b, g), "the center of gravity of a mesh is that of its vertices"), _ => check(false, "a mesh with vertices has a center of gravity") } }
    let e = M3::default(); check((e.num_faces() == 0) & (e.num_vertices() == 0) & e.bounding_box_maybe().is_none() & e.center_of_gravity().is_none(), "an empty mesh has neither bounding box nor center of gravity");
    let (p, t): (PointCloud3D<Point3D>, Vec<usize>) = m.into(); check((p == pc) & (t == topo()), "taking a mesh apart yields its vertices and faces");
    let (m, he): (M3, HalfEdge<Vec<usize>>) = s.into(); verts(&m, &ps, "taking a searchable mesh apart yields the mesh"); let s = SearchableMesh::from((m, he)); verts(&s, &ps, "a searchable mesh made from its parts is the same mesh"); verts(s.mesh(), &ps, "a searchable mesh gives access to its mesh"); let r: &M3 = s.as_ref(); verts(r, &ps, "a searchable mesh gives access to its mesh");
    check(s.edge_twin(EId(0)).is_some() & s.edge_head(EId(2)) .is_some() & (s.num_edges() == 6), "a searchable mesh made from its parts finds its edges");
}
fn mesh_scale_() {
    // symmetric around 1: the bounding box has its center there
    let a = fi(1, 8); let f = factor(); let ps = vec![Point3D::new(un(1.0) - a, un(1.0) - a, un(1.0) - a), Point3D::new(un(1.0) + a, un(1.0), un(1.0) + a), Point3D::new(un(1.0), un(1.0) + a, un(1.0))];
    let w: Vec<Point3D> = ps.iter().map(|p| Point3D::new(un(1.0) + f * (p.x - un(1.0)), un(1.0) + f * (p.y - un(1.0)), un(1.0) + f * (p.z - un(1.0)))).collect();
    let mut m: M3 = mesh(&ps, &topo()); let mut s = SearchableMesh::<M3, Point3D, Vec<usize>>::new(m.clone()); m.scale(pos(f)); s.scale(pos(f)); verts(&m, &w, "scaling a mesh moves every vertex away from the center of its bounding box"); verts(&s, &w, "scaling a searchable mesh scales its mesh"); cover(1)
}
harnesses! {
    fn h_box2() { box2_() }
    fn h_box3() { box3_() }
    fn h_round() { round_() }
    fn h_filters() { filters_() }
    fn h_lines() {
        let (a, d) = (any_p3(), any_p3()); let w = [a.x + d.x, a.y + d.y, a.z + d.z]; let n3 = Norm3D::norm_y(); let n2 = Norm2D::norm_y();
        let mut l = Line3D::new(a.clone(), n3.clone()); l.move_by(d.x, d.y, d.z); let mut r = Ray3D::new(Line3D::new(a.clone(), n3.clone())); r.move_by(d.x, d.y, d.z);
        for l in [&l, &r.line] { check(feq(l.anchor.x, w[0]) & feq(l.anchor.y, w[1]) & feq(l.anchor.z, w[2]), "moving a line or ray moves its anchor"); check((l.dir.x() == 0.0) & (l.dir.y() == 1.0) & (l.dir.z() == 0.0), "moving a line or ray keeps its direction"); obs3(&l.anchor) }
        let a2 = Point2D::new(a.x, a.y); let mut l = Line2D::new(a2.clone(), n2.clone()); l.move_by(d.x, d.y); let mut r = Ray2D::new(Line2D::new(a2, n2)); r.move_by(d.x, d.y);
        for l in [&l, &r.line] { check(feq(l.anchor.x, w[0]) & feq(l.anchor.y, w[1]), "moving a line or ray moves its anchor"); check((l.dir.x() == 0.0) & (l.dir.y() == 1.0), "moving a line or ray keeps its direction") }
        let p = Plane3D::new(a.clone(), Norm3D::norm_z(), Norm3D::norm_x()); let o: Point3D = p.origin(); let (u, v): (Norm3D, Norm3D) = (p.u(), p.v());
        check(same_bits(o.x, a.x) & same_bits(o.y, a.y) & same_bits(o.z, a.z) & (u.z() == 1.0) & (v.x() == 1.0), "a plane has the origin and axes it was made from");
        let p: Plane3D<Point3D, Norm3D> = Plane3D::default(); check((p.origin.x == 0.0) & (p.origin.y == 0.0) & (p.origin.z == 0.0) & (p.u.x() == 1.0) & (p.v.y() == 1.0), "the default plane is the xy plane"); cover(1)
    }
    fn h_rot() {
        let mut c = [1.0, -2.0, 5.0]; let mut s = [4.0, 3.0, 7.0]; let a = pick(0, 2); if bit() { c[a] = fi(-8, 8) } else { s[a] = fi(1, 8) } let q = std::f64::consts::FRAC_PI_2; let k = pick(0, 4);
        let mut b = BoxUnaligned3D::new_from_z_rotation(&Point3D::new(c[0], c[1], c[2]), [pos(s[0]), pos(s[1]), pos(s[2])], (k as f64 - 2.0) * q);
        let t = if k % 2 == 0 { s } else { [s[1], s[0], s[2]] };
        check((b.center.x == c[0]) & (b.center.y == c[1]) & (b.center.z == c[2]) & (*b.size[0] == s[0]) & (*b.size[1] == s[1]) & (*b.size[2] == s[2]) & (b.z_dir.z() == 1.0), "a rotated box has the given center and sizes and keeps the z axis");
        near3(&b.bounding_box(), [c[0] - t[0] / 2.0, c[1] - t[1] / 2.0, c[2] - t[2] / 2.0], [c[0] + t[0] / 2.0, c[1] + t[1] / 2.0, c[2] + t[2] / 2.0], "a box rotated by quarter turns swaps its sizes in x and y"); some3(b.bounding_box_maybe(), b.bounding_box(), "a rotated box has a bounding box");
        let d = [3.0, -1.0, 2.0]; b.move_by(d[0], d[1], d[2]);
        let c = [c[0] + d[0], c[1] + d[1], c[2] + d[2]];
        near3(&b.bounding_box(), [c[0] - t[0] / 2.0, c[1] - t[1] / 2.0, c[2] - t[2] / 2.0], [c[0] + t[0] / 2.0, c[1] + t[1] / 2.0, c[2] + t[2] / 2.0], "moving a box moves its bounding box"); cover(1)
    }
    fn h_rot_any() {
        let (ang, co) = [(0.6435011087932844, 0.8), (-0.6435011087932844, 0.8), (2.498091544796509, -0.8), (0.9272952180016122, 0.6), (1.0471975511965976, 0.5)][pick(0, 4)]; let c = [fi(-8, 8), 1.0, -2.0]; let (hx, hy, hz) = (5.0, 10.0, 2.0);
        let b = BoxUnaligned3D::new_from_z_rotation(&Point3D::new(c[0], c[1], c[2]), [pos(2.0 * hx), pos(2.0 * hy), pos(2.0 * hz)], ang);
        let n = |a: f64, b: f64| (a - b < 1e-9) & (b - a < 1e-9); let (y, x) = (&b.y_dir, b.x_dir());
        check(n(y.y(), co) & (y.z() == 0.0) & n(y.x() * y.x() + y.y() * y.y(), 1.0), "the y axis of a rotated box is turned by the angle"); check(n(x.x() * y.x() + x.y() * y.y(), 0.0) & n(x.z(), 0.0) & n(x.x() * x.x() + x.y() * x.y(), 1.0), "the axes of a rotated box are perpendicular");
        let (co, si) = (co.abs(), (1.0 - co * co as f64).sqrt()); let (wx, wy) = (hx * co + hy * si, hy * co + hx * si);
        near3(&b.bounding_box(), [c[0] - wx, c[1] - wy, c[2] - hz], [c[0] + wx, c[1] + wy, c[2] + hz], "the bounding box of a rotated box reaches exactly to its corners"); cover(1)
    }
    fn h_frombb() { frombb_() }
    fn h_conv() {
        let (a, s, has, tag) = ([fi(-8, 8), fi(-8, 8), fi(-8, 8)], fi(1, 8), bit(), byte()); let h = [a[0] + s, a[1] + s, a[2] + s];
        let b3 = if has { BoundingBox3D::new(&Point3D::new(a[0], a[1], a[2]), &Point3D::new(h[0], h[1], h[2])).ok() } else { None }; let b2 = if has { BoundingBox2D::new(&Point2D::new(a[0], a[1]), &Point2D::new(h[0], h[1])).ok() } else { None };
        match HasBoundingBox3DConverted::new(B3(b3, tag)) { None => { check(!has, "an object with a bounding box is converted"); cover(2) } Some(c) => { check(has, "an object without a bounding box is not converted"); check(c.get().1 == tag, "conversion keeps the object"); is_bb3(&c.bounding_box(), a, h, "conversion keeps the bounding box"); some3(c.bounding_box_maybe(), c.bounding_box(), "conversion keeps the bounding box"); cover(1) } }
        match HasBoundingBox2DConverted::new(B2(b2, tag)) { None => check(!has, "an object with a bounding box is converted"), Some(c) => { check(has, "an object without a bounding box is not converted"); check(c.get().1 == tag, "conversion keeps the object"); is_bb2(&c.bounding_box(), [a[0], a[1]], [h[0], h[1]], "conversion keeps the bounding box"); some2(c.bounding_box_maybe(), c.bounding_box(), "conversion keeps the bounding box") } }
    }
    fn h_mesh_move() { mesh_move_() }
    fn h_mesh_bb() { mesh_bb_() }
    fn h_mesh_scale() { mesh_scale_() }
    fn h_mesh_edit() {
        let ps = pts3(); let q = p3(-8, 8); let mut s = SearchableMesh::<M3, Point3D, Vec<usize>>::new(mesh(&ps, &topo())); s.reserve_vertices(3);
        let i = us(0, 4); let r = s.change_vertex(VId(i), q.clone()); check(r.is_ok() == (i < 3), "changing a vertex of a searchable mesh succeeds exactly for existing ids");
        let mut w = ps.clone(); for k in 0..3 { if k == i { w[k] = q.clone() } } verts(&s, &w, "changing a vertex of a searchable mesh changes that vertex only");
        let v = s.add_vertex(q.clone()); check((v.0 == 3) & (s.num_vertices() == 4) & (s.num_faces() == 2), "adding a vertex to a searchable mesh returns its id"); match s.vertex(v) { Some(p) => check(eq3(&p, &q), "an added vertex is found under its id"), None => check(false, "an added vertex is found under its id") }
        for k in 0..3 { match s.vertex(VId(k)) { Some(p) => check(eq3(&p, &w[k]), "adding a vertex keeps the others"), None => check(false, "adding a vertex keeps the others") } } if i < 3 { cover(1) } else { cover(2) }
    }
    fn h_mesh_trans() {
        let ps = pts3(); let d = p3(-8, 8); let k = pick(0, 1);
        let (m4, w): (Matrix4, Vec<Point3D>) = if k == 0 { (Matrix4::translation(d.x, d.y, d.z), ps.iter().map(|p| Point3D::new(p.x + d.x, p.y + d.y, p.z + d.z)).collect()) } else { (Matrix4::scale(d.x, d.y, d.z), ps.iter().map(|p| Point3D::new(p.x * d.x, p.y * d.y, p.z * d.z)).collect()) };
        let mut m: M3 = mesh(&ps, &topo()); let t = m.transformed(&m4); verts(&m, &ps, "transformed leaves the mesh alone"); verts(&t, &w, "transforming a mesh transforms every vertex"); m.transform(&m4); verts(&m, &w, "transforming a mesh transforms every vertex"); cover(1)
    }
    fn h_show() {
        // one symbolic coordinate among distinct constants
        let k = pick(0, 5); let x = fi(-9, 9) / 2.0; let mut c = [-7.0000000003, 2.123456789012, -3.3333333333333, 4.0000000001, 0.1, 60.250000001]; c[k] = x; let t: Vec<String> = (0..6).map(|i| if i == k { format!("{}", x) } else { ["-7.0000000003", "2.123456789012", "-3.3333333333333", "4.0000000001", "0.1", "60.250000001"][i].to_string() }).collect();
        let is = |a: String, w: String, what: &'static str| { check(a.as_bytes() == w.as_bytes(), what); obs(a.len() as u64); };
        let (a2, b2, a3, b3) = (Point2D::new(c[0], c[1]), Point2D::new(c[2], c[3]), Point3D::new(c[0], c[1], c[2]), Point3D::new(c[3], c[4], c[5]));
        is(format!("{}", a2), format!("({}, {})", t[0], t[1]), "a point prints its coordinates in order"); is(format!("{}", a3), format!("({}, {}, {})", t[0], t[1], t[2]), "a point prints its coordinates in order");
        is(format!("{}", LineSegment2D::new(a2.clone(), b2.clone())), format!("({}, {} -> {}, {})", t[0], t[1], t[2], t[3]), "a segment prints its start and end");
        is(format!("{}", LineSegment3D::new(a3.clone(), b3.clone())), format!("({}, {}, {} -> {}, {}, {})", t[0], t[1], t[2], t[3], t[4], t[5]), "a segment prints its start and end");
        let (l2, l3) = (format!("({}, {} -> 0, -1)", t[0], t[1]), format!("({}, {}, {} -> 0, 1, 0)", t[0], t[1], t[2]));
        let (m2, m3) = (Line2D::new(a2.clone(), Norm2D::norm_y_neg()), Line3D::new(a3.clone(), Norm3D::norm_y()));
        is(format!("{}", m2), l2.clone(), "a line prints its anchor and direction"); is(format!("{}", Ray2D::new(m2)), l2, "a ray prints its line"); is(format!("{}", m3), l3.clone(), "a line prints its anchor and direction"); is(format!("{}", Ray3D::new(m3)), l3, "a ray prints its line");
        let (w2, w3) = (format!("({}, {})\n({}, {})\n", t[0], t[1], t[2], t[3]), format!("({}, {}, {})\n({}, {}, {})\n", t[0], t[1], t[2], t[3], t[4], t[5]));
        let (p2, p3) = (PointCloud2D::from(vec![a2, b2]), PointCloud3D::from(vec![a3, b3]));
        is(format!("{}", p2), w2.clone(), "a cloud prints a line per point"); is(format!("{}", Polygon2D::from(p2)), w2, "a polygon prints its points"); is(format!("{}", p3), w3.clone(), "a cloud prints a line per point"); is(format!("{}", Polygon3D::from(p3)), w3, "a polygon prints its points");
        cover(1)
    }
    fn h_show_num() {
        let x = fi(1, 40) / 4.0; let t = format!("{}", x); check(format!("{}", pos(x)).as_bytes() == t.as_bytes(), "a positive number prints its value");
        match NonNegative::new(x) { Some(n) => check(format!("{}", n).as_bytes() == t.as_bytes(), "a non negative number prints its value"), None => check(false, "NonNegative::new accepts positive values") }
        let (a, b, c) = (us(0, 20), us(0, 3), 7); let f = Face3::new(VId(a), VId(b), VId(c)); check(format!("{}", f).as_bytes() == format!("({}, {}, {})", a, b, c).as_bytes(), "a face prints its vertex ids in order");
        for (i, w) in [(0, a), (1, b), (2, c)] { check(f.vid(i) == Some(VId(w)), "a face has its vertex ids under their index") } let i = sym(64) as usize; check(f.vid(i).is_some() == (i < 3), "a face has three vertex ids"); check(Face3::n_vids() == 3, "a face has three vertex ids"); cover(1)
    }
    fn h_shape_mag() { mag(); match pick(0, 4) { 0 => box2_(), 1 => box3_(), 2 => round_(), 3 => filters_(), _ => frombb_() } }
    fn h_mesh_mag() { mag(); match pick(0, 2) { 0 => mesh_move_(), 1 => mesh_bb_(), _ => mesh_scale_() } }
}

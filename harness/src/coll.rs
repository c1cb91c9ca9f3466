//! colliders: bounding boxes, rotated boxes and faces
use crate::util::*;
use crate::vp::*;
use rust_3d::*;

static mut K: f64 = 1.0;
/// the shapes of the following harness are that much larger
fn sized() { unsafe { K = [f64::from_bits((1023 - 60) << 52), f64::from_bits((1023 + 30) << 52)][pick(0, 1)] } }
fn k(x: f64) -> f64 { x * unsafe { K } }
fn pos(x: f64) -> Positive { match Positive::new(x) { Some(p) => p, None => { check(false, "Positive::new accepts positive values"); Positive::one() } } }
fn aabb(l: [f64; 3], h: [f64; 3]) -> BoundingBox3D { match BoundingBox3D::new(&Point3D::new(k(l[0]), k(l[1]), k(l[2])), &Point3D::new(k(h[0]), k(h[1]), k(h[2]))) { Ok(b) => b, Err(_) => { check(false, "a box can be built from ordered corners"); panic!() } } }
/// box with half size 5 along the xy axes (4,-3)/5 and (3,4)/5 [rot] or the coordinate axes; half size hz along z
fn ubox(c: [f64; 3], rot: usize, hx: f64, hy: f64, hz: f64) -> BoxUnaligned3D {
    let y = match rot { 0 => Norm3D::norm_y(), 1 => Norm3D::new(Point3D::new(3.0, 4.0, 0.0)).unwrap_or(Norm3D::norm_z()), _ => Norm3D::new(Point3D::new(-4.0, 3.0, 0.0)).unwrap_or(Norm3D::norm_z()) };
    BoxUnaligned3D { center: Point3D::new(k(c[0]), k(c[1]), k(c[2])), y_dir: y, z_dir: Norm3D::norm_z(), size: [pos(k(2.0 * hx)), pos(k(2.0 * hy)), pos(k(2.0 * hz))] }
}
/// axes (scaled by s) of the xy plane of such a box
fn axes(rot: usize) -> ([f64; 2], [f64; 2], f64) { match rot { 0 => ([1.0, 0.0], [0.0, 1.0], 1.0), 1 => ([4.0, -3.0], [3.0, 4.0], 5.0), _ => ([3.0, 4.0], [-4.0, 3.0], 5.0) } }
/// gap between two z aligned boxes along the axes of both: > 0 apart, < 0 overlapping, times 5
fn gap(ca: [f64; 3], ra: usize, ha: [f64; 3], cb: [f64; 3], rb: usize, hb: [f64; 3]) -> f64 {
    let d = [cb[0] - ca[0], cb[1] - ca[1]]; let dz = (cb[2] - ca[2]).abs() - ha[2] - hb[2]; let mut g = dz * 25.0;
    let (ax, ay, sa) = axes(ra); let (bx, by, sb) = axes(rb);
    for (l, s) in [(ax, sa), (ay, sa), (bx, sb), (by, sb)] {
        let dot = |u: [f64; 2]| u[0] * l[0] + u[1] * l[1];
        // 25 * (|d.l|/s - radii)
        let r = ha[0] * dot(ax).abs() * (25.0 / (s * sa)) + ha[1] * dot(ay).abs() * (25.0 / (s * sa)) + hb[0] * dot(bx).abs() * (25.0 / (s * sb)) + hb[1] * dot(by).abs() * (25.0 / (s * sb));
        let x = dot(d).abs() * (25.0 / s) - r; g = if x > g { x } else { g };
    }
    g
}
fn both(a: Collider3D, b: Collider3D) -> bool { let (x, y) = (a.collides_with(&b), b.collides_with(&a)); check(x == y, "colliding does not depend on the order"); obs(x as u64); x }
fn judge(c: bool, g: f64, what: &str) { check((g >= 0.0) | c, "overlapping shapes collide"); check((g <= 0.0) | !c, what); if g < 0.0 { cover(1) } if g > 0.0 { cover(2) } }
fn tri(a: [f64; 3], b: [f64; 3], c: [f64; 3]) -> TriFace3D { match TriFace3D::new(Point3D::new(k(a[0]), k(a[1]), k(a[2])), Point3D::new(k(b[0]), k(b[1]), k(b[2])), Point3D::new(k(c[0]), k(c[1]), k(c[2]))) { Ok(t) => t, Err(_) => { check(false, "a face spanning a volume can be built"); panic!() } } }
fn perm(k: usize, a: [f64; 3]) -> [f64; 3] { match k { 0 => a, 1 => [a[2], a[0], a[1]], _ => [a[1], a[2], a[0]] } }
type V = [f64; 3];
fn sub(a: V, b: V) -> V { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn crs(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
/// exact separating axis test over integers: (certainly apart, certainly overlapping)
fn exact(pa: &[V], ea: &[V], na: &[V], pb: &[V], eb: &[V], nb: &[V]) -> (bool, bool) {
    let mut axes: Vec<V> = Vec::new(); axes.extend_from_slice(na); axes.extend_from_slice(nb); for a in ea { for b in eb { axes.push(crs(*a, *b)) } } for n in na { for e in ea { axes.push(crs(*n, *e)) } } for n in nb { for e in eb { axes.push(crs(*n, *e)) } }
    let (mut apart, mut over) = (false, true);
    for l in &axes {
        let dot = |p: &V| p[0] * l[0] + p[1] * l[1] + p[2] * l[2]; let mm = |ps: &[V]| { let (mut lo, mut hi) = (dot(&ps[0]), dot(&ps[0])); for p in ps { let d = dot(p); lo = if d < lo { d } else { lo }; hi = if d > hi { d } else { hi } } (lo, hi) };
        let ((la, ha), (lb, hb)) = (mm(pa), mm(pb)); let zero = (l[0] == 0.0) & (l[1] == 0.0) & (l[2] == 0.0);
        apart = apart | (ha < lb) | (hb < la); over = over & (zero | ((la < hb) & (lb < ha)));
    }
    (apart, over)
}
fn boxv(h: V) -> (Vec<V>, Vec<V>) { let mut p = vec![]; for k in 0..8 { p.push([if k & 1 == 0 { -h[0] } else { h[0] }, if k & 2 == 0 { -h[1] } else { h[1] }, if k & 4 == 0 { -h[2] } else { h[2] }]) } (p, vec![[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]) }
fn triv(t: &[V; 3]) -> (Vec<V>, Vec<V>, Vec<V>) { let e = vec![sub(t[1], t[0]), sub(t[2], t[1]), sub(t[0], t[2])]; let n = vec![crs(e[0], e[1])]; (t.to_vec(), e, n) }

#[derive(Clone)]
struct Obj { bb: BoundingBox3D, cs: std::rc::Rc<Vec<Collider3D>>, more: bool }
impl HasBoundingBox3DMaybe for Obj { fn bounding_box_maybe(&self) -> Option<BoundingBox3D> { Some(self.bb.clone()) } }
impl HasBoundingBox3D for Obj { fn bounding_box(&self) -> BoundingBox3D { self.bb.clone() } }
impl HasColliders3D for Obj { fn has_additional_colliders(&self) -> bool { self.more } fn with_colliders(&self, f: &mut dyn FnMut(&Collider3D)) { for c in self.cs.iter() { f(c) } } }
/// object made of `n` unit boxes at the given x (or of its bounding box only)
fn obj(xs: &[f64], more: bool) -> Obj {
    let mut lo = xs[0]; let mut hi = xs[0]; for x in xs { lo = if *x < lo { *x } else { lo }; hi = if *x > hi { *x } else { hi } }
    Obj { bb: aabb([lo, 0.0, 0.0], [hi + 2.0, 2.0, 2.0]), cs: xs.iter().map(|x| Collider3D::AABB(aabb([*x, 0.0, 0.0], [*x + 2.0, 2.0, 2.0]))).collect::<Vec<_>>().into(), more }
}

fn aabb_aabb_() { let c = [fi(-6, 6), fi(-6, 6), fi(-6, 6)]; let (ha, hb) = ([1.0, 2.0, 3.0], [2.0, 1.0, 1.0]); let g = gap([0.0; 3], 0, ha, c, 0, hb); judge(both(Collider3D::AABB(aabb([-1.0, -2.0, -3.0], [1.0, 2.0, 3.0])), Collider3D::AABB(aabb([c[0] - 2.0, c[1] - 1.0, c[2] - 1.0], [c[0] + 2.0, c[1] + 1.0, c[2] + 1.0]))), g, "disjoint boxes do not collide") }
fn aabb_box0_() { let c = [fi(-6, 6), fi(-6, 6), fi(-6, 6)]; let (ha, hb) = ([1.0, 2.0, 3.0], [2.0, 1.0, 1.0]); let g = gap([0.0; 3], 0, ha, c, 0, hb); judge(both(Collider3D::AABB(aabb([-1.0, -2.0, -3.0], [1.0, 2.0, 3.0])), Collider3D::Box3(ubox(c, 0, 2.0, 1.0, 1.0))), g, "disjoint boxes do not collide") }
fn aabb_from_() { let c = [fi(-6, 6), fi(-6, 6), fi(-6, 6)]; let (ha, hb) = ([1.0, 2.0, 3.0], [2.0, 1.0, 1.0]); let g = gap([0.0; 3], 0, ha, c, 0, hb); let b = BoxUnaligned3D::new_from_bb(&aabb([c[0] - 2.0, c[1] - 1.0, c[2] - 1.0], [c[0] + 2.0, c[1] + 1.0, c[2] + 1.0])); let a = BoxUnaligned3D::new_from_bb(&aabb([-1.0, -2.0, -3.0], [1.0, 2.0, 3.0])); judge(both(Collider3D::Box3(a), Collider3D::Box3(b)), g, "disjoint boxes do not collide") }
fn aabb_box_() { let r = pick(1, 2); let y = [-9.0, -4.0, 0.0, 7.0][pick(0, 3)]; let z = [0.0, 5.0, -7.0][pick(0, 2)]; let c = [fi(-16, 16), y, z]; let (ha, hb) = ([3.0, 4.0, 3.0], [5.0, 2.0, 3.0]); let g = gap([0.0; 3], 0, ha, c, r, hb); judge(both(Collider3D::AABB(aabb([-3.0, -4.0, -3.0], [3.0, 4.0, 3.0])), Collider3D::Box3(ubox(c, r, 5.0, 2.0, 3.0))), g, "disjoint boxes do not collide") }
fn aabb_box_y_() { let r = pick(1, 2); let x = [-9.0, -4.0, 0.0, 7.0][pick(0, 3)]; let c = [x, fi(-16, 16), 1.0]; let (ha, hb) = ([3.0, 4.0, 3.0], [5.0, 2.0, 3.0]); let g = gap([0.0; 3], 0, ha, c, r, hb); judge(both(Collider3D::AABB(aabb([-3.0, -4.0, -3.0], [3.0, 4.0, 3.0])), Collider3D::Box3(ubox(c, r, 5.0, 2.0, 3.0))), g, "disjoint boxes do not collide") }
fn box_box_() { let (q, r) = (pick(0, 2), pick(0, 2)); let y = [-9.0, 0.0, 7.0][pick(0, 2)]; let c = [fi(-16, 16), y, 2.0]; let (ha, hb) = ([3.0, 4.0, 3.0], [5.0, 2.0, 3.0]); let g = gap([1.0, 0.0, 0.0], q, ha, c, r, hb); judge(both(Collider3D::Box3(ubox([1.0, 0.0, 0.0], q, 3.0, 4.0, 3.0)), Collider3D::Box3(ubox(c, r, 5.0, 2.0, 3.0))), g, "disjoint boxes do not collide") }
fn box_box_z_() { let (q, r) = (pick(0, 2), pick(0, 2)); let c = [4.0, 1.0, fi(-16, 16)]; let (ha, hb) = ([3.0, 4.0, 3.0], [5.0, 2.0, 3.0]); let g = gap([1.0, 0.0, 0.0], q, ha, c, r, hb); judge(both(Collider3D::Box3(ubox([1.0, 0.0, 0.0], q, 3.0, 4.0, 3.0)), Collider3D::Box3(ubox(c, r, 5.0, 2.0, 3.0))), g, "disjoint boxes do not collide") }
fn face_aabb_hit_() {
    // a corner of the face within the box, or the box pierced by a large face
    let k = pick(0, 2); let c = [fi(-2, 2), [-2.0, 1.0][pick(0, 1)], [-1.0, 2.0][pick(0, 1)]]; let (l, h) = ([-3.0, -3.0, -3.0], [3.0, 3.0, 3.0]); let b = Collider3D::AABB(aabb(l, h));
    let t = match pick(0, 3) { 0 => [c, [9.0, 0.0, 1.0], [8.0, 7.0, 6.0]], 1 => [[-9.0, 4.0, 1.0], c, [-8.0, 7.0, -6.0]], 2 => [[1.0, 9.0, 1.0], [4.0, 7.0, -6.0], c], _ => [[-30.0, -30.0, -1.0], [30.0, -30.0, 0.0], [c[0], 60.0, 1.0]] };
    check(both(b, Collider3D::Face(tri(perm(k, t[0]), perm(k, t[1]), perm(k, t[2])))), "overlapping shapes collide"); cover(1)
}
fn face_aabb_out_() {
    // separated along one of the axes of the box
    let k = pick(0, 2); let s = if pick(0, 1) == 0 { 1.0 } else { -1.0 }; let d = [s * fi(4, 9), s * [4.0, 7.0][pick(0, 1)], s * [5.0, 9.0][pick(0, 1)]]; let t = [[d[0], 0.0, -1.0], [d[1], -2.0, 2.0], [d[2], 5.0, 1.0]];
    check(!both(Collider3D::AABB(aabb([-3.0, -3.0, -3.0], [3.0, 3.0, 3.0])), Collider3D::Face(tri(perm(k, t[0]), perm(k, t[1]), perm(k, t[2])))), "a face beyond a side of a box does not collide with it"); cover(1)
}
fn face_aabb_plane_() {
    // the box lies on one side of the plane x + y + z = d through the face
    let f = pick(0, 1); let d = 12.0 * if pick(0, 1) == 0 { 1.0 } else { -1.0 }; let m = fi(-9, 9); let t = [[0.0, 0.0, d], [d, 0.0, 0.0], [0.0, d, 0.0]]; let b = aabb([-1.0, -1.0, m - 1.0], [1.0, 1.0, m + 1.0]);
    let far = if d > 0.0 { m + 3.0 < d } else { m - 3.0 > d }; let near = if d > 0.0 { m > 9.0 } else { m < -9.0 }; let _ = near;
    let c = both(Collider3D::AABB(b), Collider3D::Face(if f == 0 { tri(t[0], t[1], t[2]) } else { tri(t[2], t[1], t[0]) })); check(!far | !c, "a box on one side of the plane of a face does not collide with it"); if far { cover(1) }
}
fn face_box_() {
    let r = pick(0, 2); let x = fi(-16, 16); let b = Collider3D::Box3(ubox([0.0, 0.0, 0.0], r, 5.0, 5.0, 4.0)); let t = tri([x, 0.0, 0.0], [x + 2.0, 1.0, 1.0], [x + 3.0, -1.0, -1.0]); let c = both(b, Collider3D::Face(t));
    let (u, v, s) = axes(r); let ins = |p: [f64; 2]| ((p[0] * u[0] + p[1] * u[1]).abs() < 5.0 * s) & ((p[0] * v[0] + p[1] * v[1]).abs() < 5.0 * s); check(!(ins([x, 0.0]) | ins([x + 2.0, 1.0]) | ins([x + 3.0, -1.0])) | c, "overlapping shapes collide"); check(!((x > 7.5) | (x < -10.5)) | !c, "disjoint shapes do not collide"); if c { cover(1) } else { cover(2) }
}
fn face_face_() {
    // the second face is moved along z through the first, and out sideways
    let z = fi(-8, 8); let s = pick(0, 1) as f64 * 40.0; let c = both(Collider3D::Face(tri([-10.0, -10.0, -1.0], [10.0, -10.0, 0.0], [0.0, 20.0, 1.0])), Collider3D::Face(tri([0.0 + s, 0.0, z], [1.0 + s, 1.0, z + 4.0], [-1.0 + s, 0.5, z + 5.0])));
    check(!((s == 0.0) & (z >= -3.0) & (z <= -1.0)) | c, "overlapping shapes collide"); check(!((s > 0.0) | (z > 1.0) | (z < -6.0)) | !c, "disjoint shapes do not collide"); if c { cover(1) } else { cover(2) }
}
fn face_coplanar_() {
    // both in the plane z = x + y
    let p = |x: f64, y: f64| [x, y, x + y]; let d = fi(-12, 12); let c = both(Collider3D::Face(tri(p(0.0, 0.0), p(4.0, 0.0), p(0.0, 4.0))), Collider3D::Face(tri(p(d, d), p(d + 3.0, d + 1.0), p(d + 1.0, d + 3.0))));
    check(!((d >= -1.0) & (d <= 1.0)) | c, "overlapping shapes collide"); check(!((d > 2.0) | (d < -3.0)) | !c, "disjoint shapes do not collide"); if c { cover(1) } else { cover(2) }
}
fn coplanar_edge_() {
    // both in the plane z = x + y, the second in front of the k-th edge of the first, whose corners are listed starting at any
    let p = |x: f64, y: f64| [x, y, x + y]; let d = fi(-1, 6); let (k, r, s) = (pick(0, 2), pick(0, 2), pick(0, 5));
    let a = [p(0.0, 0.0), p(4.0, 0.0), p(0.0, 4.0)]; let b = match k { 0 => [p(1.0, -d), p(3.0, -d - 4.0), p(-2.0, -d - 3.0)], 1 => [p(-d, 1.0), p(-d - 4.0, 3.0), p(-d - 3.0, -2.0)], _ => [p(2.0 + d, 2.0 + d), p(7.0 + d, 2.0 + d), p(2.0 + d, 6.0 + d)] };
    let at = |t: &[[f64; 3]; 3], r: usize, flip: bool| if flip { tri(t[(r + 2) % 3], t[(r + 1) % 3], t[r]) } else { tri(t[r], t[(r + 1) % 3], t[(r + 2) % 3]) };
    let c = both(Collider3D::Face(at(&a, r, false)), Collider3D::Face(at(&b, s % 3, s > 2)));
    check(!(d < 0.0) | c, "overlapping shapes collide"); check(!(d > 0.0) | !c, "disjoint shapes do not collide"); if c { cover(1) } else { cover(2) }
}
fn face_gap_() {
    // apart only along the cross product of an edge of the box and one of the face: all of the face has x + y >= s, the box reaches 4
    let k = pick(0, 2); let s = fi(1, 9); let b = aabb([-2.0, -2.0, -2.0], [2.0, 2.0, 2.0]); let f = tri(perm(k, [s, 0.0, 0.0]), perm(k, [0.0, s, 0.0]), perm(k, [10.0, 10.0, 10.0]));
    judge(both(Collider3D::AABB(b), Collider3D::Face(f)), s - 4.0, "disjoint shapes do not collide")
}
fn face_gap_rot_() {
    // the same for two faces crossing like the blades of scissors, z apart
    let z = fi(-5, 5); let a = tri([-6.0, -6.0, -1.0], [6.0, 6.0, 1.0], [3.0, 8.0, -20.0]); let b = tri([-6.0, 6.0, z - 1.0], [6.0, -6.0, z + 1.0], [4.0, 7.0, 20.0 + z]);
    let c = both(Collider3D::Face(a), Collider3D::Face(b)); check((z <= 0.0) | !c, "disjoint shapes do not collide"); check((z != -2.0) | c, "overlapping shapes collide"); if c { cover(1) } else { cover(2) }
}
fn face_aabb_() {
    let h = [2.0, 3.0, 1.0]; let k = pick(0, 2); let s = fi(-7, 7); let t = [[s, [-2.0, 4.0][pick(0, 1)], [1.0, 3.0][pick(0, 1)]], [[-6.0, 3.0][pick(0, 1)], 2.0, -4.0], [1.0, -5.0, 2.0]]; let t = [perm(k, t[0]), perm(k, t[1]), perm(k, t[2])];
    let (p, e) = boxv(h); let (q, f, n) = triv(&t); let (apart, over) = exact(&p, &e, &e, &q, &f, &n);
    let c = both(Collider3D::AABB(aabb([-h[0], -h[1], -h[2]], h)), Collider3D::Face(tri(t[0], t[1], t[2]))); check(!over | c, "overlapping shapes collide"); check(!apart | !c, "disjoint shapes do not collide"); if over { cover(1) } if apart { cover(2) }
}
fn face_aabb2_() {
    let h = [2.0, 3.0, 1.0]; let v = pick(0, 2); let s = fi(-9, 9); let o = [[[-3.0, 4.0, -2.0], [5.0, 1.0, 2.0]], [[3.0, 3.5, 2.0], [2.0, -4.0, -3.0]]][pick(0, 1)]; let m = match v { 0 => [s, 1.0, 0.0], 1 => [4.0, s, 1.0], _ => [0.5, -2.0, s] }; let t = [o[0], m, o[1]];
    let (p, e) = boxv(h); let (q, f, n) = triv(&t); let (apart, over) = exact(&p, &e, &e, &q, &f, &n);
    let c = both(Collider3D::Box3(ubox([0.0; 3], 0, 2.0, 3.0, 1.0)), Collider3D::Face(tri(t[0], t[1], t[2]))); check(!over | c, "overlapping shapes collide"); check(!apart | !c, "disjoint shapes do not collide"); if over { cover(1) } if apart { cover(2) }
}
fn face_face2_() {
    let k = pick(0, 2); let s = fi(-9, 9); let a = [[-4.0, -3.0, -1.0], [5.0, -2.0, 1.0], [0.0, 6.0, 2.0]]; let b = match k { 0 => [[s, 0.0, -3.0], [s + 2.0, 1.0, 4.0], [s - 1.0, 3.0, 5.0]], 1 => [[1.0, s, 3.0], [-2.0, s + 3.0, -4.0], [2.0, s + 4.0, -2.0]], _ => [[0.0, 1.0, s], [1.0, -2.0, s + 3.0], [-1.0, 0.0, s + 5.0]] };
    let (p, e, m) = triv(&a); let (q, f, n) = triv(&b); let (apart, over) = exact(&p, &e, &m, &q, &f, &n);
    let c = both(Collider3D::Face(tri(a[0], a[1], a[2])), Collider3D::Face(tri(b[0], b[1], b[2]))); check(!over | c, "overlapping shapes collide"); check(!apart | !c, "disjoint shapes do not collide"); if over { cover(1) } if apart { cover(2) }
}
harnesses! {
    fn h_aabb_aabb() { aabb_aabb_() }
    fn h_aabb_box0() { aabb_box0_() }
    fn h_aabb_from() { aabb_from_() }
    fn h_aabb_box() { aabb_box_() }
    fn h_aabb_box_y() { aabb_box_y_() }
    fn h_box_box() { box_box_() }
    fn h_box_box_z() { box_box_z_() }
    fn h_box_shape() {
        // corners, bounding box and movement of a rotated box
        let r = pick(0, 2); let c = [fi(-8, 8), 2.0, -1.0]; let mut b = ubox(c, r, 5.0, 10.0, 3.0); b.move_by(1.0, 2.0, 3.0); let (u, v, s) = axes(r); let (cx, cy, cz) = (c[0] + 1.0, 4.0, 2.0); let mut n = 0; let near = |a: f64, b: f64| (a - b < 1e-9) & (b - a < 1e-9);
        let mut hit = [0; 8]; b.for_each_point(&mut |p: &Point3D| { n += 1; obs3(p); let mut any = false;
            for k in 0..8 { let (i, j, l) = (if k & 1 == 0 { -1.0 } else { 1.0 }, if k & 2 == 0 { -1.0 } else { 1.0 }, if k & 4 == 0 { -1.0 } else { 1.0 });
                let m = near(p.x, cx + i * 5.0 * u[0] / s + j * 10.0 * v[0] / s) & near(p.y, cy + i * 5.0 * u[1] / s + j * 10.0 * v[1] / s) & near(p.z, cz + l * 3.0); hit[k] += m as u32; any = any | m; }
            check(any, "the points of a box are its corners"); });
        check(n == 8, "the points of a box are its corners"); for h in &hit { check(*h == 1, "the points of a box are its corners") }
        let bb = b.bounding_box(); let (l, h) = (bb.min_p(), bb.max_p()); let wx = 5.0 * (u[0] / s).abs() + 10.0 * (v[0] / s).abs(); let wy = 5.0 * (u[1] / s).abs() + 10.0 * (v[1] / s).abs();
        check((l.x <= cx - wx + 1e-9) & (l.y <= cy - wy + 1e-9) & (l.z <= cz - 3.0) & (h.x >= cx + wx - 1e-9) & (h.y >= cy + wy - 1e-9) & (h.z >= cz + 3.0), "the bounding box of a box covers its corners"); cover(1)
    }
    fn h_face_aabb_hit() { face_aabb_hit_() }
    fn h_face_aabb_out() { face_aabb_out_() }
    fn h_face_aabb_plane() { face_aabb_plane_() }
    fn h_face_box() { face_box_() }
    fn h_face_face() { face_face_() }
    fn h_face_coplanar() { face_coplanar_() }
    fn h_coplanar_edge() { coplanar_edge_() }
    fn h_face_gap() { face_gap_() }
    fn h_face_gap_rot() { face_gap_rot_() }
    fn h_tri() {
        let (a, b, c) = ([fi(-4, 4), fi(-4, 4), fi(-4, 4)], [fi(-4, 4), 1.0, 0.0], [2.0, fi(-4, 4), fi(-4, 4)]); let p = |a: [f64; 3]| Point3D::new(a[0], a[1], a[2]);
        let span = !((a[0] == b[0]) & (b[0] == c[0])) & !((a[1] == b[1]) & (b[1] == c[1])) & !((a[2] == b[2]) & (b[2] == c[2]));
        match TriFace3D::new(p(a), p(b), p(c)) { Ok(t) => { check(span, "a face is built exactly if it spans a volume"); check(eq3(t.a(), &p(a)) & eq3(t.b(), &p(b)) & eq3(t.c(), &p(c)), "a face keeps its corners");
            let bb = t.bounding_box(); let (l, h) = (bb.min_p(), bb.max_p()); obs3(&l); obs3(&h); let mn = |i: usize| a[i].min(b[i]).min(c[i]); let mx = |i: usize| a[i].max(b[i]).max(c[i]); check((l.x == mn(0)) & (l.y == mn(1)) & (l.z == mn(2)) & (h.x == mx(0)) & (h.y == mx(1)) & (h.z == mx(2)), "the bounding box of a face is that of its corners");
            let mut n = 0; t.for_each_point(&mut |q: &Point3D| { let w = [p(a), p(b), p(c)]; check(n < 3 && eq3(q, &w[n]), "the points of a face are its corners"); n += 1; }); check(n == 3, "the points of a face are its corners"); cover(1) } Err(_) => { check(!span, "a face is built exactly if it spans a volume"); cover(2) } }
    }
    fn h_objects() {
        let (na, nb) = (pick(1, 2), pick(1, 2)); let (ma, mb) = (pick(0, 1) == 1, pick(0, 1) == 1); let xa: Vec<f64> = (0..na).map(|_| fi(0, 12)).collect(); let xb: Vec<f64> = (0..nb).map(|_| fi(0, 12)).collect();
        let (a, b) = (obj(&xa, ma), obj(&xb, mb)); let iv = |xs: &[f64], m: bool, o: &Obj| -> Vec<(f64, f64)> { if m { xs.iter().map(|x| (*x, *x + 2.0)).collect() } else { vec![(o.bb.min_p().x, o.bb.max_p().x)] } };
        let mut w = false; for p in iv(&xa, ma, &a) { for q in iv(&xb, mb, &b) { w = w | ((p.0 < q.1) & (q.0 < p.1)) } }
        let (c, d) = (a.collides_with(&b), b.collides_with(&a)); obs(c as u64); check((c == w) & (d == w), "objects collide exactly when some of their colliders do"); if c { cover(1) } else { cover(2) }
        let mut e = false; for q in b.cs.iter() { e = a.collides_with_collider(q); break } let mut w1 = false; for p in iv(&xa, ma, &a) { w1 = w1 | ((p.0 < xb[0] + 2.0) & (xb[0] < p.1)) } check(e == w1, "an object collides with a collider exactly when one of its own does");
    }
    fn h_container() {
        let n = pick(0, 2); let xs: Vec<f64> = (0..n).map(|_| fi(0, 9)).collect(); let q = fi(0, 9); let o = obj(&[q], true); let v: Vec<Obj> = xs.iter().map(|x| obj(&[*x, *x + 4.0], true)).collect(); let d: std::collections::VecDeque<Obj> = xs.iter().map(|x| obj(&[*x, *x + 4.0], true)).collect();
        let l: std::collections::LinkedList<Obj> = xs.iter().map(|x| obj(&[*x, *x + 4.0], true)).collect(); let (mut w, mut wb) = (false, false); for x in &xs { w = w | ((q < *x + 2.0) & (*x < q + 2.0)) | ((q < *x + 6.0) & (*x + 4.0 < q + 2.0)); wb = wb | ((q < *x + 6.0) & (*x < q + 2.0)) }
        check((v.any_element_collides_with_collider(&o) == w) & (d.any_element_collides_with_collider(&o) == w) & (l.any_element_collides_with_collider(&o) == w), "a container collides exactly when an element does"); check((v.any_element_collides_with_bounding(&o) == wb) & (d.any_element_collides_with_bounding(&o) == wb) & (l.any_element_collides_with_bounding(&o) == wb), "a container collides exactly when the bounding box of an element does"); obs(w as u64); obs(wb as u64); if w { cover(1) } else { cover(2) }
    }
    fn h_tree() {
        // a bounding box tree of objects, with any depth limit and bucket size
        let xs = [fi(0, 9), fi(0, 9), 4.0]; let n = pick(0, 3); let q = fi(0, 9); let o = obj(&[q], true); let v: Vec<Obj> = xs[..n].iter().map(|x| obj(&[*x, *x + 4.0], true)).collect();
        let (mut w, mut wb) = (false, false); for x in &xs[..n] { w = w | ((q < *x + 2.0) & (*x < q + 2.0)) | ((q < *x + 6.0) & (*x + 4.0 < q + 2.0)); wb = wb | ((q < *x + 6.0) & (*x < q + 2.0)) }
        let t = AABBTree3D::new(v, [0, 1, 3][pick(0, 2)], pick(0, 1)); check(t.any_element_collides_with_collider(&o) == w, "a tree collides exactly when an element does"); check(t.any_element_collides_with_bounding(&o) == wb, "a tree collides exactly when the bounding box of an element does"); obs(w as u64); obs(wb as u64); if w { cover(1) } else { cover(2) }
    }
    fn h_face_aabb() { face_aabb_() }
    fn h_face_aabb2() { face_aabb2_() }
    fn h_face_face2() { face_face2_() }
    fn h_coll_mag() { sized(); match pick(0, 6) { 0 => aabb_aabb_(), 1 => aabb_box0_(), 2 => aabb_from_(), 3 => aabb_box_(), 4 => aabb_box_y_(), 5 => box_box_(), _ => box_box_z_() } }
    fn h_coll_face_mag() { sized(); match pick(0, 4) { 0 => face_aabb_hit_(), 1 => face_aabb_out_(), 2 => face_aabb_plane_(), 3 => face_box_(), _ => face_gap_() } }
    fn h_coll_faces_mag() { sized(); match pick(0, 3) { 0 => face_face_(), 1 => face_coplanar_(), 2 => coplanar_edge_(), _ => face_gap_rot_() } }
    fn h_coll_exact_mag() { sized(); match pick(0, 2) { 0 => face_aabb_(), 1 => face_aabb2_(), _ => face_face2_() } }
}

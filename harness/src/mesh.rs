//! meshes: C02 editing, C03 half edge navigation, C04 healing, C05 subdivision, C06 clustering, C07 unification
use crate::util::*;
use crate::vp::*;
use rust_3d::*;

fn edit<IC: IsIndexContainer>(k: usize, big: bool) {
    let mut m: MV<IC> = Mesh3D::default();
    let mut vs: Vec<Point3D> = Vec::new();
    let mut fs: Vec<[usize; 3]> = Vec::new();
    for _ in 0..k {
        match pick(0, 5) {
            0 => {
                let p = Point3D::new(fi(-9, 9), fi(-9, 9), fi(-9, 9));
                let id = m.add_vertex(p.clone()); vs.push(p);
                check(id.0 == vs.len() - 1, "add_vertex returns the id of the new vertex"); cover(1);
            }
            1 => {
                let (a, b, c) = (Point3D::new(fi(-9, 9), 0.0, 1.0), Point3D::new(fi(-9, 9), 2.0, 3.0), Point3D::new(4.0, 5.0, fi(-9, 9)));
                let n = vs.len();
                let id = m.add_face(a.clone(), b.clone(), c.clone());
                vs.push(a); vs.push(b); vs.push(c); fs.push([n, n + 1, n + 2]);
                check(id.0 == fs.len() - 1, "add_face returns the id of the new face"); cover(2);
            }
            2 => {
                let lim = if big { u64::MAX as i64 } else { 4 };
                let _ = lim;
                let (a, b, c) = if big { (sym(64) as usize, sym(64) as usize, sym(64) as usize) } else { (us(0, 7), us(0, 7), us(0, 7)) };
                let n = vs.len();
                let inr = (a < n) & (b < n) & (c < n);
                let uniq = (a != b) & (a != c) & (b != c);
                match m.try_add_connection(VId(a), VId(b), VId(c)) {
                    Ok(id) => {
                        check(inr, "a face over an unknown vertex id is rejected");
                        check(uniq, "a face naming a vertex twice is rejected");
                        fs.push([a, b, c]);
                        check(id.0 == fs.len() - 1, "try_add_connection returns the id of the new face"); cover(3);
                    }
                    Err(_) => { check(!(inr & uniq), "a valid connection is accepted"); cover(4); }
                }
            }
            3 => {
                let i = if big { sym(64) as usize } else { us(0, 7) };
                let p = Point3D::new(fi(-9, 9), fi(-9, 9), fi(-9, 9));
                match m.change_vertex(VId(i), p.clone()) {
                    Ok(()) => { check(i < vs.len(), "changing an unknown vertex is rejected"); if i < vs.len() { let i = conc(i as u64) as usize; vs[i] = p; } cover(5); }
                    Err(_) => { check(i >= vs.len(), "changing a known vertex is accepted"); cover(6); }
                }
            }
            4 => m.reserve_faces(pick(0, 2)),
            _ => m.reserve_vertices(pick(0, 2)),
        }
        check(m.num_vertices() == vs.len(), "num_vertices counts the added vertices");
        check(m.num_faces() == fs.len(), "num_faces counts the added faces");
    }
    for i in 0..vs.len() {
        match m.vertex(VId(i)) { Some(p) => { check(eq3(&p, &vs[i]), "vertex returns the position last stored"); obs3(&p); } None => check(false, "every known vertex id has a vertex") }
    }
    for i in 0..fs.len() {
        let f = face(&m, i);
        check((f[0] == fs[i][0]) & (f[1] == fs[i][1]) & (f[2] == fs[i][2]), "face_vertex_ids returns the ids the face was added with, in order");
        match m.face_vertices(FId(i)) {
            Some([a, b, c]) => for (p, j) in [(a, 0), (b, 1), (c, 2)] {
                match m.vertex(VId(fs[i][j])) { Some(q) => check(eq3(&p, &q), "face_vertices are the vertices named by face_vertex_ids"), None => check(false, "face ids stay valid") }
            },
            None => check(false, "every known face id has vertices"),
        }
    }
    let i = sym(64) as usize;
    let (a, b) = (m.face_vertex_ids(FId(i)).is_some(), m.face_vertices(FId(i)).is_some());
    check(a == (i < fs.len()), "face_vertex_ids is None exactly for unknown face ids");
    check(b == (i < fs.len()), "face_vertices is None exactly for unknown face ids");
    check(m.vertex(VId(i)).is_some() == (i < vs.len()), "vertex is None exactly for unknown vertex ids");
}
fn has(v: &[EId], e: usize) -> usize { let mut n = 0; for x in v { n += (x.0 == e) as usize } n }
fn hasf(v: &[FId], e: usize) -> usize { let mut n = 0; for x in v { n += (x.0 == e) as usize } n }
fn pts(n: usize) -> Vec<Point3D> { (0..n).map(|i| Point3D::new(i as f64, (i * i) as f64, 1.0 / (1.0 + i as f64))).collect() }
/// at most one face uses each directed edge
fn manifold(t: &[usize]) {
    let mut ok = true;
    let e = |i: usize| (t[i], t[if i % 3 == 2 { i - 2 } else { i + 1 }]);
    for i in 0..t.len() { for j in 0..i { let (a, b) = (e(i), e(j)); ok &= !((a.0 == b.0) & (a.1 == b.1)); } }
    assume(ok);
}
fn half_edge<IC: IsIndexContainer>(nv: usize, nf: usize, isolated: bool) {
    let t = conc_topo(nv, nf);
    manifold(&t);
    half_edge_of::<IC>(t, nf, if isolated { nv + 1 } else { 0 })
}
fn half_edge_of<IC: IsIndexContainer>(t: Vec<usize>, nf: usize, nv2: usize) {
    let nv2 = if nv2 > 0 { nv2 } else { let mut mx = 0; for x in &t { mx = mx.max(*x) } mx + 1 };
    let m: MV<IC> = mesh(&pts(nv2), &t);
    let he = HalfEdge::<IC>::new(&m);
    let ne = 3 * nf;
    let nx = |e: usize| if e % 3 == 2 { e - 2 } else { e + 1 };
    let head = |e: usize| t[nx(e)];
    for e in 0..ne {
        check(he.tail(EId(e)) == Some(VId(t[e])), "tail is the vertex the edge starts at");
        check(he.face(EId(e)) == Some(FId(e / 3)), "face is the face the edge belongs to");
        check(he.next(EId(e)) == Some(EId(nx(e))), "next walks the face in its vertex order");
        check(he.prev(EId(nx(e))) == Some(EId(e)), "prev is the inverse of next");
        let mut ex = None;
        for o in 0..ne { if t[o] == head(e) && head(o) == t[e] { ex = Some(EId(o)); } }
        if ex.is_some() { cover(1) } else { cover(2) }
        check(he.twin(EId(e)) == ex, "twin is the edge of the other face running the opposite way, if there is one");
    }
    for v in 0..nv2 {
        let (mut o, mut en, mut al, mut fc, mut c) = (vec![], vec![], vec![], vec![], vec![EId(99)]);
        let r = (he.edges_originating(VId(v), &mut o), he.edges_ending(VId(v), &mut c, &mut en), he.edges_all(VId(v), &mut c, &mut al), he.faces(VId(v), &mut c, &mut fc));
        check(r.0.is_ok() & r.1.is_ok() & r.2.is_ok() & r.3.is_ok(), "every vertex of the mesh can be queried");
        if !(r.0.is_ok() & r.1.is_ok() & r.2.is_ok() & r.3.is_ok()) { continue; }
        let mut deg = 0;
        for e in 0..ne {
            let (a, b) = (t[e] == v, head(e) == v);
            deg += a as usize;
            check(has(&o, e) == a as usize, "edges_originating lists exactly the edges whose tail is the vertex");
            check(has(&en, e) == b as usize, "edges_ending lists exactly the edges whose head is the vertex");
            check(has(&al, e) == (a | b) as usize, "edges_all lists exactly the edges touching the vertex");
        }
        check((o.len() == deg) & (en.len() == deg) & (al.len() == 2 * deg) & (fc.len() == deg), "no edge or face is listed twice");
        for f in 0..nf {
            let a = (t[3 * f] == v) | (t[3 * f + 1] == v) | (t[3 * f + 2] == v);
            check(hasf(&fc, f) == a as usize, "faces lists exactly the faces containing the vertex");
        }
        if deg == 0 { cover(3); }
    }
    let x = sym(64) as usize;
    if x >= ne { check(he.tail(EId(x)).is_none() & he.face(EId(x)).is_none() & he.next(EId(x)).is_none() & he.prev(EId(x)).is_none() & he.twin(EId(x)).is_none(), "edge queries answer None for unknown edge ids"); }
    if x >= nv2 {
        let (mut o, mut c) = (vec![], vec![]);
        check(he.edges_originating(VId(x), &mut o).is_err(), "vertex queries fail for unknown vertex ids");
        check(he.edges_all(VId(x), &mut c, &mut o).is_err(), "vertex queries fail for unknown vertex ids");
        check(o.is_empty(), "a failed query appends nothing");
    }
}
fn searchable(nv: usize, nf: usize) {
    let t = conc_topo(nv, nf);
    manifold(&t);
    searchable_of(t, nf)
}
fn searchable_of(t: Vec<usize>, nf: usize) {
    let mut mx = 0; for x in &t { mx = mx.max(*x) }
    let nv = mx + 1;
    let m: MV<DynamicPrecisionIndexVec> = mesh(&pts(nv), &t);
    let s = SearchableMesh::<_, _, DynamicPrecisionIndexVec>::new(m);
    let ne = 3 * nf;
    let nx = |e: usize| if e % 3 == 2 { e - 2 } else { e + 1 };
    check((s.num_faces() == nf) & (s.num_edges() == ne) & (s.num_vertices() == nv), "the search structure keeps the mesh's counts");
    let tw = |e: usize| { let mut r = None; for o in 0..ne { if t[o] == t[nx(e)] && t[nx(o)] == t[e] { r = Some(o); } } r };
    for e in 0..ne {
        check(s.edge_tail(EId(e)) == Some(VId(t[e])), "edge_tail is where the edge starts");
        check(s.edge_head(EId(e)) == Some(VId(t[nx(e)])), "edge_head is where the edge ends");
        check((s.edge_next(EId(e)) == Some(EId(nx(e)))) & (s.edge_prev(EId(nx(e))) == Some(EId(e))), "edge_next and edge_prev walk the face");
        check(s.edge_face(EId(e)) == Some(FId(e / 3)), "edge_face is the face owning the edge");
        check(s.edge_twin(EId(e)) == tw(e).map(EId), "edge_twin is the opposite edge of the neighbouring face");
    }
    for f in 0..nf {
        check(s.face_vertex_ids(FId(f)) == Some(Face3::new(VId(t[3 * f]), VId(t[3 * f + 1]), VId(t[3 * f + 2]))), "the search structure keeps the faces");
        check(s.edges_of_face(FId(f)) == Some((EId(3 * f), EId(3 * f + 1), EId(3 * f + 2))), "edges_of_face lists the three edges of the face");
        let (mut en, mut vn, mut c) = (vec![], vec![], vec![EId(7)]);
        check(s.face_edge_neighbours(FId(f), &mut en).is_ok(), "neighbours of a known face can be queried");
        check(s.face_vertex_neighbours(FId(f), &mut c, &mut vn).is_ok(), "neighbours of a known face can be queried");
        for g in 0..nf {
            let mut sh = 0;
            for i in 0..3 { if let Some(w) = tw(3 * f + i) { sh += (w / 3 == g) as usize } }
            check(hasf(&en, g) == sh, "face_edge_neighbours lists the faces across the shared edges");
            let mut sv = false;
            for i in 0..3 { for j in 0..3 { sv |= t[3 * f + i] == t[3 * g + j]; } }
            if g != f { check(hasf(&vn, g) == sv as usize, "face_vertex_neighbours lists exactly once each other face sharing a vertex"); if sv { cover(1) } else { cover(2) } }
        }
        for w in vn.windows(2) { check(w[0].0 < w[1].0, "face_vertex_neighbours is sorted and free of duplicates"); }
    }
    for v in 0..nv {
        let (mut o, mut en, mut al, mut fc, mut c) = (vec![], vec![], vec![], vec![], vec![EId(99)]);
        check(s.edges_originating_from_vertex(VId(v), &mut o).is_ok() & s.edges_ending_at_vertex(VId(v), &mut c, &mut en).is_ok()
            & s.edges_of_vertex(VId(v), &mut c, &mut al).is_ok() & s.faces_of_vertex(VId(v), &mut c, &mut fc).is_ok(), "every vertex of the mesh can be queried");
        for e in 0..ne {
            let (a, b) = (t[e] == v, t[nx(e)] == v);
            check((has(&o, e) == a as usize) & (has(&en, e) == b as usize) & (has(&al, e) == (a | b) as usize), "vertex queries list exactly the edges at the vertex");
        }
        for f in 0..nf {
            let a = (t[3 * f] == v) | (t[3 * f + 1] == v) | (t[3 * f + 2] == v);
            check(hasf(&fc, f) == a as usize, "faces_of_vertex lists exactly the faces containing the vertex");
        }
    }
    let x = sym(64) as usize;
    let (mut en, mut c) = (vec![], vec![]);
    if x >= nf { let x = if bit() { nf } else { x };
        check(s.edges_of_face(FId(x)).is_none() & s.face_edge_neighbours(FId(x), &mut en).is_err() & s.face_vertex_neighbours(FId(x), &mut c, &mut en).is_err(), "face queries fail for unknown face ids"); }
}
/// coordinates of face corner j
fn corner(m: &M3, f: [usize; 3], j: usize) -> Point3D {
    match m.vertex(VId(f[j])) { Some(p) => p, None => { check(false, "every face names existing vertices"); Point3D::default() } }
}
fn valid(m: &M3) {
    for i in 0..m.num_faces() {
        let f = face(m, i);
        check((f[0] != f[1]) & (f[0] != f[2]) & (f[1] != f[2]), "no face of the result names a vertex twice");
        check((f[0] < m.num_vertices()) & (f[1] < m.num_vertices()) & (f[2] < m.num_vertices()), "every face names existing vertices");
    }
}
fn cycp(a: &[Point3D; 3], b: &[Point3D; 3]) -> bool {
    let e = |i: usize, j: usize| eq3(&a[i], &b[j]);
    (e(0, 0) & e(1, 1) & e(2, 2)) | (e(0, 1) & e(1, 2) & e(2, 0)) | (e(0, 2) & e(1, 0) & e(2, 1))
}
fn heal(m: &M3) {
    let nf = m.num_faces();
    let r: M3 = match heal_mesh(m) { Ok(r) => r, Err(_) => { check(false, "healing a valid mesh succeeds"); return; } };
    valid(&r);
    let n = r.num_vertices();
    let vs: Vec<Point3D> = (0..n).map(|i| r.vertex(VId(i)).unwrap()).collect();
    for i in 0..n { for j in 0..i { check(!eq3(&vs[i], &vs[j]), "the result holds every position once"); } }
    let tri = |m: &M3, i: usize| { let f = face(m, i); [corner(m, f, 0), corner(m, f, 1), corner(m, f, 2)] };
    let ins: Vec<[Point3D; 3]> = (0..nf).map(|i| tri(m, i)).collect();
    let outs: Vec<[Point3D; 3]> = (0..r.num_faces()).map(|i| tri(&r, i)).collect();
    for a in &ins {
        let deg = eq3(&a[0], &a[1]) | eq3(&a[0], &a[2]) | eq3(&a[1], &a[2]);
        let mut c = 0usize;
        for b in &outs { c += cycp(a, b) as usize; }
        check(deg | (c > 0), "every non-degenerate face survives with its positions and orientation");
        check(!deg | (c == 0), "degenerate faces are removed");
        check(c <= 1, "duplicate faces are removed");
        if deg { cover(1) } else { cover(2) }
    }
    for b in &outs { let mut c = false; for a in &ins { c |= cycp(a, b); } check(c, "the result has no face the input did not have"); }
    obs(n as u64); obs(outs.len() as u64);
    if outs.len() < nf { cover(3) }
}
fn line_pts(n: usize, hi: i64) -> Vec<Point3D> { (0..n).map(|_| Point3D::new(fi(0, hi), un(0.5), -un(1.0))).collect() }
fn subdiv(t: &[usize], v: &[Point3D]) {
    let m: M3 = mesh(v, t);
    let nf = t.len() / 3;
    let r: M3 = match subdivide::linear(&m) { Ok(r) => r, Err(_) => { check(false, "subdividing a valid mesh succeeds"); return; } };
    valid(&r);
    check(r.num_faces() == 4 * nf, "each face becomes four faces");
    let mut edges: Vec<(usize, usize)> = Vec::new();
    for f in 0..nf { for j in 0..3 { let (a, b) = (t[3 * f + j], t[3 * f + (j + 1) % 3]); let e = (a.min(b), a.max(b)); if !edges.contains(&e) { edges.push(e); } } }
    check(r.num_vertices() == v.len() + edges.len(), "one new vertex per undirected edge, shared between its faces");
    if r.num_faces() != 4 * nf || r.num_vertices() != v.len() + edges.len() { return; }
    let rv: Vec<Point3D> = (0..r.num_vertices()).map(|i| r.vertex(VId(i)).unwrap()).collect();
    for i in 0..v.len() { check(eq3(&rv[i], &v[i]), "the original vertices keep id and position"); }
    let rf: Vec<[usize; 3]> = (0..4 * nf).map(|i| face(&r, i)).collect();
    for f in &rf { obs(f[0] as u64); obs(f[1] as u64); obs(f[2] as u64); } for p in &rv { obs3(p); }
    let mut used = vec![false; 4 * nf];
    let mut mid: Vec<Option<usize>> = vec![None; edges.len()];
    for f in 0..nf {
        let id = [t[3 * f], t[3 * f + 1], t[3 * f + 2]];
        // the middle face of f has only new vertices, ordered like f's edges
        let mut found = false;
        for k in 0..4 * nf {
            if used[k] || found { continue; }
            for rot in 0..3 {
                let g = [rf[k][rot], rf[k][(rot + 1) % 3], rf[k][(rot + 2) % 3]];
                if g[0] < v.len() || g[1] < v.len() || g[2] < v.len() { continue; }
                let mut ok = true;
                for j in 0..3 {
                    let (a, b) = (&v[id[j]], &v[id[(j + 1) % 3]]);
                    let q = &rv[g[j]];
                    ok = ok & (q.x == (a.x + b.x) * 0.5) & (q.y == (a.y + b.y) * 0.5) & (q.z == (a.z + b.z) * 0.5);
                    let e = (id[j].min(id[(j + 1) % 3]), id[j].max(id[(j + 1) % 3]));
                    let ei = edges.iter().position(|x| *x == e).unwrap();
                    if let Some(p) = mid[ei] { ok = ok & (p == g[j]); }
                }
                if ok && !found {
                    // the three corner faces
                    let mut idx = vec![k];
                    for j in 0..3 {
                        let want = [id[j], g[j], g[(j + 2) % 3]];
                        for l in 0..4 * nf { if !used[l] && !idx.contains(&l) && cyc(rf[l], want) { idx.push(l); break; } }
                    }
                    if idx.len() == 4 {
                        for l in idx { used[l] = true; }
                        for j in 0..3 {
                            let e = (id[j].min(id[(j + 1) % 3]), id[j].max(id[(j + 1) % 3]));
                            let ei = edges.iter().position(|x| *x == e).unwrap();
                            mid[ei] = Some(g[j]);
                        }
                        found = true;
                    }
                }
            }
        }
        check(found, "each face is replaced by its three corner faces and the middle face over its edge midpoints, orientation kept");
    }
    if edges.len() < 3 * nf { cover(1) } else { cover(2) }
}
fn clus(nf: usize, big: bool) {
    let cs = un(if bit() { 1.0 } else { 2.0 });
    // opposite corners pin the bounding box so that 2..4 cells fit per axis
    let mut v = vec![Point3D::new(0.0, 0.0, 0.0), Point3D::new(un(4.0), un(4.0), un(4.0))];
    let n = if big { 4 } else { 3 };
    for _ in 2..n { v.push(Point3D::new(fi(0, 4), un(1.0), fi(0, 4))); }
    let t = if big { vec![0, 1, 2, 3, 2, 1] } else { conc_topo(n, nf) };
    clus_of(v, t, cs)
}
fn clus_of(v: Vec<Point3D>, t: Vec<usize>, cs: f64) {
    let nf = t.len() / 3;
    let m: M3 = mesh(&v, &t);
    let r: M3 = match cluster_vertices(&m, cs) { Ok(r) => r, Err(_) => { check(false, "clustering succeeds when at least two clusters fit per axis"); return; } };
    valid(&r);
    let cell = |p: &Point3D| (p.x.div_euclid(cs), p.y.div_euclid(cs), p.z.div_euclid(cs));
    let nv = r.num_vertices();
    for i in 0..nv {
        let p = r.vertex(VId(i)).unwrap();
        let mut c = false;
        for q in &v { c |= eq3(&p, q); }
        check(c, "every vertex of the result is a vertex of the input");
        for j in 0..i { let q = r.vertex(VId(j)).unwrap(); check(!eq3(&p, &q), "the result holds every position once"); check(cell(&p) != cell(&q), "one vertex per cluster"); }
    }
    let cs3 = |m: &M3, i: usize| { let f = face(m, i); [cell(&corner(m, f, 0)), cell(&corner(m, f, 1)), cell(&corner(m, f, 2))] };
    let same = |a: &[(f64, f64, f64); 3], b: &[(f64, f64, f64); 3]| (a[0] == b[0] && a[1] == b[1] && a[2] == b[2]) || (a[0] == b[1] && a[1] == b[2] && a[2] == b[0]) || (a[0] == b[2] && a[1] == b[0] && a[2] == b[1]);
    for i in 0..nf {
        let a = cs3(&m, i);
        let distinct = a[0] != a[1] && a[0] != a[2] && a[1] != a[2];
        let mut c = false;
        for j in 0..r.num_faces() { c |= same(&a, &cs3(&r, j)); }
        check(c == distinct, "a face survives, its corners moved within their clusters, exactly when its corners lie in three different clusters");
        if distinct { cover(1) } else { cover(2) }
    }
    for j in 0..r.num_faces() { let b = cs3(&r, j); let mut c = false; for i in 0..nf { c |= same(&cs3(&m, i), &b); } check(c, "every face of the result stems from a face of the input"); }
    obs(nv as u64); obs(r.num_faces() as u64);
}
fn unify(v: &[Point3D], t: &[usize]) -> Option<Vec<[usize; 3]>> {
    let m: M3 = mesh(v, t);
    let nf = t.len() / 3;
    let r: M3 = match unify_faces(&m) { Ok(r) => r, Err(_) => { check(false, "unifying a valid mesh succeeds"); return None; } };
    check((r.num_faces() == nf) & (r.num_vertices() == v.len()), "unifying adds or removes nothing");
    if r.num_faces() != nf || r.num_vertices() != v.len() { return None; }
    for i in 0..v.len() { check(eq3(&r.vertex(VId(i)).unwrap(), &v[i]), "the vertices keep id and position"); }
    let mut o = Vec::new();
    for i in 0..nf { let g = face(&r, i); check(same_set([t[3 * i], t[3 * i + 1], t[3 * i + 2]], g), "each face keeps its vertices and id"); o.push(g); }
    Some(o)
}
/// a planar grid of w x h vertices
fn grid(w: usize, h: usize) -> (Vec<Point3D>, Vec<usize>) {
    let v = (0..w * h).map(|i| Point3D::new((i % w) as f64, (i / w) as f64, 0.5)).collect(); let mut t = vec![];
    for y in 0..h - 1 { for x in 0..w - 1 { let a = y * w + x; if (x + y) % 2 == 0 { t.extend_from_slice(&[a, a + 1, a + w, a + 1, a + w + 1, a + w]) } else { t.extend_from_slice(&[a, a + 1, a + w + 1, a, a + w + 1, a + w]) } } }
    (v, t)
}
const OCTA: [usize; 24] = [0, 2, 4, 2, 1, 4, 1, 3, 4, 3, 0, 4, 2, 0, 5, 1, 2, 5, 3, 1, 5, 0, 3, 5];
/// a grid, its faces renumbered, or a closed surface; one face may be missing
fn large(closed: bool) -> Vec<usize> {
    let mut t = if closed { OCTA.to_vec() } else { grid(4, 4).1 }; let n = t.len() / 3;
    let k = pick(0, n - 1); for j in 0..3 { t.swap(3 * k + j, j) } if bit() { t.truncate(3 * n - 3) } t
}
/// do the faces traverse some shared edge in the same direction?
fn clash(a: [usize; 3], b: [usize; 3]) -> bool {
    let mut r = false;
    for i in 0..3 { for j in 0..3 { r |= (a[i] == b[j]) & (a[(i + 1) % 3] == b[(j + 1) % 3]); } }
    r
}
/// more vertices and faces than a byte (two bytes) counts, one face anything
fn edit_large(n: usize, m0: usize) {
    let f = [us(0, 1 << 40), n - 1 - us(0, 1), n - 3];
    let ok = (f[0] < n) & (f[0] != f[1]) & (f[0] != f[2]) & (f[1] != f[2]);
    fn go<IC: IsIndexContainer>(n: usize, f: [usize; 3], ok: bool) {
        let mut m = MV::<IC>::default(); for i in 0..n { check(m.add_vertex(Point3D::new(i as f64, 0.5, -(i as f64))) == VId(i), "a vertex gets the next id") }
        let k = n / 2; for i in 0..k { check(m.try_add_connection(VId(i), VId(i + k - 1), VId(n - 1)).ok() == Some(FId(i)), "a face gets the next id") }
        let r = m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])); check(r.is_ok() == ok, "exactly valid connections are accepted"); if ok { cover(1) } else { cover(2) }
        let l = k + ok as usize; check((m.num_faces() == l) & (m.num_vertices() == n), "faces and vertices are counted");
        for i in 0..k { check(face(&m, i) == [i, i + k - 1, n - 1], "faces keep their vertices") } if ok { check(m.face_vertex_ids(FId(k)) == Some(Face3::new(VId(f[0]), VId(f[1]), VId(f[2]))), "faces keep their vertices") }
        check(m.face_vertex_ids(FId(l)).is_none() & m.vertex(VId(n)).is_none(), "nothing is found under an unknown id"); for i in 0..n { let p = m.vertex(VId(i)).unwrap(); check((p.x == i as f64) & (p.z == -(i as f64)), "vertices keep their position"); } obs(ok as u64)
    }
    match m0 { 0 => go::<Vec<usize>>(n, f, ok), 1 => go::<DynamicPrecisionIndexVec>(n, f, ok), _ => go::<U32IndexVec>(n, f, ok) }
}

fn sub_pos_() {
let v: Vec<Point3D> = (0..4).map(|_| p3(-4, 4)).collect();
let t: &[usize] = match pick(0, 3) { 0 => &[0, 1, 2], 1 => &[0, 1, 2, 1, 0, 3], 2 => &[0, 1, 2, 2, 1, 3], _ => &[3, 2, 0] };
subdiv(t, &v); cover(3);
}
fn uni_strip_() {
// a planar strip of six faces numbered in any of several orders, arbitrary orientations
let v: Vec<Point3D> = (0..8).map(|i| Point3D::new(un(i as f64), un(3.0 * (i % 2) as f64), un(1.0))).collect();
let ord: [usize; 6] = match pick(0, 5) { 0 => [0, 1, 2, 3, 4, 5], 1 => [5, 4, 3, 2, 1, 0], 2 => [3, 0, 1, 5, 2, 4], 3 => [2, 5, 0, 3, 1, 4], 4 => [0, 3, 1, 4, 2, 5], _ => [1, 3, 5, 0, 2, 4] };
let mut t = Vec::new();
for i in ord { if bit() { t.extend_from_slice(&[i, i + 1, i + 2]); } else { t.extend_from_slice(&[i + 1, i, i + 2]); } }
let area = |g: &[usize; 3]| (v[g[1]].x - v[g[0]].x) * (v[g[2]].y - v[g[0]].y) - (v[g[1]].y - v[g[0]].y) * (v[g[2]].x - v[g[0]].x);
if let Some(o) = unify(&v, &t) {
    let mut same = true;
    for g in &o { same &= (area(g) > 0.0) == (area(&o[0]) > 0.0); }
    check(same, "all faces of a planar strip end up facing the same way");
    cover(1);
}
}
fn uni_plane_() {
// planar, non-degenerate, edge connected
let s = fi(-7, 8);
let v3 = match pick(0, 2) { 0 => Point3D::new(s, un(3.0), un(1.0)), 1 => Point3D::new(un(4.0), s, un(1.0)), _ => Point3D::new(s, s - un(1.0), un(1.0)) };
let v = vec![Point3D::new(0.0, 0.0, un(1.0)), Point3D::new(un(2.0), 0.0, un(1.0)), Point3D::new(un(1.0), un(2.0), un(1.0)), v3];
let t: &[usize] = match pick(0, 3) { 0 => &[0, 1, 2, 1, 2, 3], 1 => &[0, 1, 2, 2, 1, 3], 2 => &[2, 1, 0, 3, 1, 2], _ => &[3, 2, 1, 0, 2, 1] };
let area = |a: usize, b: usize, c: usize| (v[b].x - v[a].x) * (v[c].y - v[a].y) - (v[b].y - v[a].y) * (v[c].x - v[a].x);
assume(area(t[0], t[1], t[2]) != 0.0);
assume(area(t[3], t[4], t[5]) != 0.0);
if let Some(o) = unify(&v, t) {
    let (a, b) = (area(o[0][0], o[0][1], o[0][2]), area(o[1][0], o[1][1], o[1][2]));
    check((a > 0.0) == (b > 0.0), "faces of a planar mesh end up facing the same way");
    if cyc(o[1], [t[3], t[4], t[5]]) { cover(1) } else { cover(2) }
}
}
harnesses! {
fn h_edit() { edit::<Vec<usize>>(3, false) }
fn h_edit_dyn() { edit::<DynamicPrecisionIndexVec>(3, false) }
fn h_edit_big() { edit::<DynamicPrecisionIndexVec>(2, true) }
fn h_edit_u32() { edit::<U32IndexVec>(2, false) }
fn h_he() { half_edge::<Vec<usize>>(4, 2, false) }
fn h_he_iso() { half_edge::<DynamicPrecisionIndexVec>(3, 2, true) }
fn h_he3() { half_edge::<U32IndexVec>(4, 3, false) }
fn h_sm() { searchable(4, 2) }
fn h_sm3() { searchable(4, 3) }
fn h_edit_large() { edit_large([254, 256, 258][pick(0, 2)], pick(0, 2)) }
fn h_edit_huge() { edit_large([65535, 65538][pick(0, 1)], 1) }
fn h_he_large() { let t = large(bit()); let n = t.len() / 3; half_edge_of::<DynamicPrecisionIndexVec>(t, n, 0) }
fn h_sm_large() { let t = large(bit()); let n = t.len() / 3; searchable_of(t, n) }
fn h_heal_large() {
    // a soup of twelve faces, one corner anywhere
    let (v, t) = grid(4, 3); let mut w: Vec<Point3D> = t[..].iter().map(|i| v[*i].clone()).collect(); let k = [0, 10, 17, 22, 35][pick(0, 4)]; w[k] = Point3D::new(fi(-1, 4), if bit() { 1.0 } else { 2.0 }, 0.5);
    let u: Vec<usize> = (0..w.len()).collect(); let m: M3 = mesh(&w, &u); heal(&m)
}
fn h_sub_large() { let (mut v, t) = grid(4, 4); let k = [0, 5, 15][pick(0, 2)]; v[k].z = dy(-8, 8, -1); subdiv(&t, &v) }
fn h_clus_large() {
    let (mut v, t) = grid(5, 5); v.push(Point3D::new(0.0, 0.0, 5.0)); v[[0, 7, 13, 24][pick(0, 3)]].x = fi(0, 4); clus_of(v, t, if bit() { 1.0 } else { 2.0 })
}
fn h_uni_grid() {
    // eight faces of a planar grid, any orientation of each
    let (mut v, t0) = grid(3, 3); let mut t = vec![]; let k = pick(0, 3); for p in v.iter_mut() { *p = match k { 0 => p.clone(), 1 => Point3D::new(0.5, p.y, -p.x), 2 => Point3D::new(p.y, -2.0, 3.0 * p.x), _ => Point3D::new(p.x, p.y - p.x, p.x + 2.0 * p.y) } } for f in t0.chunks(3) { if bit() { t.extend_from_slice(f) } else { t.extend_from_slice(&[f[1], f[0], f[2]]) } }
    if let Some(o) = unify(&v, &t) { for i in 0..8 { for j in 0..i { check(!clash(o[i], o[j]), "neighbouring faces of the result run along their shared edge in opposite directions") } } cover(1) }
}
fn h_heal_soup() { let v = line_pts(6, 2); let m: M3 = mesh(&v, &[0, 1, 2, 3, 4, 5]); heal(&m) }
fn h_heal_soup3() { let v = line_pts(6, 3); let m: M3 = mesh(&v, &[0, 1, 2, 3, 4, 5]); heal(&m) }
fn h_heal_topo() { let v = line_pts(4, 3); let t = conc_topo(4, 2); let m: M3 = mesh(&v, &t); heal(&m) }
fn h_heal_3f() { let v = line_pts(4, 3); let t = conc_topo(4, 2); let mut t = t; t.extend_from_slice(&[1, 2, 3]); let m: M3 = mesh(&v, &t); heal(&m) }
fn h_dedup() {
    let n = pick(0, 4);
    let mut v = Vec::new();
    for _ in 0..n { v.push(sym(8) as u8); }
    let (p, ids) = pack_dupes_indexed(v.iter());
    check(ids.len() == n, "one index per input element");
    for i in 0..ids.len().min(n) { check(ids[i] < p.len(), "indices refer to packed elements"); if ids[i] < p.len() { check(p[ids[i]] == v[i], "unpacking restores the input"); } }
    for i in 0..p.len() { for j in 0..i { check(p[i] != p[j], "packed data is free of duplicates"); } let mut c = false; for x in &v { c |= *x == p[i]; } check(c, "packed data stems from the input"); }
    cover(1); obs(p.len() as u64);
}
fn h_sub_pos() { sub_pos_() }
fn h_sub_topo() {
    let v = vec![Point3D::new(0.0, 0.0, 0.0), Point3D::new(1.0, 0.0, 4.0), Point3D::new(0.0, 2.0, 16.0), Point3D::new(8.0, 32.0, 1.0)];
    subdiv(&conc_topo(4, 2), &v);
}
fn h_sub_topo3() {
    let v = vec![Point3D::new(0.0, 0.0, 0.0), Point3D::new(1.0, 0.0, 4.0), Point3D::new(0.0, 2.0, 16.0), Point3D::new(8.0, 32.0, 1.0)];
    subdiv(&conc_topo(4, 3), &v);
}
fn h_sub_any() {
    // midpoints for arbitrary finite coordinates
    let v: Vec<Point3D> = (0..3).map(|_| Point3D::new(fin_f64(), 1.0, 2.0)).collect();
    let m: M3 = mesh(&v, &[0, 1, 2]);
    let r: M3 = match subdivide::linear(&m) { Ok(r) => r, Err(_) => { check(false, "subdividing a valid mesh succeeds"); return; } };
    check((r.num_vertices() == 6) & (r.num_faces() == 4), "one face becomes four faces over six vertices");
    if r.num_vertices() != 6 { return; }
    for i in 3..6 {
        let x = r.vertex(VId(i)).unwrap().x;
        let mut c = false;
        for (a, b) in [(0, 1), (1, 2), (2, 0)] { let e = 0.5 * (v[a].x + v[b].x); c |= feq(x, e); }
        check(c, "new vertices are edge midpoints");
    }
    cover(1);
}
fn h_clus() { clus(1, false) }
fn h_clus_two() { clus(2, true) }
fn h_clus_err() {
    // too few cells per axis, or no bounding box: an error, never a panic
    let v: Vec<Point3D> = (0..3).map(|_| Point3D::new(fi(0, 3), fi(0, 3), fi(0, 3))).collect();
    let m: M3 = mesh(&v, &[0, 1, 2]);
    let mut ok = true;
    for f in [|p: &Point3D| p.x, |p: &Point3D| p.y, |p: &Point3D| p.z] {
        let mn = f(&v[0]).min(f(&v[1])).min(f(&v[2])); let mx = f(&v[0]).max(f(&v[1])).max(f(&v[2]));
        ok &= mx - mn >= 2.0;
    }
    let r: Result<M3> = cluster_vertices(&m, 1.0);
    check(r.is_ok() == ok, "clustering fails exactly when fewer than two clusters fit along some axis");
    if ok { cover(1) } else { cover(2) }
    let e: M3 = Mesh3D::default();
    check(cluster_vertices(&e, 1.0).is_err(), "clustering an empty mesh fails");
}
fn h_uni_plane() { uni_plane_() }
fn h_uni_chain() {
    // a planar strip of three faces, arbitrary orientations
    let v = vec![Point3D::new(0.0, 0.0, 0.0), Point3D::new(2.0, 0.0, 0.0), Point3D::new(1.0, 1.0, 0.0), Point3D::new(3.0, 1.0, 0.0), Point3D::new(2.0, 3.0, 0.0)];
    let mut t = Vec::new();
    for f in [[0, 1, 2], [1, 3, 2], [2, 3, 4]] { if bit() { t.extend_from_slice(&f); } else { t.extend_from_slice(&[f[1], f[0], f[2]]); } }
    if let Some(o) = unify(&v, &t) { check(!clash(o[0], o[1]) & !clash(o[1], o[2]) & !clash(o[0], o[2]), "neighbouring faces of the result run along their shared edge in opposite directions"); cover(1); }
}
fn h_uni_strip() { uni_strip_() }
fn h_uni_island() {
    // two planar strips in one mesh, their faces numbered interleaved
    let v: Vec<Point3D> = (0..10).map(|i| Point3D::new((i % 5) as f64 + 20.0 * (i / 5) as f64, 3.0 * (i % 5 % 2) as f64, 1.0)).collect();
    let ord: [usize; 6] = match pick(0, 2) { 0 => [0, 5, 1, 6, 2, 7], 1 => [7, 0, 6, 2, 5, 1], _ => [1, 0, 2, 6, 5, 7] };
    let mut t = Vec::new();
    for i in ord { if bit() { t.extend_from_slice(&[i, i + 1, i + 2]); } else { t.extend_from_slice(&[i + 1, i, i + 2]); } }
    let area = |g: &[usize; 3]| (v[g[1]].x - v[g[0]].x) * (v[g[2]].y - v[g[0]].y) - (v[g[1]].y - v[g[0]].y) * (v[g[2]].x - v[g[0]].x);
    if let Some(o) = unify(&v, &t) {
        let mut same = true;
        for g in &o { for h in &o { same &= (g[0] / 5 != h[0] / 5) | ((area(g) > 0.0) == (area(h) > 0.0)); } }
        check(same, "all faces of a planar strip end up facing the same way");
        cover(1);
    }
}
fn h_uni_two() {
    // two disconnected pairs: every component is unified on its own
    let mut v = Vec::new();
    for d in [0.0, 10.0] { v.push(Point3D::new(d, 0.0, 0.0)); v.push(Point3D::new(d + 1.0, 0.0, 0.0)); v.push(Point3D::new(d, 1.0, 0.0)); v.push(Point3D::new(d + 1.0, 1.0, 0.0)); }
    let mut t = Vec::new();
    for d in [0, 4] { for f in [[0, 1, 2], [1, 3, 2]] { let f = [f[0] + d, f[1] + d, f[2] + d]; if bit() { t.extend_from_slice(&f); } else { t.extend_from_slice(&[f[1], f[0], f[2]]); } } }
    if let Some(o) = unify(&v, &t) { check(!clash(o[0], o[1]) & !clash(o[2], o[3]), "neighbouring faces of the result run along their shared edge in opposite directions"); cover(1); }
}
fn h_uni_sharp() {
    // folded by more than 90 degrees along the shared edge
    let v = vec![Point3D::new(0.0, 0.0, 0.0), Point3D::new(0.0, 2.0, 0.0), Point3D::new(2.0, 0.0, 0.0), Point3D::new(1.0, 1.0, fi(1, 8))];
    let t: &[usize] = if bit() { &[0, 1, 2, 1, 0, 3] } else { &[0, 1, 2, 0, 1, 3] };
    if let Some(o) = unify(&v, t) { check(!clash(o[0], o[1]), "sharp fold: faces run along their shared edge in opposite directions"); cover(1); }
}
fn h_heal_mag() { mag_odd(); let v = line_pts(6, 3); let m: M3 = mesh(&v, &[0, 1, 2, 3, 4, 5]); heal(&m) }
fn h_heal_any() {
    // two faces, some corner of which is anywhere along some axis
    let a = pick(0, 2); let x = fin_f64(); let at = |x: f64| { let mut c = [0.5, -1.0, 4.0]; c[a] = x; Point3D::new(c[0], c[1], c[2]) };
    let k = pick(0, 2); let w = [0.0, 2.0, 3.0, 1.0 / 3.0, 5.0, 6.0]; let v: Vec<Point3D> = (0..6).map(|i| at(if i == k { x } else if i == 5 { w[0] } else { w[i] })).collect(); let m: M3 = mesh(&v, &[0, 1, 2, 3, 4, 5]); heal(&m)
}
fn h_sub_mag() { mag(); sub_pos_() }
fn h_clus_mag() { mag(); clus(1, false) }
fn h_uni_mag() { mag(); if pick(0, 1) == 0 { uni_strip_() } else { uni_plane_() } }
}

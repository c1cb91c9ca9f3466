//! text file formats
use crate::util::*;
use crate::vp::*;
use rust_3d::io::*;
use rust_3d::*;

/// an ASCII byte
fn asc() -> u8 { let b = byte(); assume(b < 128); b }
fn dig() -> u8 { let b = byte(); assume((b >= b'0') & (b <= b'9')); b }
/// a byte that matters to the structure of text files
fn chr() -> u8 { [b' ', b'\n', b'\t', b'\r', b';', b',', b'#', b'-', b'.', b'/', b'3', b'x'][pick(0, 11)] }
/// fill in a template: ? any ASCII byte, $ any digit, @ some structural character
fn tmpl(t: &[u8]) -> Vec<u8> { t.iter().map(|c| match *c { b'?' => asc(), b'$' => dig(), b'@' => chr(), c => c }).collect() }
fn any_of<'a>(t: &[&'a [u8]]) -> Vec<u8> { tmpl(t[pick(0, t.len() - 1)]) }
fn any_f32() -> f32 { f32::from_bits(sym(32) as u32) }
fn strip(mut l: &[u8]) -> &[u8] { while let [h @ .., b' ' | b'\t' | b'\r' | b'\n' | 11 | 12] = l { l = h } l }
/// lines without trailing white space; a missing line break at the end does not matter
fn lines(t: &[u8]) -> Vec<&[u8]> { let mut v: Vec<&[u8]> = t.split(|c| *c == b'\n').collect(); if let Some(b"") = v.last().copied() { v.pop(); } v.into_iter().map(strip).collect() }
fn words(l: &[u8]) -> Vec<&[u8]> { l.split(|c| (*c == b' ') | (*c == b'\t')).filter(|w| !w.is_empty()).collect() }
fn num(w: Option<&&[u8]>) -> Option<f64> { std::str::from_utf8(w?).ok()?.parse().ok() }
fn int(w: Option<&&[u8]>) -> Option<usize> { std::str::from_utf8(w?).ok()?.parse().ok() }
fn xyz(w: &[&[u8]]) -> Option<Point3D> { Some(Point3D::new(num(w.get(0))?, num(w.get(1))?, num(w.get(2))?)) }
fn eqf(a: f64, b: f64) -> bool { same_bits(a, b) | ((a != a) & (b != b)) }
fn e3(a: &Point3D, b: &Point3D) -> bool { eqf(a.x, b.x) & eqf(a.y, b.y) & eqf(a.z, b.z) }
fn verdict(ok: bool, v: &[Point3D], want: (Vec<Point3D>, bool)) {
    obs(ok as u64); obs(v.len() as u64); for p in v { obs3(p) }
    check(ok == want.1, "a file is accepted exactly if it is well formed"); check(v.len() == want.0.len(), "every point of the file is loaded, up to the first malformed line");
    for i in 0..v.len().min(want.0.len()) { check(e3(&v[i], &want.0[i]), "points have the coordinates written in the file, in its order") }
    if ok & !v.is_empty() { cover(1) } if !ok { cover(2) }
}
fn delim(l: &[u8], n: usize) -> Option<u8> { for d in b" ;,\t" { if l.iter().filter(|c| *c == d).count() >= n { return Some(*d) } } None }
fn ref_xyz(t: &[u8], n: usize) -> (Vec<Point3D>, bool) {
    let mut v = vec![]; let mut d = None;
    for l in lines(t) {
        if d.is_none() { d = delim(l, n - 1) } let d = match d { None => return (v, false), Some(d) => d };
        let mut w: Vec<&[u8]> = l.split(|c| *c == d).filter(|w| !w.is_empty()).collect(); if n == 2 { w.truncate(2); w.push(b"0"); if w.len() < 3 { return (v, false) } }
        match xyz(&w) { Some(p) => v.push(p), None => return (v, false) }
    }
    (v, true)
}
fn ref_pts(t: &[u8]) -> (Vec<Point3D>, bool) {
    let mut v = vec![]; let mut left = 0;
    for l in lines(t) { if l.is_empty() { continue } let w = words(l);
        if left == 0 { match int(w.get(0)) { Some(n) => left = n, None => return (v, false) } } else { left -= 1; match xyz(&w) { Some(p) => v.push(p), None => return (v, false) } } }
    (v, true)
}
fn ref_ptx(t: &[u8]) -> (Vec<Point3D>, bool) {
    let mut v = vec![]; let ls = lines(t); let mut i = 0;
    while i < ls.len() {
        if ls.len() < i + 10 { return (v, false) }
        let (c, r) = (int(Some(&ls[i])), int(Some(&ls[i + 1]))); let mut m = vec![]; for k in 6..10 { let w = words(ls[i + k]); for j in 0..4 { match num(w.get(j)) { Some(x) => m.push(x), None => return (v, false) } } }
        let n = match (c, r) { (Some(c), Some(r)) => match c.checked_mul(r) { Some(n) => n, None => return (v, false) }, _ => return (v, false) }; i += 10;
        for _ in 0..n { if i >= ls.len() { return (v, false) } match xyz(&words(ls[i])) { Some(p) => { let f = |k: usize| m[k] * p.x + m[4 + k] * p.y + m[8 + k] * p.z + m[12 + k]; v.push(Point3D::new(f(0), f(1), f(2))) } None => return (v, false) } i += 1 }
    }
    (v, true)
}
fn to3(v: Vec<Point2D>) -> Vec<Point3D> { v.into_iter().map(|p| Point3D::new(p.x, p.y, 0.0)).collect() }
fn xy(t: &[u8]) { let mut v: Vec<Point2D> = vec![]; let r = load_xy(t, &mut v); verdict(r.is_ok(), &to3(v), ref_xyz(t, 2)) }
fn xyz_(t: &[u8]) { let mut v: Vec<Point3D> = vec![]; let r = load_xyz(t, &mut v); verdict(r.is_ok(), &v, ref_xyz(t, 3)) }
fn pts(t: &[u8]) { let mut v: Vec<Point3D> = vec![]; let r = load_pts(t, &mut v); verdict(r.is_ok(), &v, ref_pts(t)) }
fn ptx(t: &[u8]) { let mut v: Vec<Point3D> = vec![]; let r = load_ptx(t, &mut v); verdict(r.is_ok(), &v, ref_ptx(t)) }

// ---- meshes -------------------------------------------------------------------------------------
type Want = (Vec<Point3D>, Vec<[usize; 3]>, bool);
/// a reader that hands out at most `.1` bytes per call
pub struct Drip<'a>(pub &'a [u8], pub usize);
impl<'a> std::io::Read for Drip<'a> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = self.0.len().min(b.len()).min(self.1); for i in 0..n { b[i] = self.0[i] } self.0 = &self.0[n..]; Ok(n) } }
impl<'a> std::io::BufRead for Drip<'a> { fn fill_buf(&mut self) -> std::io::Result<&[u8]> { Ok(&self.0[..self.0.len().min(self.1)]) } fn consume(&mut self, n: usize) { self.0 = &self.0[n..] } }
fn verdict_mesh(ok: bool, m: &M3, want: Want) {
    obs(ok as u64); obs(m.num_vertices() as u64); obs(m.num_faces() as u64); for i in 0..m.num_vertices() { obs3(&m.vertex(VId(i)).unwrap()) } for i in 0..m.num_faces() { for k in face(m, i).iter() { obs(*k as u64) } }
    check(ok == want.2, "a file is accepted exactly if it is well formed"); check((m.num_vertices() == want.0.len()) & (m.num_faces() == want.1.len()), "all vertices and faces of the file are loaded, up to the first malformed line");
    for i in 0..want.0.len().min(m.num_vertices()) { check(e3(&m.vertex(VId(i)).unwrap(), &want.0[i]), "vertices have the coordinates written in the file, in its order") }
    for i in 0..want.1.len().min(m.num_faces()) { let f = face(m, i); check((f[0] == want.1[i][0]) & (f[1] == want.1[i][1]) & (f[2] == want.1[i][2]), "faces join the vertices named in the file, in its order") }
    if ok & !want.1.is_empty() { cover(1) } if !ok { cover(2) }
}
fn face_ok(f: [usize; 3], n: usize) -> bool { (f[0] < n) & (f[1] < n) & (f[2] < n) & (f[0] != f[1]) & (f[0] != f[2]) & (f[1] != f[2]) }
fn ref_obj(t: &[u8], points: bool) -> Want {
    let (mut v, mut fs) = (vec![], vec![]);
    for l in lines(t) { let w = words(l);
        if l.starts_with(b"v ") { match xyz(&w[1..]) { Some(p) => v.push(p), None => return (v, fs, false) } }
        else if !points & l.starts_with(b"f ") {
            let mut f = [0; 3]; for k in 0..3 { match w.get(k + 1).and_then(|w| int(Some(&w.split(|c| *c == b'/').next().unwrap()))) { Some(n) if n > 0 => f[k] = n - 1, _ => return (v, fs, false) } }
            if !face_ok(f, v.len()) { return (v, fs, false) } fs.push(f)
        } }
    (v, fs, true)
}
fn ref_off(t: &[u8], points: bool) -> Want {
    let (mut v, mut fs, mut off, mut n) = (vec![], vec![], false, None);
    for l in lines(t) { let w = words(l);
        if !off && l.starts_with(b"OFF") { off = true; continue } if l.is_empty() || l.starts_with(b"#") { continue }
        match n {
            None => match (int(w.get(0)), int(w.get(1))) { (Some(a), b) if points | b.is_some() => n = Some(a), _ => return (v, fs, false) },
            Some(k) if v.len() < k => match xyz(&w) { Some(p) => v.push(p), None => return (v, fs, false) },
            _ if points => break,
            _ => match (w[0], int(w.get(1)), int(w.get(2)), int(w.get(3))) { (b"3", Some(a), Some(b), Some(c)) if face_ok([a, b, c], v.len()) => fs.push([a, b, c]), _ => return (v, fs, false) },
        } }
    (v, fs, true)
}
fn obj(t: &[u8]) { let mut m = M3::default(); let r = load_obj_mesh(t, &mut m); verdict_mesh(r.is_ok(), &m, ref_obj(t, false)) }
fn obj_p(t: &[u8]) { let mut v: Vec<Point3D> = vec![]; let r = load_obj_points(t, &mut v); let w = ref_obj(t, true); verdict(r.is_ok(), &v, (w.0, w.2)) }
fn off(t: &[u8]) { let mut m = M3::default(); let r = load_off_mesh(t, &mut m); verdict_mesh(r.is_ok(), &m, ref_off(t, false)) }
fn off_p(t: &[u8]) { let mut v: Vec<Point3D> = vec![]; let r = load_off_points(t, &mut v); let w = ref_off(t, true); verdict(r.is_ok(), &v, (w.0, w.2)) }
// ---- stl ----------------------------------------------------------------------------------------
/// facets as normal and corners
fn ref_stl(t: &[u8]) -> (Vec<[Point3D; 4]>, bool) {
    let mut v = vec![]; let raw = lines(t); let ls: Vec<Vec<&[u8]>> = raw.iter().copied().map(words).collect(); let mut i = 1; let st = |l: &Vec<&[u8]>, k: usize, p: &[u8]| l.get(k).map_or(false, |w| w.starts_with(p));
    loop {
        let l = match ls.get(i) { None => return (v, true), Some(l) => l };
        if st(l, 0, b"endsolid") { return (v, true) } if !st(l, 0, b"facet") { return (v, false) }
        let n = xyz(l.get(2..).unwrap_or(&[])).unwrap_or(Point3D::new(0.0, 0.0, 1.0)); let mut c = vec![];
        for k in 1..7 { let l = match ls.get(i + k) { None => return (v, true), Some(l) => l };
            match k { 1 => if !raw[i + k].trim_ascii_start().starts_with(b"outer loop") { return (v, false) }, 5 => if !st(l, 0, b"endloop") { return (v, false) }, 6 => if !st(l, 0, b"endfacet") { return (v, false) }, _ => match xyz(l.get(1..).unwrap_or(&[])) { Some(p) => c.push(p), None => return (v, false) } } }
        v.push([n, c[0].clone(), c[1].clone(), c[2].clone()]); i += 7;
    }
}
fn verdict_stl(t: &[u8], fmt: StlFormat, want: (Vec<[Point3D; 4]>, bool), drip: usize, mode: usize) {
    let mut n: Vec<Point3D> = vec![]; let mut v: Vec<Point3D> = vec![]; let mut m = M3::default();
    let ok = match mode { 0 => load_stl_triplets(Drip(t, drip), fmt, &mut v, &mut n).is_ok(), 1 => load_stl_mesh_duped(Drip(t, drip), fmt, &mut m, &mut n).is_ok(), _ => load_stl_mesh_unique(Drip(t, drip), fmt, &mut m, &mut n).is_ok() };
    if mode == 1 { check(m.num_vertices() == 3 * m.num_faces(), "every face has its own three vertices") }
    if mode == 2 { for i in 0..m.num_vertices() { for j in 0..i { check(!eq3(&m.vertex(VId(i)).unwrap(), &m.vertex(VId(j)).unwrap()), "no vertex of a mesh loaded as unique is there twice") } } }
    if mode > 0 { for i in 0..m.num_faces() { let [a, b, c] = m.face_vertices(FId(i)).unwrap(); v.push(a); v.push(b); v.push(c) } }
    obs(ok as u64); obs(v.len() as u64); for p in v.iter().chain(n.iter()) { obs3(p) }
    check(ok == want.1, "a file is accepted exactly if it is well formed");
    let w: Vec<_> = want.0.into_iter().filter(|f| (mode != 2) | !(eq3(&f[1], &f[2]) | eq3(&f[1], &f[3]) | eq3(&f[2], &f[3]))).collect();
    check((v.len() == 3 * w.len()) & (n.len() == w.len()), "every facet of the file is loaded with its normal, up to the first malformed one; unique meshes leave out degenerate ones");
    if (v.len() == 3 * w.len()) & (n.len() == w.len()) { for (i, f) in w.iter().enumerate() {
        for k in 0..3 { check(if mode == 2 { eq3(&v[3 * i + k], &f[k + 1]) } else { e3(&v[3 * i + k], &f[k + 1]) }, "the corners of a facet are those of the file, in its order") }
        check(e3(&n[i], &f[0]), "the normal of a facet is that of the file, and that of another facet is never used") } }
    if ok & !w.is_empty() { cover(1) } if !ok { cover(2) }
}
fn stl(t: &[u8], mode: usize) { verdict_stl(t, if pick(0, 1) == 0 { StlFormat::Ascii } else { StlFormat::Auto }, ref_stl(t), 4096, mode) }
/// a binary file: 80 bytes header, count, facets
fn stl_bin(count: u32, facets: &[[f32; 12]], first: u8, cut: usize, mode: usize, fmt: StlFormat, drip: usize) {
    let mut t = vec![32u8; 80]; for (i, c) in b"solid".iter().enumerate() { t[i] = *c } t[4] = first;
    t.extend_from_slice(&count.to_le_bytes()); for f in facets { for x in f { t.extend_from_slice(&x.to_le_bytes()) } t.extend_from_slice(&[7, 9]) }
    let n = t.len() - cut; t.truncate(n); let whole = (n.saturating_sub(84)) / 50; let want = if count > 1000000000 { 0 } else { (count as usize).min(whole) };
    let f = facets[..want].iter().map(|f| { let p = |k: usize| Point3D::new(f[k] as f64, f[k + 1] as f64, f[k + 2] as f64); [p(0), p(3), p(6), p(9)] }).collect();
    verdict_stl(&t, fmt, (f, (n >= 84) & (count as usize <= whole)), drip, mode)
}
const FACET: &[u8] = b"solid\nfacet normal 0 1 2\nouter loop\nvertex 1 2 3\nvertex 4 5 6\nvertex 7 8 9\nendloop\nendfacet\n";

// ---- ply ----------------------------------------------------------------------------------------
/// how a .ply file lays out its data; properties as (type, name)
struct Ply<'a> { fmt: usize, v: Vec<(&'a str, &'a str)>, f: Vec<(&'a str, &'a str)>, count: &'a str, index: &'a str, has_faces: bool, nv: usize, nf: usize }
fn size(t: &str) -> usize { match t { "char" | "int8" | "uchar" | "uint8" => 1, "short" | "int16" | "ushort" | "uint16" => 2, "double" | "float64" => 8, _ => 4 } }
const TYPES: [&str; 16] = ["char", "int8", "uchar", "uint8", "short", "int16", "ushort", "uint16", "int", "int32", "uint", "uint32", "float", "float32", "double", "float64"];
fn put(o: &mut Vec<u8>, be: bool, bits: u64, n: usize) { for i in 0..n { let k = if be { n - 1 - i } else { i }; o.push((bits >> (8 * k)) as u8) } }
/// writes the file; coordinates x y z of vertices as bits (ascii: as a digit), faces as number of corners and indices; also gives the vertices and the offset of the data
fn ply_file(p: &Ply, vs: &[[u64; 3]], fs: &[(u64, [u64; 3])]) -> (Vec<u8>, Vec<Point3D>, usize) {
    let mut t = String::new(); t += "ply\n"; t += ["format ascii 1.0\n", "format binary_little_endian 1.0\n", "format binary_big_endian 1.0\n"][p.fmt]; t += "comment x\nelement vertex "; t += &p.nv.to_string(); t += "\n";
    for (ty, n) in &p.v { t += "property "; t += ty; t += " "; t += n; t += "\n" }
    if p.has_faces { t += "element face "; t += &p.nf.to_string(); t += "\n"; for (ty, n) in &p.f { if *ty == "list" { t += "property list "; t += p.count; t += " "; t += p.index; t += " "; t += n } else { t += "property "; t += ty; t += " "; t += n } t += "\n" } }
    t += "end_header\n"; let mut o = t.into_bytes(); let start = o.len(); let mut pts = vec![];
    for v in vs {
        let mut c = [0.0; 3];
        for (ty, n) in &p.v { let k = match *n { "x" => 0, "y" => 1, "z" => 2, _ => 3 };
            if p.fmt == 0 { let w = if k < 3 { [b'-', v[k] as u8, b'.', b'5'] } else { *b"0077" }; if k < 3 { c[k] = num(Some(&&w[..])).unwrap() } o.extend_from_slice(&w); o.push(b' ') }
            else { if k < 3 { c[k] = if size(ty) == 4 { f32::from_bits(v[k] as u32) as f64 } else { f64::from_bits(v[k]) } } put(&mut o, p.fmt == 2, if k < 3 { v[k] } else { 0x7766554433221100 }, size(ty)) } }
        if p.fmt == 0 { o.push(b'\n') } pts.push(Point3D::new(c[0], c[1], c[2]));
    }
    for (n, f) in fs {
        for (ty, _) in &p.f {
            if p.fmt == 0 { if *ty == "list" { for x in [*n, f[0], f[1], f[2]].iter() { o.push(*x as u8); o.push(b' ') } } else { o.extend_from_slice(b"3.5 ") } }
            else if *ty == "list" { put(&mut o, p.fmt == 2, *n, size(p.count)); for x in f { put(&mut o, p.fmt == 2, *x, size(p.index)) } } else { put(&mut o, p.fmt == 2, 0x0302010003020100, size(ty)) } }
        if p.fmt == 0 { o.push(b'\n') }
    }
    (o, pts, start)
}
fn ply_want(pts: &[Point3D], fs: &[(u64, [u64; 3])], zero: u64) -> Want {
    let mut w = vec![]; for (n, f) in fs { let g = [f[0].wrapping_sub(zero) as usize, f[1].wrapping_sub(zero) as usize, f[2].wrapping_sub(zero) as usize]; if (*n != 3 + zero) || !face_ok(g, pts.len()) { return (pts.to_vec(), w, false) } w.push(g) } (pts.to_vec(), w, true)
}
/// 0: mesh, 1: either, 2: points
fn ply_load(t: &[u8], how: usize, drip: usize, has_faces: bool, want: Want) {
    let mut m = M3::default(); let mut v: Vec<Point3D> = vec![];
    let ok = match how { 0 => load_ply_mesh(Drip(t, drip), &mut m).is_ok(), 1 => match load_ply_either(Drip(t, drip), &mut m, &mut v) { Ok(MeshOrPoints::Mesh) => { check(has_faces, "only a file with faces is loaded as mesh"); true } Ok(MeshOrPoints::Points) => { check(!has_faces, "only a file without faces is loaded as points"); true } Err(_) => false }, _ => load_ply_points(Drip(t, drip), &mut v).is_ok() };
    if (how == 2) | !has_faces { check(m.num_vertices() + m.num_faces() == 0, "points are not loaded into a mesh"); if how == 0 { check(!ok & v.is_empty(), "a file without faces is no mesh"); cover(3) } else { verdict(ok, &v, (want.0, true)) } } else { check(v.is_empty(), "a mesh is not loaded into points"); verdict_mesh(ok, &m, want) }
}
fn small(fmt: usize, ty: &str, x: u8) -> u64 { if fmt == 0 { (b'0' + x) as u64 } else if size(ty) == 4 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() } }
fn any_bits(fmt: usize, ty: &str) -> u64 { if fmt == 0 { dig() as u64 } else { sym(8 * size(ty) as u32) } }
/// three vertices with concrete coordinates
fn ply_verts(p: &Ply) -> Vec<[u64; 3]> { let ty = |n: &str| p.v.iter().find(|x| x.1 == n).unwrap().0; let s = |n: &str, x: u8| small(p.fmt, ty(n), x); vec![[s("x", 1), s("y", 2), s("z", 3)], [s("x", 4), s("y", 5), s("z", 6)], [s("x", 7), s("y", 8), s("z", 9)]] }
fn ply_faces(p: &Ply) -> Vec<(u64, [u64; 3])> { let z = if p.fmt == 0 { 48 } else { 0 }; vec![(3 + z, [z + 2, z, z + 1]), (3 + z, [z, z + 1, z + 2])] }
fn ply_std<'a>(fmt: usize) -> Ply<'a> { Ply { fmt, v: vec![("float", "x"), ("float", "y"), ("float", "z")], f: vec![("list", "vertex_indices")], count: "uchar", index: "int", has_faces: true, nv: 3, nf: 2 } }

fn ply_refused(t: &[u8]) { let mut m = M3::default(); let mut v: Vec<Point3D> = vec![]; check(load_ply_mesh(t, &mut m).is_err(), "a malformed header is refused"); check(load_ply_points(t, &mut v).is_err() & v.is_empty(), "a malformed header is refused"); check(load_ply_either(t, &mut m, &mut v).is_err() & v.is_empty() & (m.num_vertices() == 0), "a malformed header is refused"); cover(1) }

// ---- writers ------------------------------------------------------------------------------------
/// a writer that takes at most `per` bytes per call and fails once `left` bytes were taken
struct Sink { to: Vec<u8>, per: usize, left: usize }
impl std::io::Write for Sink { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.left == 0 { return Err(std::io::ErrorKind::Other.into()) } let n = b.len().min(self.per).min(self.left); self.left -= n; self.to.extend_from_slice(&b[..n]); Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn sink() -> Sink { Sink { to: vec![], per: [1, 3, 1 << 20][pick(0, 2)], left: usize::MAX } }
/// awkward coordinates
fn coord() -> f64 { [0.0, -0.0, 1.0, 0.1, -1.0 / 3.0, 123456.789, 1e300, -2.5e-310, 5e-324, f64::MAX, 1e21, -1e-7, 9007199254740993.0, 1e16][pick(0, 13)] }
/// awkward coordinates whose products do not overflow
fn mid() -> f64 { let x = coord(); assume(x.abs() < 1e100); x }
fn w_mesh(p: Point3D, k: usize) -> M3 { let mut v = vec![Point3D::new(1.0, 2.0, 3.0), Point3D::new(4.0, 0.0, 6.0), Point3D::new(-7.0, 8.0, 9.5), Point3D::new(0.0, 1.5, 2.0)]; v[k] = p; mesh(&v, &conc_topo(4, 2)) }
fn same_mesh(a: &M3, b: &M3, to: fn(f64) -> f64) {
    obs(b.num_vertices() as u64); check((a.num_vertices() == b.num_vertices()) & (a.num_faces() == b.num_faces()), "all vertices and faces come back");
    for i in 0..a.num_vertices().min(b.num_vertices()) { let (p, q) = (a.vertex(VId(i)).unwrap(), b.vertex(VId(i)).unwrap()); obs3(&q); check(e3(&Point3D::new(to(p.x), to(p.y), to(p.z)), &q), "vertices come back unchanged") }
    for i in 0..a.num_faces().min(b.num_faces()) { let (f, g) = (face(a, i), face(b, i)); check((f[0] == g[0]) & (f[1] == g[1]) & (f[2] == g[2]), "faces come back unchanged") } cover(1)
}
fn colors(n: usize) -> Vec<Rgb> { (0..n).map(|i| Rgb::new(i as u8, 7, 200)).collect() }

// ---- las, psl, gcode ----------------------------------------------------------------------------
struct Las { major: u8, minor: u8, format: u8, len: u16, legacy: u32, n: u64, off: u32, s: [f64; 3], o: [f64; 3] }
fn las_std() -> Las { Las { major: 1, minor: 4, format: 6, len: 30, legacy: 0, n: 2, off: 375, s: [0.5, 0.25, 2.0], o: [100.0, -7.0, 0.125] } }
fn las_file(l: &Las, recs: &[[i32; 3]], gap: usize, cut: usize) -> Vec<u8> {
    let mut h = vec![b'q'; 375]; h[..4].copy_from_slice(b"LASF"); let mut at = |i: usize, b: &[u8]| for k in 0..b.len() { h[i + k] = b[k] };
    at(24, &[l.major, l.minor]); at(94, &375u16.to_le_bytes()); at(96, &l.off.to_le_bytes()); at(100, &[0; 4]); at(104, &[l.format]); at(105, &l.len.to_le_bytes()); at(107, &l.legacy.to_le_bytes()); for k in 0..3 { at(131 + 8 * k, &l.s[k].to_le_bytes()); at(155 + 8 * k, &l.o[k].to_le_bytes()) } at(247, &l.n.to_le_bytes());
    h.truncate(l.off as usize - gap); h.extend(vec![1u8; gap]); for r in recs { let n = h.len(); for c in r { h.extend_from_slice(&c.to_le_bytes()) } h.resize(n + (l.len as usize).max(12), 0xAB) } let n = h.len() - cut; h.truncate(n); h
}
fn las(l: &Las, recs: &[[i32; 3]], gap: usize, cut: usize) {
    let t = las_file(l, recs, gap, cut); let mut v: Vec<Point3D> = vec![]; let r = load_las(std::io::Cursor::new(&t[..]), &mut v);
    let size = if l.minor < 3 { 227 } else if l.minor < 4 { 235 } else { 375 }; let head = (t.len() >= size) & (l.major < 2) & (l.minor < 5) & (l.format < 11) & (l.len > 11); let n = if l.legacy != 0 { l.legacy as u64 } else if l.minor < 4 { 0 } else { l.n };
    let whole = if head { t.len().saturating_sub(l.off as usize) / l.len as usize } else { 0 }; let want = recs[..recs.len().min(whole).min(if n < 9 { n as usize } else { 9 })].iter().map(|r| { let f = |k: usize| l.o[k] + r[k] as f64 * l.s[k]; Point3D::new(f(0), f(1), f(2)) }).collect();
    verdict(r.is_ok(), &v, (want, head & (n <= whole as u64)))
}
fn i32_at(t: &[u8], i: usize) -> Option<i32> { let b = t.get(i..i + 4)?; Some(i32::from_le_bytes([b[0], b[1], b[2], b[3]])) }
fn ref_psl(t: &[u8]) -> (Vec<Point3D>, bool) {
    let mut v = vec![]; let f = |i| i32_at(t, i).map(|b| f32::from_bits(b as u32) as f64); let mut at = 512; let (p, e) = (i32_at(t, 136), t.len() < 512); if e { return (v, false) }
    for _ in 0..p.unwrap() { let n = match i32_at(t, at) { Some(n) if t.len() >= at + 64 => n, _ => return (v, false) }; at += 64;
        for _ in 0..n { let n = match i32_at(t, at) { Some(n) if t.len() >= at + 64 => n, _ => return (v, false) }; at += 64;
            for _ in 0..n { match (f(at), f(at + 4), f(at + 8)) { (Some(x), Some(y), Some(z)) => v.push(Point3D::new(x, y, z)), _ => return (v, false) } at += 12 } } }
    (v, true)
}
/// a file with the given numbers of points per line per pass
fn psl_file(p: &[&[i32]]) -> Vec<u8> { let mut t = vec![5u8; 512]; let n = t.len(); t[136..140].copy_from_slice(&(p.len() as i32).to_le_bytes()); assert!(n == 512); let mut c = 1.0f32; for l in p { let a = t.len(); t.resize(a + 64, 6); t[a..a + 4].copy_from_slice(&(l.len() as i32).to_le_bytes()); for n in *l { let a = t.len(); t.resize(a + 64, 7); t[a..a + 4].copy_from_slice(&n.to_le_bytes()); for _ in 0..3 * n { t.extend_from_slice(&c.to_le_bytes()); c += 1.0 } } } t }
fn psl(t: &[u8], drip: usize) { let mut v: Vec<Point3D> = vec![]; let r = load_psl(Drip(t, drip), &mut v); verdict(r.is_ok(), &v, ref_psl(t)) }
/// words naming coordinates of a command; none if malformed
fn axes(l: &[u8]) -> Option<[Option<f64>; 3]> {
    let mut c = [None; 3]; for w in l.split(|c| *c == b' ') { if w.is_empty() { continue } if w[0] == b';' { break } assume(!w.contains(&b';')); if w.len() < 2 { continue } let k = match w[0] { b'X' => 0, b'Y' => 1, b'Z' => 2, _ => continue }; assume(c[k].is_none()); c[k] = Some(num(Some(&&w[1..]))?) } Some(c)
}
fn ref_gcode(t: &[u8]) -> (Vec<Point3D>, bool) {
    let (mut v, mut rel, mut p) = (vec![], false, [0.0; 3]);
    for l in lines(t) {
        let step = l.starts_with(b"G1 ") || l.starts_with(b"G2 ") || l.starts_with(b"G3 "); let set = l.starts_with(b"G92 ");
        if step || set { let c = match axes(&l[if step { 3 } else { 4 }..]) { Some(c) => c, None => return (v, false) }; for k in 0..3 { if let Some(x) = c[k] { if step && rel { p[k] += x } else { p[k] = x } } } if c.iter().any(|c| c.is_some()) { v.push(Point3D::new(p[0], p[1], p[2])) } }
        else if (l == b"G90") || l.starts_with(b"G90 ") { rel = false } else if (l == b"G91") || l.starts_with(b"G91 ") { rel = true }
    }
    (v, true)
}
fn gcode(t: &[u8]) { let mut v: Vec<Point3D> = vec![]; let r = load_gcode_points(t, &mut v); verdict(r.is_ok(), &v, ref_gcode(t)) }

// ---- faults -------------------------------------------------------------------------------------
/// a reader that hands out at most `per` bytes per call; at `at` it fails (`hard`), or is interrupted once
struct Faulty<'a> { t: &'a [u8], pos: usize, per: usize, at: usize, hard: bool, hit: &'a std::cell::Cell<bool> }
impl<'a> Faulty<'a> { fn cur(&self) -> std::io::Result<&'a [u8]> { if self.pos == self.at { if self.hard | !self.hit.get() { self.hit.set(true); return Err(if self.hard { std::io::ErrorKind::Other } else { std::io::ErrorKind::Interrupted }.into()) } } let mut e = self.t.len().min(self.pos + self.per); if self.pos < self.at { e = e.min(self.at) } Ok(&self.t[self.pos.min(e)..e]) } }
impl<'a> std::io::Read for Faulty<'a> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let c = self.cur()?; let n = c.len().min(b.len()); b[..n].copy_from_slice(&c[..n]); self.pos += n; Ok(n) } }
impl<'a> std::io::BufRead for Faulty<'a> { fn fill_buf(&mut self) -> std::io::Result<&[u8]> { self.cur() } fn consume(&mut self, n: usize) { self.pos += n } }
impl<'a> std::io::Seek for Faulty<'a> { fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { if let std::io::SeekFrom::Start(n) = p { self.pos = n as usize } Ok(self.pos as u64) } }
/// what was loaded, flat: points as three numbers, faces as three indices behind a NaN
#[derive(Default)]
struct Got { d: Vec<f64>, n: usize, ok: bool }
impl Got {
    fn p(&mut self, p: &Point3D) { self.n += 1; self.d.extend_from_slice(&[p.x, p.y, p.z]) }
    fn f(&mut self, f: [usize; 3]) { self.n += 1; self.d.extend_from_slice(&[f64::NAN, f[0] as f64, f[1] as f64, f[2] as f64]) }
    fn obs(&self) { obs(self.ok as u64); obs(self.n as u64); for x in &self.d { obs_f(*x) } }
    fn mesh(&mut self, m: &M3) { for i in 0..m.num_vertices() { self.p(&m.vertex(VId(i)).unwrap()) } for i in 0..m.num_faces() { self.f(face(m, i)) } }
}
/// all items up to the first error; nothing may follow it
fn drain<T, E, I: Iterator<Item = std::result::Result<T, E>>>(it: std::result::Result<I, E>, mut f: impl FnMut(T)) -> bool {
    let mut it = match it { Ok(it) => it, Err(_) => return false }; let ok = loop { match it.next() { Some(Ok(x)) => f(x), Some(Err(_)) => break false, None => break true } };
    for _ in 0..3 { check(it.next().is_none(), "an iterator yields nothing after its first error, nor after its end") } ok
}

fn load<R: std::io::BufRead + std::io::Seek>(k: usize, r: R) -> Got {
    let (mut g, mut v, mut m, mut n) = (Got::default(), Vec::<Point3D>::new(), M3::default(), Vec::<Point3D>::new()); let mut v2 = Vec::<Point2D>::new();
    g.ok = match k { 0 => load_xy(r, &mut v2).is_ok(), 1 => load_xyz(r, &mut v).is_ok(), 2 => load_pts(r, &mut v).is_ok(), 3 => load_ptx(r, &mut v).is_ok(), 4 => load_obj_mesh(r, &mut m).is_ok(), 5 => load_obj_points(r, &mut v).is_ok(), 6 => load_off_mesh(r, &mut m).is_ok(), 7 => load_off_points(r, &mut v).is_ok(), 8 => load_gcode_points(r, &mut v).is_ok(), 9 | 10 => load_stl_triplets(r, if k == 9 { StlFormat::Ascii } else { StlFormat::Binary }, &mut v, &mut n).is_ok(), 11 | 13 => load_ply_mesh(r, &mut m).is_ok(), 12 | 14 => load_ply_points(r, &mut v).is_ok(), 15 => load_las(r, &mut v).is_ok(), _ => load_psl(r, &mut v).is_ok() };
    for p in to3(v2).iter().chain(v.iter()) { g.p(p) } g.mesh(&m); g
}
fn iter<R: std::io::BufRead + std::io::Seek>(k: usize, r: R) -> Got {
    let mut g = Got::default(); let ok;
    { let g = &mut g; type P = Point3D;
    macro_rules! dr { ($i:expr) => { drain($i, |x| if let DataReserve::Data(p) = x { g.p(&p) }) } }
    ok = match k {
        0 => drain(Ok(XyIterator::<Point2D, R>::new(r)), |p| g.p(&P::new(p.x, p.y, 0.0))), 1 => drain(Ok(XyzIterator::<P, R>::new(r)), |p| g.p(&p)), 2 => dr!(Ok(PtsIterator::<P, R>::new(r))), 3 => dr!(Ok(PtxIterator::<P, R>::new(r))),
        4 => drain(Ok(ObjMeshIterator::<P, R>::new(r)), |x| match x { FaceData::Data(p) => g.p(&p), FaceData::Face(f) => g.f(f) }), 5 => drain(Ok(ObjPointsIterator::<P, R>::new(r)), |p| g.p(&p)),
        6 => drain(Ok(OffMeshIterator::<P, R>::new(r)), |x| match x { FaceDataReserve::Data(p) => g.p(&p), FaceDataReserve::Face(f) => g.f(f), _ => () }), 7 => dr!(Ok(OffPointsIterator::<P, R>::new(r))), 8 => drain(Ok(GcodeIterator::<P, R>::new(r)), |p| g.p(&p)),
        9 | 10 => drain(StlIterator::<P, R>::new(r, if k == 9 { StlFormat::Ascii } else { StlFormat::Binary }), |x| if let DataReserve::Data(f) = x { g.p(&f.a); g.p(&f.b); g.p(&f.c) }),
        11 | 13 => drain(PlyMeshIterator::<P, R>::new(r), |x| match x { FaceDataReserve::Data(p) => g.p(&p), FaceDataReserve::Face(f) => g.f(f), _ => () }), 12 | 14 => dr!(PlyPointsIterator::<P, R>::new(r)), 15 => dr!(LasIterator::<P, R>::new(r)), _ => drain(Ok(PslIterator::<P, R>::new(r)), |p| g.p(&p)),
    }; }
    g.ok = ok; g
}
const ID4: &str = "0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n";
/// a file of the format with a free digit or byte; `bad`: something is wrong in the middle
fn some_file(k: usize, bad: bool) -> Vec<u8> { file_of(k, bad as usize) }
/// mode 2: nothing is free
fn file_of(k: usize, mode: usize) -> Vec<u8> {
    let bad = mode == 1; let byte = || if mode == 2 { 65 } else { byte() }; let c = [b'$', b'?', b'4'][mode]; let f = |t: &str| tmpl(&t.bytes().map(|b| if b == b'%' { c } else { b }).collect::<Vec<u8>>());
    match k {
        0 => f("1 2\n%.5 4\n5 6\n"), 1 => f("1 2 3\n%.5 4 5\n5 6 7\n"), 2 => f("2\n1 2 3\n4 % 6\n1\n7 8 9\n"), 3 => { let mut t = f("1\n3\n"); t.extend_from_slice(ID4.as_bytes()); t.extend(f("1 2 3\n4 % 6\n7 8 9\n")); if mode == 2 { t.extend_from_slice(b"1\n1\n"); t.extend_from_slice(ID4.as_bytes()); t.extend_from_slice(b"1 0 0\n") } t }
        4 | 5 => f("v 1 2 3\nv 4 % 6\nv 7 8 9\nf 1 2 3\n"), 6 | 7 => f("OFF\n3 1 0\n1 2 3\n4 % 6\n7 8 9\n3 0 1 2\n"), 8 => f("G1 X1\nG1 Y%\nG1 Z3\n"), 9 => f("solid\nfacet normal 0 0 1\nouter loop\nvertex 1 % 3\nvertex 4 5 6\nvertex 7 8 9\nendloop\nendfacet\nendsolid\n"),
        10 => { let mut t = vec![32u8; 80]; t.extend_from_slice(&2u32.to_le_bytes()); let n = t.len(); t.resize(n + 100, 64); t[n + 13] = byte(); if bad { let n = t.len(); t.truncate(n - 30) } t }
        11 | 12 => f("ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 1\nproperty list uchar int vertex_indices\nend_header\n1 2 3\n4 % 6\n7 8 9\n3 0 1 2\n"),
        13 | 14 => { let mut t = f(if k == 13 { "ply\nformat binary_little_endian 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 2\nproperty list uchar int vertex_indices\nend_header\n" } else { "ply\nformat binary_big_endian 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 0\nproperty list uchar int vertex_indices\nend_header\n" }); for i in 0..36 { t.push(60 + i) } let n = t.len(); t[n - 5] = byte(); if k == 13 { for _ in 0..2 { t.push(if bad { byte() } else { 3 }); for x in [0i32, 1, 2].iter() { t.extend_from_slice(&x.to_le_bytes()) } } } else if bad { t.truncate(n - 9) } t }
        15 => { let l = las_std(); let mut r = [[1, 2, 3], [4, 5, 6]]; r[1][0] = byte() as i32; las_file(&l, &r, 0, if bad { 20 } else { 0 }) }
        _ => { let mut t = psl_file(&[&[2, 1]]); if bad { let n = t.len(); t.truncate(n - 70) } t }
    }
}
/// results are compared up to faces a mesh refuses
fn prefix(a: &Got, b: &Got) -> bool { (a.d.len() <= b.d.len()) && a.d.iter().zip(b.d.iter()).fold(true, |r, (x, y)| r & eqf(*x, *y)) }
fn same(a: &Got, b: &Got) -> bool { (a.ok == b.ok) & (a.d.len() == b.d.len()) && prefix(a, b) }
/// where a reader fails: anywhere from `from` on, or somewhere before
fn spot(from: usize, n: usize) -> usize { if from == 0 { return us(0, n + 1) } let e = pick(0, 4); if e == 0 { us(from, n + 1) } else { from * (e - 1) / 4 } }
fn h_fault_of(k: usize, bad: bool, from: usize) {
    let t = some_file(k, bad); let all = load(k, std::io::Cursor::new(&t[..])); all.obs(); let hit = std::cell::Cell::new(false); let per = [1, 7, 1 << 20][pick(0, 2)]; let hard = pick(0, 1) == 1;
    let at = spot(from, t.len()); let r = Faulty { t: &t, pos: 0, per, at, hard, hit: &hit }; let g = load(k, r); g.obs(); check(prefix(&g, &all), "a fault of the reader invents nothing");
    if hard & hit.get() { cover(1); check(!g.ok, "a reader that fails is reported, not taken for the end of the file") } else { cover(2); check(same(&g, &all), "how much a reader hands out at once, and whether it is interrupted, does not matter") }
}
fn h_iter_of(k: usize, from: usize) {
    let bad = pick(0, 1) == 1; let t = some_file(k, bad); let all = load(k, std::io::Cursor::new(&t[..])); let hit = std::cell::Cell::new(false); let at = if pick(0, 1) == 1 { spot(from, t.len()) } else { usize::MAX }; let g = iter(k, Faulty { t: &t, pos: 0, per: 1 << 20, at, hard: true, hit: &hit });
    all.obs(); g.obs(); if hit.get() { cover(3); check(!g.ok, "a reader that fails is reported by the iterator") } else { if g.ok { cover(1) } else { cover(2) } check(prefix(&all, &g), "an iterator yields what the load function loads"); check(!all.ok | g.ok & (g.d.len() == all.d.len()), "an iterator yields what the load function loads") }
}
/// any byte of a good file replaced by any other
fn h_hurt_of(k: usize) {
    let mut t = file_of(k, 2); let last = t.len() - 1;
    let at = match k { 10 => [0, 79, 80, 83, 84, 183][pick(0, 5)], 15 => [0, 3, 24, 25, 94, 95, 96, 99, 104, 105, 107, 131, 247, 254][pick(0, 13)], 16 => [0, 136, 139, 512, 515, 576, 579, last][pick(0, 7)], 3 => { let x = pick(0, last - 46); if x < 14 { x } else { x + 46 } } 12..=14 => pick(t.windows(12).position(|w| w == b"element face").unwrap(), last), _ => pick(0, last) }; t[at] = byte();
    let all = load(k, std::io::Cursor::new(&t[..])); let g = iter(k, std::io::Cursor::new(&t[..])); all.obs(); g.obs();
    if g.ok { cover(1) } else { cover(2) } check(prefix(&all, &g), "an iterator yields what the load function loads"); check(!all.ok | g.ok & (g.d.len() == all.d.len()), "an iterator yields what the load function loads")
}
/// any byte of the text replaced by any other (but the two that are white space in Latin-1 only)
fn hurt(ts: &[&[u8]]) -> Vec<u8> { let mut t = ts[pick(0, ts.len() - 1)].to_vec(); let at = pick(0, t.len() - 1); let b = byte(); assume((b != 0x85) & (b != 0xA0)); t[at] = b; t }
const OBJ: &[u8] = b"# c\nv 1 2 3\nvn 0 0 1\nv 4 -5 6.5\n\nv 7 8 9 1\nf 1/1/1 2//2 3/3\nf 3 2 1";
const OFF: &[u8] = b"OFF\n# c\n\n3 2 0\n1 2 3\n-4 5 6.5\n# c\n7 8 9\n3 0 1 2 255 0\n3 2 1 0";
/// a file of n vertices and faces, one digit or byte free, and what is in it
fn big(k: usize, n: usize) -> (Vec<u8>, Vec<f64>) {
    let j = [0, n / 2, n - 1][pick(0, 2)]; let d = b'0' + us(0, 9) as u8; let mut ps: Vec<[f64; 3]> = (0..n).map(|i| [i as f64, (i % 10) as f64, 5.0]).collect(); ps[j][2] = (d - b'0') as f64; let fs: Vec<[usize; 3]> = (0..n - 1).map(|i| [i + 1, i, (i + 7 + n / 2) % n]).collect();
    let mut t: Vec<u8> = vec![]; let ph = |f: &str, m: usize, l: usize| format!("ply\nformat {} 1.0\nelement vertex {}\nproperty float x\nproperty float y\nproperty double z\nelement face {}\nproperty list uchar int vertex_indices\nend_header\n", f, m, l).into_bytes();
    let text = |i: usize| { let mut l = format!("{} {} ", i, i % 10).into_bytes(); l.push(if i == j { d } else { b'5' }); l.push(b'\n'); l }; let mut want: Vec<f64> = vec![]; for p in &ps { want.extend_from_slice(&[p[0], p[1], if k == 0 { 0.0 } else { p[2] }]) }
    if [4, 6, 11, 13].contains(&k) { for f in &fs { want.extend_from_slice(&[f64::NAN, f[0] as f64, f[1] as f64, f[2] as f64]) } }
    match k {
        0 | 1 => for i in 0..n { t.extend(text(i)) }, 2 => { t.extend(format!("{}\n", n - 20).into_bytes()); for i in 0..n { if i == n - 20 { t.extend_from_slice(b"20\n") } t.extend(text(i)) } }
        3 => { t.extend(format!("1\n{}\n{}", n, ID4).into_bytes()); for i in 0..n { t.extend(text(i)) } } 4 | 5 => { for i in 0..n { t.extend_from_slice(b"v "); t.extend(text(i)) } for f in &fs { t.extend(format!("f {} {} {}\n", f[0] + 1, f[1] + 1, f[2] + 1).into_bytes()) } }
        6 | 7 => { t.extend(format!("OFF\n{} {} 0\n", n, n - 1).into_bytes()); for i in 0..n { t.extend(text(i)) } for f in &fs { t.extend(format!("3 {} {} {}\n", f[0], f[1], f[2]).into_bytes()) } }
        8 => for i in 0..n { t.extend(format!("G1 X{} Y{} Z", i, i % 10).into_bytes()); t.push(if i == j { d } else { b'5' }); t.push(b'\n') }, 9 => { t.extend_from_slice(b"solid\n"); for i in 0..n { if i % 3 == 0 { t.extend_from_slice(b"facet normal 0 0 1\nouter loop\n") } t.extend_from_slice(b"vertex "); t.extend(text(i)); if i % 3 == 2 { t.extend_from_slice(b"endloop\nendfacet\n") } } t.extend_from_slice(b"endsolid\n") }
        10 => { t = vec![32u8; 80]; t.extend_from_slice(&((n / 3) as u32).to_le_bytes()); for i in 0..n { if i % 3 == 0 { t.extend_from_slice(&[0; 12]) } for c in &ps[i] { t.extend_from_slice(&(*c as f32).to_le_bytes()) } if i % 3 == 2 { t.extend_from_slice(&[0; 2]) } } }
        11 | 12 => { t = ph("ascii", n, n - 1); for i in 0..n { t.extend(text(i)) } for f in &fs { t.extend(format!("3 {} {} {}\n", f[0], f[1], f[2]).into_bytes()) } }
        13 | 14 => { let le = k == 13; t = ph(if le { "binary_little_endian" } else { "binary_big_endian" }, n, n - 1); for p in &ps { for c in &p[..2] { let mut b = (*c as f32).to_le_bytes(); if !le { b.reverse() } t.extend_from_slice(&b) } let mut b = p[2].to_le_bytes(); if !le { b.reverse() } t.extend_from_slice(&b) } for f in &fs { t.push(3); for i in f { let mut b = (*i as i32).to_le_bytes(); if !le { b.reverse() } t.extend_from_slice(&b) } } }
        15 => { let l = Las { n: n as u64, ..las_std() }; let r: Vec<[i32; 3]> = (0..n).map(|i| [i as i32, (i % 10) as i32, if i == j { (d - b'0') as i32 } else { 5 }]).collect(); t = las_file(&l, &r, 0, 0); want.clear(); for p in &ps { for a in 0..3 { want.push(l.o[a] + p[a] * l.s[a]) } } }
        _ => { t = psl_file(&[&[1, (n - 30) as i32], &[29]]); let mut q = vec![]; let mut at = 512 + 64; for (a, m) in [1, n - 30, 29].iter().enumerate() { if a == 2 { at += 64 } at += 64; for _ in 0..*m { q.push(at); at += 12 } } for i in 0..n { for a in 0..3 { let b = (ps[i][a] as f32).to_le_bytes(); for x in 0..4 { t[q[i] + 4 * a + x] = b[x] } } } }
    }
    (t, want)
}
fn h_big_of(k: usize, n: usize) {
    let (t, want) = big(k, n); let all = load(k, std::io::Cursor::new(&t[..])); let g = iter(k, std::io::Cursor::new(&t[..])); obs(all.n as u64); check(all.ok & g.ok, "a well formed file is loaded"); check((all.d.len() == want.len()) & (g.d.len() == want.len()), "everything in the file is loaded");
    let mut e = true; for i in 0..want.len().min(all.d.len()).min(g.d.len()) { e &= eqf(all.d[i], want[i]) & eqf(g.d[i], want[i]) } check(e, "everything in the file is loaded as written"); cover(1)
}
// ---- line numbers -------------------------------------------------------------------------------
/// what an error says about its place: number and text of a line, or how many lines were read
#[derive(PartialEq)]
enum At { Line(usize, Vec<u8>), Index(usize), Nowhere }
fn at_of<E>(e: WithLineInfo<E>) -> At { match e { WithLineInfo::None(_) => At::Nowhere, WithLineInfo::Index(i, _) => At::Index(i), WithLineInfo::Line(i, t, _) => At::Line(i, t.into_bytes()) } }
fn end<T, E, I: Iterator<Item = std::result::Result<T, WithLineInfo<E>>>>(it: std::result::Result<I, WithLineInfo<E>>) -> Option<At> { match it { Err(e) => Some(at_of(e)), Ok(it) => { for x in it { if let Err(e) = x { return Some(at_of(e)) } } None } } }
fn place<R: std::io::BufRead>(k: usize, it: bool, r: R) -> Option<At> {
    type P = Point3D; let (mut v, mut m, mut n) = (Vec::<P>::new(), M3::default(), Vec::<P>::new()); let mut v2 = Vec::<Point2D>::new();
    if it { return match k { 0 => end(Ok(XyIterator::<Point2D, R>::new(r))), 1 => end(Ok(XyzIterator::<P, R>::new(r))), 2 => end(Ok(PtsIterator::<P, R>::new(r))), 3 => end(Ok(PtxIterator::<P, R>::new(r))), 4 => end(Ok(ObjMeshIterator::<P, R>::new(r))), 5 => end(Ok(ObjPointsIterator::<P, R>::new(r))), 6 => end(Ok(OffMeshIterator::<P, R>::new(r))), 7 => end(Ok(OffPointsIterator::<P, R>::new(r))), 8 => end(Ok(GcodeIterator::<P, R>::new(r))), 9 => end(StlIterator::<P, R>::new(r, StlFormat::Ascii)), 11 => end(PlyMeshIterator::<P, R>::new(r)), _ => end(PlyPointsIterator::<P, R>::new(r)) } }
    match k { 0 => load_xy(r, &mut v2).err().map(at_of), 1 => load_xyz(r, &mut v).err().map(at_of), 2 => load_pts(r, &mut v).err().map(at_of), 3 => load_ptx(r, &mut v).err().map(at_of), 4 => load_obj_mesh(r, &mut m).err().map(at_of), 5 => load_obj_points(r, &mut v).err().map(at_of), 6 => load_off_mesh(r, &mut m).err().map(at_of), 7 => load_off_points(r, &mut v).err().map(at_of), 8 => load_gcode_points(r, &mut v).err().map(at_of), 9 => load_stl_triplets(r, StlFormat::Ascii, &mut v, &mut n).err().map(at_of), 11 => load_ply_mesh(r, &mut m).err().map(at_of), _ => load_ply_points(r, &mut v).err().map(at_of) }
}
fn bare(mut l: &[u8]) -> &[u8] { while let [b' ' | b'\t', h @ ..] = l { l = h } strip(l) }
fn lossy(l: &[u8]) -> Vec<u8> { String::from_utf8_lossy(bare(l)).to_string().into_bytes() }
/// the first n lines
fn head(t: &[u8], n: usize) -> &[u8] { let mut k = 0; for (i, c) in t.iter().enumerate() { if k == n { return &t[..i] } if *c == b'\n' { k += 1 } } t }
fn h_line_of(k: usize) {
    let mut t = match k { 4 | 5 => OBJ.to_vec(), 6 | 7 => OFF.to_vec(), _ => file_of(k, 2) }; let at = if k == 12 { pick(t.windows(12).position(|w| w == b"element face").unwrap(), t.len() - 1) } else if k == 3 { let x = pick(0, t.len() - 47); if x < 14 { x } else { x + 46 } } else { pick(0, t.len() - 1) }; let b = byte(); assume((b != 0x85) & (b != 0xA0)); t[at] = b;
    let it = if k == 11 || k == 3 || k == 9 { at % 2 == 1 } else { pick(0, 1) == 1 }; let ls = lines(&t);
    match place(k, it, &t[..]) {
        None => cover(1),
        Some(At::Nowhere) => obs(1),
        Some(At::Line(i, l)) => {
            obs(i as u64); obs_bytes(&l); check((i > 0) & (i <= ls.len()), "an error names a line of the file"); if i == 0 || i > ls.len() { return }
            check(lossy(ls[i - 1]) == bare(&l), "the line an error quotes is the one with the number it names");
            check(match place(k, it, head(&t, i)) { Some(At::Line(j, _)) => j == i, _ => false }, "the first line that can not be understood is named");
            check(!matches!(place(k, it, head(&t, i - 1)), Some(At::Line(..))), "the first line that can not be understood is named"); cover(2)
        }
        Some(At::Index(i)) => { obs(i as u64); check(i <= ls.len(), "an error names how many lines were read"); check(match place(k, it, head(&t, i)) { Some(At::Index(j)) => j == i, _ => false }, "an error names how many lines were read") }
    }
}
/// a reader that fails
fn h_line_fault_of(k: usize) {
    let t = match k { 4 | 5 => OBJ.to_vec(), 6 | 7 => OFF.to_vec(), _ => file_of(k, 2) }; let at = pick(0, t.len()); let hit = std::cell::Cell::new(false);
    let p = place(k, pick(0, 1) == 1, Faulty { t: &t, pos: 0, per: [1, 7, 1 << 20][pick(0, 2)], at, hard: true, hit: &hit }); let n = t[..at].iter().filter(|c| **c == b'\n').count();
    match p { Some(At::Index(i)) => { check(i == n, "an error of the reader comes with the number of lines read"); cover(1) } Some(At::Line(..)) => check(false, "an error of the reader is not blamed on a line"), _ => () }
}

harnesses! {
    fn h_big0() { h_big_of(0, 300) }
    fn h_big1() { h_big_of(1, 300) }
    fn h_big2() { h_big_of(2, 300) }
    fn h_big3() { h_big_of(3, 300) }
    fn h_big4() { h_big_of(4, 300) }
    fn h_big5() { h_big_of(5, 300) }
    fn h_big6() { h_big_of(6, 300) }
    fn h_big7() { h_big_of(7, 300) }
    fn h_big8() { h_big_of(8, 300) }
    fn h_big9() { h_big_of(9, 300) }
    fn h_big10() { h_big_of(10, 300) }
    fn h_big11() { h_big_of(11, 300) }
    fn h_big12() { h_big_of(12, 300) }
    fn h_big13() { h_big_of(13, 300) }
    fn h_big14() { h_big_of(14, 300) }
    fn h_big15() { h_big_of(15, 300) }
    fn h_big16() { h_big_of(16, 300) }
    fn h_huge1() { h_big_of(1, 65600) }
    fn h_huge2() { h_big_of(2, 65600) }
    fn h_huge4() { h_big_of(4, 65600) }
    fn h_huge6() { h_big_of(6, 65600) }
    fn h_huge10() { h_big_of(10, 196611) }
    fn h_huge11() { h_big_of(11, 65600) }
    fn h_huge13() { h_big_of(13, 65600) }
    fn h_huge15() { h_big_of(15, 65600) }
    fn h_huge16() { h_big_of(16, 65600) }
    fn h_w_many() {
        // three hundred points or a mesh of as many vertices, one coordinate free
        let n = 300; let j = [0, n / 2, n - 1][pick(0, 2)]; let x = dy(-16, 16, -2); let mut v: Vec<Point3D> = (0..n).map(|i| Point3D::new(i as f64, 0.5 * (i % 10) as f64, 5.0 - (i * i % 17) as f64)).collect(); v[j].z = [x, 2.0][pick(0, 1)]; let mut t = vec![]; for i in 0..n - 1 { t.extend_from_slice(&[i + 1, i, (i + 7 + n / 2) % n]) }
        let a: M3 = mesh(&v, &t); let m = pick(0, 7); let mut s = Sink { to: vec![], per: 1 << 20, left: usize::MAX }; let pr = if m == 5 { Precision::P32 } else { Precision::P64 }; let v2: Vec<Point2D> = v.iter().map(|p| Point2D::new(p.x, p.z)).collect();
        let ok = match m { 0 => save_xyz(&mut s, &v, ";", "\n").is_ok(), 1 => save_xy(&mut s, &v2, " ", "\n").is_ok(), 2 => save_stl_ascii(&mut s, &a).is_ok(), 3 => save_ply_ascii(&mut s, &a).is_ok(), 4 => save_ply_ascii_colored(&mut s, &a, &colors(n)).is_ok(), 5 | 6 => save_ply_binary(&mut s, &a, &pr).is_ok(), _ => save_ply_binary_colored(&mut s, &a, &pr, &colors(n)).is_ok() }; check(ok, "saving to a working writer succeeds"); obs(s.to.len() as u64);
        match m { 0 => { let mut w: Vec<Point3D> = vec![]; check(load_xyz(&s.to[..], &mut w).is_ok() & (w.len() == n), "all points come back"); let mut e = true; for i in 0..n.min(w.len()) { e &= e3(&w[i], &v[i]) } check(e, "points come back unchanged"); cover(2) }
            1 => { let mut w: Vec<Point2D> = vec![]; check(load_xy(&s.to[..], &mut w).is_ok() & (w.len() == n), "all points come back"); let mut e = true; for i in 0..n.min(w.len()) { e &= eqf(w[i].x, v2[i].x) & eqf(w[i].y, v2[i].y) } check(e, "points come back unchanged"); cover(2) }
            2 => { let (mut w, mut q) = (Vec::<Point3D>::new(), Vec::<Point3D>::new()); check(load_stl_triplets(std::io::Cursor::new(&s.to[..]), StlFormat::Ascii, &mut w, &mut q).is_ok() & (w.len() == t.len()), "all faces come back"); let mut e = true; for i in 0..t.len().min(w.len()) { e &= e3(&w[i], &v[t[i]]) } check(e, "faces come back unchanged"); cover(2) }
            _ => { let mut b = M3::default(); check(load_ply_mesh(&s.to[..], &mut b).is_ok(), "a saved file can be loaded"); same_mesh(&a, &b, |x| x) } }
    }
    fn h_line0() { h_line_of(0) }
    fn h_lf0() { h_line_fault_of(0) }
    fn h_line1() { h_line_of(1) }
    fn h_lf1() { h_line_fault_of(1) }
    fn h_line2() { h_line_of(2) }
    fn h_lf2() { h_line_fault_of(2) }
    fn h_line3() { h_line_of(3) }
    fn h_lf3() { h_line_fault_of(3) }
    fn h_line4() { h_line_of(4) }
    fn h_lf4() { h_line_fault_of(4) }
    fn h_line5() { h_line_of(5) }
    fn h_lf5() { h_line_fault_of(5) }
    fn h_line6() { h_line_of(6) }
    fn h_lf6() { h_line_fault_of(6) }
    fn h_line7() { h_line_of(7) }
    fn h_lf7() { h_line_fault_of(7) }
    fn h_line8() { h_line_of(8) }
    fn h_lf8() { h_line_fault_of(8) }
    fn h_line9() { h_line_of(9) }
    fn h_lf9() { h_line_fault_of(9) }
    fn h_line11() { h_line_of(11) }
    fn h_line12() { h_line_of(12) }
    fn h_show_line() {
        // errors print their place
        let n = us(0, 30); let e = match pick(0, 2) { 0 => WithLineInfo::None(7u8), 1 => WithLineInfo::Index(n, 7u8), _ => WithLineInfo::Line(n, "some text".to_string(), 7u8) }; let s = e.to_string(); obs_bytes(s.as_bytes());
        let words: Vec<&str> = s.split(|c: char| !c.is_ascii_digit()).filter(|w| !w.is_empty()).collect(); let num = |w: &str| w.parse::<usize>().ok();
        match e { WithLineInfo::None(_) => check(words == ["7"], "an error prints itself"), WithLineInfo::Index(..) => check((words.len() == 2) && (num(words[0]) == Some(n)) & (words[1] == "7"), "an error prints its line number"), WithLineInfo::Line(..) => check((words.len() == 2) && (num(words[0]) == Some(n)) & (words[1] == "7") & s.contains("some text"), "an error prints its line number and the line") } cover(1)
    }
    fn h_xy_hurt() { xy(&hurt(&[b"1 2\n-3.5 4e1 7\n5 6\r\n7 8", b"1;2\n;;3;4\n5;6;7\n"])) }
    fn h_xyz_hurt() { xyz_(&hurt(&[b"1 2 3\n-3.5 4e1 7 9\n5 6 7\r\n7 8 9", b"1,2,3\n,,3,4,5\n5,6,7,8\n"])) }
    fn h_pts_hurt() { pts(&hurt(&[b"2\n1 2 3 9\n\n-4.5 5 6\n\n1 1\n7 8 9\n0\n"])) }
    fn h_ptx_hurt() { ptx(&hurt(&[b"1\n2\n0 0 0\n1\n\n\n1 0 0 0\n0 1 0 0\n0 0 2 0\n0 0 7 1\n1 2 3 0.5\n4 -5 6\n1\n1\n\n\n\n\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n1 2 3"])) }
    fn h_obj_hurt() { obj(&hurt(&[OBJ])) }
    fn h_obj_hurt_p() { obj_p(&hurt(&[OBJ])) }
    fn h_off_hurt() { off(&hurt(&[OFF])) }
    fn h_off_hurt_p() { off_p(&hurt(&[OFF])) }
    fn h_gcode_hurt() { gcode(&hurt(&[b"G1 X1 Y-2.5 Z3\nG91\nG2 X1 F9\nG90\nG92 X5 Z1\nG3 Z4 ; c\nM1\nG0 Y2"])) }
    fn h_xy1() { xy(&any_of(&[b"1 2\n3?4", b"1?2\n3 4", b"-1.$e$ $.5\r\n$$ 7\n"])) }
    fn h_xy2() { xy(&any_of(&[b"1@2\n3@4", b"1;2;5\n;3;;4?", b"@@1 2 3\n4 5"])) }
    fn h_xy_any() { xy(&tmpl(b"???")) }
    fn h_xyz1() { xyz_(&any_of(&[b"1 2 3\n4?5 6", b"-1.$e$ $.5 2\r\n$$ 7 1\n", b"1,2,5,4\n3,,4,?"])) }
    fn h_xyz2() { xyz_(&any_of(&[b"1@2@3\n4@5 6", b"@1 2 3\n4 5 @6", b"1 2 3\n@4 5 6"])) }
    fn h_pts1() { pts(&any_of(&[b"2\n1 2 3\n4?5 6", b"$\n1 2 3\n4 5 6\n0\n1\n7 8 9"])) }
    fn h_pts2() { pts(&any_of(&[b"?\n1 2 3\n4 5 6", b"1 5\n$ $.5 -$ 7\n\n@1\n9 8 7@"])) }
    fn h_pts3() { pts(&any_of(&[b"2@\n@1 2 3\n3 4 5", b"18446744073709551615\n1 2 ?", b"1844674407370955161$\n1 2 3"])) }
    fn h_pts4() { pts(&any_of(&[b"??1 2 3"])) }
    fn h_ptx() { ptx(&any_of(&[b"1\n2\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n$ 2 3 0.5\n4 $ 6 0.5", b"$\n1\n\n\n\n\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n1 2 3\n4 5 6\n", b"1\n?\n\n\n\n\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n1 2 3\n4 5 6", b"1\n1\n\n\n\n\n0 $ 0 0\n-1 0 0 0\n0 0 2 0\n$ 4 -3 1\n1 $ 3", b"1\n1\n\n\n\n\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 $ 1\n1 2 3\n1\n1@\n\n\n\n\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 7 1\n1 2 3", b"4294967296\n429496729$\n\n\n\n\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n1 2 3"])) }
    fn h_ptx_any() { ptx(&any_of(&[b"1\n1\n\n\n\n\n1 0?0 0\n0 1 0 0\n0 0 1 0\n0 0 0?1\n1 2?3", b"?", b"1?1\n0", b"??\n0\n\n\n\n\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1"])) }
    fn h_obj1() { obj(&any_of(&[b"v 1 2 3\nv 4 5 6\nv 7 8 9\nf $ $ $\nf 1/$ 3//$ 2", b"#\nv 1 2 3 0.5\nvn 0 0 1\nv -$.$ $e$ 6\r\nv 7 8 9\ng x\nf 3 2 1", b"v 1 2 3\nv 4 5 6\nf 1 2 3\nv 7 8 9", b"v 1 2 3\nv 4 5 6\nv 7 8 9\nf 1 ? 3", b"v 1 2 3\nv 4 5 6\nv 7 8 9\nf 1/4/5 2? ?/1"])) }
    fn h_obj2() { obj(&any_of(&[b"v 1 2 3@\nv 4@5 6\nv 7 8 9\nf 1@2 3", b"v 1 2 3\nv 4 5 6\nv 7 8 9\nf 1 2 3\n@ 7 8 9\nf@4 3 2", b"v 1 2 3\nv 4 5 6\nv 7 8 9\nf @1 2@ 3"])) }
    fn h_obj3() { let k = pick(0, 2); let t: [&[u8]; 3] = [b"v 1 2 3\nv 4 5 6\nv 7 8 9\nf 1/1/1 2/2/2 ?/$/3", b"v 1 2 3\nv 4 5 6\nv 7 8 9\nf 1/1/1 ?/$/2 3/1/1", b"v 1 2 3\nv 4 5 6\nv 7 8 9\nf ?/$/1 2//3 3/1"]; obj(&any_of(&[t[k], b"v 1 2 3\nv 4 5 6\nv 7 8 9\nf 1/$?$/1 2/$/$ 3/$"])) }
    fn h_obj_points() { obj_p(&any_of(&[b"v 1 2 3\nv 4?5 6\nf 1 2 9", b"?? $ 3 4\nv 3 $.$ 5", b"@ 1 2 3\nv 4@5 6"])) }
    fn h_off1() { off(&any_of(&[b"OFF\n3 2 0\n1 2 3\n4 5 6\n7 8 9\n3 $ $ $\n3 1 2 0", b"OFF\n# c\n\n3 1 0\n1 $ 3 255 0 0\n-$.$ 5 6\r\n# c\n7 8 9\n\n3 0 1 2 255\n", b"$ 1\n1 2 3\n4 5 6\n7 8 9\n3 0 2 1", b"OFF\n3 1 0\n1 2 3\n4 5 6\n7 8 9\n$ 0 2 1"])) }
    fn h_off2() { off(&any_of(&[b"OFF\n3 1 0\n1 2 3\n4@5 6\n7 8 9\n3 0@1 2", b"@\nOFF\n3@1\n1 2 3\n4 5 6\n7 8 9\n3 0 1 2@", b"OFF\n3 1 0\n1 2 3\n4 5 6\n7 8 9\n3 0 1 ?\n3?2 1 0"])) }
    fn h_off_points() { off_p(&any_of(&[b"OFF\n2 9 0\n1 2 3\n4?5 6\n7 8", b"OFF\n$ 0 0\n1 2 3\n$.$ 5 6\n\n#\n7 8 9\n3 0 1 2", b"@2\n1 2 3\n4@5 6"])) }
    fn h_stl_ascii1() { stl(&any_of(&[b"solid x\n  facet normal $ 0 -1e$\n outer loop\n  vertex $ 2 3\n vertex 4 $.5 6\n\tvertex 7 8 $\n endloop\nendfacet\nfacet normal 1 0 0\nouter loop\nvertex 1 2 3\nvertex 3 3 3\nvertex 7 8 9\nendloop\nendfacet\nendsolid x\n", b"solid\nfacet\nouter loop\nvertex 1 2 $\r\nvertex 1 $ 3\nvertex $ 2 3\nendloop\nendfacet\nendsolid"]), pick(0, 2)) }
    fn h_stl_ascii2() { let mut t = FACET.to_vec(); t.extend_from_slice(&FACET[6..]); t.extend_from_slice(b"endsolid\n"); let i = pick(70, t.len() - 1); if pick(0, 1) == 0 { t[i] = asc() } else { t.truncate(i) } verdict_stl(&t, StlFormat::Ascii, ref_stl(&t), 4096, 0) }
    fn h_stl_auto() { let f = [[0.0, 0.0, 1.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0]]; let (c, k) = (asc(), pick(0, 1)); assume((k == 0) | (c != b'd')); stl_bin(1, &f, c, 0, pick(0, 2), [StlFormat::Binary, StlFormat::Auto][k], 1) }
    fn h_stl_bin() { let k = pick(0, 3); let mut f = [[0.0, 0.0, 1.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0], [0.0, 1.0, 0.0, 4.0, 5.0, 6.0, 1.0, 2.0, 3.0, 9.0, 9.0, 9.0]]; for j in 0..3 { f[k & 1][(k >> 1) * 6 + j] = any_f32() } stl_bin(2, &f, b' ', 0, pick(0, 1), StlFormat::Auto, [1, 7, 4096][pick(0, 2)]) }
    fn h_stl_bin_unique() { let mut f = [[0.0, 0.0, 1.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0], [0.0, 1.0, 0.0, 4.0, 5.0, 6.0, 1.0, 2.0, 3.0, 9.0, 9.0, 9.0]]; for j in 0..3 { f[1][9 + j] = pick(1, 7) as f32 } stl_bin(2, &f, b' ', 0, 2, StlFormat::Auto, 64) }
    fn h_stl_bin_cut() { let f = [[0.0, 0.0, 1.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0], [0.0, 1.0, 0.0, 4.0, 5.0, 6.0, 1.0, 2.0, 3.0, 9.0, 9.0, 9.0]]; stl_bin({ let c = sym(32) as u32; assume((c < 5) | (c > 1000000)); c }, &f, b' ', [0, 1, 2, 3, 48, 49, 50, 51, 53, 100, 101, 102, 103, 104, 105, 110, 150, 184][pick(0, 17)], pick(0, 2), StlFormat::Binary, [1, 64][pick(0, 1)]) }
    fn h_ply_coords() {
        let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][pick(0, 5)]; let mut p = ply_std(pick(0, 2)); let k = pick(0, 7);
        for i in 0..3 { p.v[i] = (if k >> i & 1 == 1 { "double" } else { "float" }, ["x", "y", "z"][o[i]]) }
        let mut vs = ply_verts(&p); let c = o[pick(0, 2)]; vs[1][c] = any_bits(p.fmt, p.v.iter().find(|x| x.1 == ["x", "y", "z"][c]).unwrap().0); let fs = ply_faces(&p); let (t, pts, _) = ply_file(&p, &vs, &fs);
        ply_load(&t, 0, 3, true, ply_want(&pts, &fs, if p.fmt == 0 { 48 } else { 0 }))
    }
    fn h_ply_extra() {
        let mut p = ply_std(pick(0, 2)); let (ty, at) = (TYPES[pick(0, 15)], pick(0, 5)); p.v = vec![("float", "x"), ("double", "y"), ("float32", "z")];
        if at < 4 { p.v.insert(at, (ty, "q")); p.v.insert(at, ("uchar", "r")) } else { p.f.insert(at - 4, (ty, "q")) }
        let mut vs = ply_verts(&p); vs[2][1] = any_bits(p.fmt, "double"); let fs = ply_faces(&p); let (t, pts, _) = ply_file(&p, &vs, &fs);
        ply_load(&t, pick(0, 2), 64, true, ply_want(&pts, &fs, if p.fmt == 0 { 48 } else { 0 }))
    }
    fn h_ply_faces() {
        let mut p = ply_std(pick(1, 2)); p.count = TYPES[pick(0, 11)]; p.index = if pick(0, 1) == 0 { p.count } else { "ushort" }; p.f[0].1 = ["vertex_indices", "vertex_index"][pick(0, 1)];
        let vs = ply_verts(&p); let mut fs = ply_faces(&p); let i = pick(0, 1); fs[i].1[pick(0, 2)] = sym(8 * size(p.index) as u32); if i == 1 { fs[0].0 = sym(8 * size(p.count) as u32) } let (t, pts, _) = ply_file(&p, &vs, &fs);
        ply_load(&t, 0, 64, true, ply_want(&pts, &fs, 0))
    }
    fn h_ply_faces_ascii() { let mut p = ply_std(0); if pick(0, 1) == 1 { p.f.insert(0, ("float", "q")) } let vs = ply_verts(&p); let mut fs = ply_faces(&p); let i = pick(0, 1); fs[i].1[pick(0, 2)] = dig() as u64; if i == 1 { fs[0].0 = dig() as u64 } let (t, pts, _) = ply_file(&p, &vs, &fs); ply_load(&t, pick(0, 2), 64, true, ply_want(&pts, &fs, 48)) }
    fn h_ply_points() { let mut p = ply_std(pick(0, 2)); p.has_faces = false; let mut vs = ply_verts(&p); vs[pick(0, 2)][pick(0, 2)] = any_bits(p.fmt, "float"); let (t, pts, _) = ply_file(&p, &vs, &[]); ply_load(&t, pick(0, 2), [1, 5, 64][pick(0, 2)], false, (pts, vec![], true)) }
    fn h_ply_cut() {
        let p = ply_std(pick(0, 2)); let how = pick(0, 2); let (vs, fs) = (ply_verts(&p), ply_faces(&p)); let (mut t, pts, start) = ply_file(&p, &vs, &fs);
        let (lv, lf) = if p.fmt == 0 { (16, 9) } else { (12, 13) }; let cut = pick(0, if p.fmt == 0 { 5 } else { 3 * lv + 2 * lf }); let n = if p.fmt == 0 { if cut <= 3 { cut * lv } else { 3 * lv + (cut - 3) * lf } } else { cut }; t.truncate(start + n);
        let (a, b) = ((n / lv).min(3), n.saturating_sub(3 * lv) / lf); let w = ply_want(&pts[..a], &fs[..b], if p.fmt == 0 { 48 } else { 0 });
        if how == 2 { let mut v: Vec<Point3D> = vec![]; let r = load_ply_points(&t[..], &mut v); verdict(r.is_ok(), &v, (w.0, a == 3)) } else { ply_load(&t, how, 64, true, (w.0, w.1, (a == 3) & (b == 2))) }
    }
    fn h_ply_order() { let bad = ["element vertex 1\nproperty float x\nproperty float y\nproperty float x\nend_header\n1 2 3", "element vertex 1\nproperty float x\nproperty float y\nproperty float z\nproperty float z\nend_header\n1 2 3 4", "element vertex 1\nproperty float x\nproperty float y\nend_header\n1 2", "element vertex 1\nproperty int x\nproperty float y\nproperty float z\nend_header\n1 2 3", "element vertex 1\nproperty word x\nproperty float y\nproperty float z\nend_header\n1 2 3", "property float x\nelement vertex 1\nproperty float y\nproperty float z\nend_header\n1 2 3", "element face 0\nproperty list uchar int vertex_indices\nelement vertex 1\nproperty float x\nproperty float y\nproperty float z\nend_header\n1 2 3", "element vertex 1\nproperty float x\nproperty float y\nproperty float z\nelement face 0\nproperty list float int vertex_indices\nend_header\n1 2 3", "element vertex x\nproperty float x\nproperty float y\nproperty float z\nend_header\n1 2 3"]; let f = pick(0, 4); let b = pick(0, 8); assume((f < 1) | (b == 0)); let mut t = ["ply\nformat ascii 1.0\n", "format ascii 1.0\n", "plx\nformat ascii 1.0\n", "ply\nformat ascii 2.0\n", "ply\n"][f].to_string(); t += if f == 0 { bad[b] } else { "element vertex 1\nproperty float x\nproperty float y\nproperty float z\nelement face 0\nproperty list uchar int vertex_indices\nend_header\n1 2 3" }; ply_refused(t.as_bytes()) }
    fn h_ply_byte() {
        let p = ply_std(0); let (vs, fs) = (ply_verts(&p), ply_faces(&p)); let (mut t, _, start) = ply_file(&p, &vs, &fs); let i = pick(4, start - 1); t[i] = asc(); let mut m = M3::default(); let ok = load_ply_mesh(&t[..], &mut m).is_ok(); obs(ok as u64); obs(m.num_faces() as u64);
        if ok { cover(1); let n = lines(&t).into_iter().find(|l| l.starts_with(b"element vertex")).and_then(|l| int(words(l).get(2))); check(n == Some(m.num_vertices()), "an accepted file has as many vertices as its header says"); let n = lines(&t).into_iter().find(|l| l.starts_with(b"element face")).and_then(|l| int(words(l).get(2))); check(n == Some(m.num_faces()), "an accepted mesh file has as many faces as its header says") } else { cover(2) }
    }
    fn h_w_xyz() { let d = [" ", ";", ",", "\t"][pick(0, 3)]; let mut v = vec![Point3D::new(1.0, 2.0, 3.0), Point3D::new(4.0, 5.0, 6.0)]; let (k, c) = (pick(0, 5), coord()); match k % 3 { 0 => v[k / 3].x = c, 1 => v[k / 3].y = c, _ => v[k / 3].z = c } let mut s = sink(); check(save_xyz(&mut s, &v, d, "\n").is_ok(), "saving to a working writer succeeds"); let mut w: Vec<Point3D> = vec![]; check(load_xyz(&s.to[..], &mut w).is_ok() & (w.len() == 2), "all points come back"); for i in 0..2 { obs3(&w[i]); check(e3(&v[i], &w[i]), "points come back unchanged") } cover(1) }
    fn h_w_xyz_dy() { let v = vec![Point3D::new(1.0, dy(-64, 64, -4), 3.0)]; let mut s = sink(); check(save_xyz(&mut s, &v, " ", "\n").is_ok(), "saving to a working writer succeeds"); let mut w: Vec<Point3D> = vec![]; check(load_xyz(&s.to[..], &mut w).is_ok() & (w.len() == 1), "all points come back"); obs3(&w[0]); check(e3(&v[0], &w[0]), "points come back unchanged"); cover(1) }
    fn h_w_xy() { let d = [" ", ";", ",", "\t"][pick(0, 3)]; let mut v = vec![Point2D::new(1.0, 2.0), Point2D::new(4.0, 5.0)]; let (k, c) = (pick(0, 3), coord()); if k & 1 == 0 { v[k / 2].x = c } else { v[k / 2].y = c } let mut s = sink(); check(save_xy(&mut s, &v, d, "\n").is_ok(), "saving to a working writer succeeds"); let mut w: Vec<Point2D> = vec![]; check(load_xy(&s.to[..], &mut w).is_ok() & (w.len() == 2), "all points come back"); for i in 0..2 { obs2(&w[i]); check(eqf(v[i].x, w[i].x) & eqf(v[i].y, w[i].y), "points come back unchanged") } cover(1) }
    fn h_w_str() { let mut c = [1.0, 2.0, 3.0]; c[pick(0, 2)] = coord(); let p = Point3D::new(c[0], c[1], c[2]); let q = Point2D::new(c[0], c[1]); match Point3D::parse(&p.to_str()) { Ok(r) => { obs3(&r); check(e3(&p, &r), "points come back unchanged") } _ => check(false, "the text of a point can be parsed") } match Point2D::parse(&q.to_str()) { Ok(r) => { obs2(&r); check(eqf(q.x, r.x) & eqf(q.y, r.y), "points come back unchanged") } _ => check(false, "the text of a point can be parsed") }
        let mut pc = PointCloud3D::new(); pc.push(Point3D::new(5.0, 6.0, 7.0)); pc.push(p.clone()); match PointCloud3D::<Point3D>::parse(&pc.to_str()) { Ok(r) => check((r.len() == 2) && (e3(&r[0], &pc[0]) & e3(&r[1], &p)), "clouds come back unchanged"), _ => check(false, "the text of a cloud can be parsed") } let mut pc = PointCloud2D::new(); pc.push(Point2D::new(5.0, 6.0)); pc.push(q.clone()); match PointCloud2D::<Point2D>::parse(&pc.to_str()) { Ok(r) => check((r.len() == 2) && (eqf(r[0].x, 5.0) & eqf(r[0].y, 6.0) & eqf(r[1].x, q.x) & eqf(r[1].y, q.y)), "clouds come back unchanged"), _ => check(false, "the text of a cloud can be parsed") } cover(1) }
    fn h_parse() { let t = any_of(&[b"1 2 3", b"$?$ 3", b"$ $@$", b"?1 2 3", b"1 2 3 $", b"1 2", b"- 1 2", b"1 ??? 3", b"1 2?3"]); let s = std::str::from_utf8(&t).unwrap(); let w: Vec<&str> = s.split(' ').filter(|w| !w.is_empty()).collect(); let n: Vec<Option<f64>> = w.iter().map(|w| w.parse().ok()).collect();
        let ok = |k: usize| (n.len() == k) && n.iter().all(|x| x.is_some()); let (a, b) = (Point3D::parse(s), Point2D::parse(s)); obs(a.is_ok() as u64); obs(b.is_ok() as u64); check(a.is_ok() == ok(3), "exactly three numbers are a 3d point"); check(b.is_ok() == ok(2), "exactly two numbers are a 2d point");
        if let Ok(p) = a { obs3(&p); cover(1); check(eqf(p.x, n[0].unwrap()) & eqf(p.y, n[1].unwrap()) & eqf(p.z, n[2].unwrap()), "the numbers are the coordinates, in order") } else { cover(2) } if let Ok(p) = b { obs2(&p); check(eqf(p.x, n[0].unwrap()) & eqf(p.y, n[1].unwrap()), "the numbers are the coordinates, in order"); cover(3) } }
    fn h_w_stl() { let a: M3 = mesh(&[Point3D::new(mid(), 2.0, 3.0), Point3D::new(4.0, 0.0, 6.0), Point3D::new(-7.0, mid(), 9.5), Point3D::new(4.0, 0.0, 6.0)], [&[0, 1, 2, 2, 1, 3], &[2, 0, 1, 3, 0, 2]][pick(0, 1)]); let mut s = sink(); check(save_stl_ascii(&mut s, &a).is_ok(), "saving to a working writer succeeds"); let mut b = M3::default(); let mut n: Vec<Point3D> = vec![]; check(load_stl_mesh_duped(&s.to[..], StlFormat::Auto, &mut b, &mut n).is_ok() & (b.num_faces() == a.num_faces()) & (n.len() == a.num_faces()), "all faces come back");
        for i in 0..a.num_faces() { let (x, y) = (a.face_vertices(FId(i)).unwrap(), b.face_vertices(FId(i)).unwrap()); for k in 0..3 { obs3(&y[k]); check(e3(&x[k], &y[k]), "the corners of faces come back unchanged") } if let Ok(m) = a.face_normal(FId(i)) { check(e3(&n[i], &Point3D::new(m.x(), m.y(), m.z())), "the normal written is the one of the face") } } cover(1) }
    fn h_w_ply_ascii() { let c = pick(0, 1) == 1; let k = pick(0, 3); let mut v = vec![Point3D::new(1.0, 2.0, 3.0), Point3D::new(4.0, 0.0, 6.0), Point3D::new(-7.0, 8.0, 9.5), Point3D::new(0.0, 1.5, 2.0)]; let x = coord(); match k { 0 => v[k].x = x, 1 => v[k].y = x, 2 => v[k].z = x, _ => v[k].x = x } let a: M3 = mesh(&v, &[3, 1, 0, 2, 1, 3]); let mut s = sink(); check(if c { save_ply_ascii_colored(&mut s, &a, &colors(4)) } else { save_ply_ascii(&mut s, &a) }.is_ok(), "saving to a working writer succeeds"); let mut b = M3::default(); check(load_ply_mesh(&s.to[..], &mut b).is_ok(), "a saved file can be loaded"); same_mesh(&a, &b, |x| x) }
    fn h_w_ply_topo() { let m = pick(0, 3); let a = w_mesh(Point3D::new(0.5, 2.0, 3.0), 0); let mut s = Sink { to: vec![], per: 1 << 20, left: usize::MAX }; let pr = Precision::P64; check(match m { 0 => save_ply_ascii(&mut s, &a), 1 => save_ply_ascii_colored(&mut s, &a, &colors(4)), 2 => save_ply_binary(&mut s, &a, &pr), _ => save_ply_binary_colored(&mut s, &a, &pr, &colors(4)) }.is_ok(), "saving to a working writer succeeds"); let mut b = M3::default(); check(load_ply_mesh(&s.to[..], &mut b).is_ok(), "a saved file can be loaded"); same_mesh(&a, &b, |x| x) }
    fn h_w_ply_binary() { let (m, k) = (pick(0, 3), pick(0, 11)); let mut v = vec![Point3D::new(1.0, 2.0, 3.0), Point3D::new(4.0, 0.0, 6.0), Point3D::new(-7.0, 8.0, 9.5), Point3D::new(0.0, 1.5, 2.0)]; let x = any_f64(); match k % 3 { 0 => v[k / 3].x = x, 1 => v[k / 3].y = x, _ => v[k / 3].z = x } let a: M3 = mesh(&v, &[3, 1, 0, 2, 1, 3]); let mut s = sink(); let pr = if m & 1 == 0 { Precision::P64 } else { Precision::P32 };
        check(if m < 2 { save_ply_binary(&mut s, &a, &pr) } else { save_ply_binary_colored(&mut s, &a, &pr, &colors(4)) }.is_ok(), "saving to a working writer succeeds"); let mut b = M3::default(); check(load_ply_mesh(&s.to[..], &mut b).is_ok(), "a saved file can be loaded"); same_mesh(&a, &b, if m & 1 == 0 { |x| x } else { |x| x as f32 as f64 }) }
    fn h_w_colors() { let (n, m) = (pick(0, 6), pick(0, 1)); let a: M3 = mesh(&[Point3D::new(1.0, 2.0, 3.0), Point3D::new(4.0, 0.0, 6.0), Point3D::new(-7.0, 8.0, 9.5)], &[0, 1, 2]); let mut s = sink(); let ok = if m == 0 { save_ply_ascii_colored(&mut s, &a, &colors(n)) } else { save_ply_binary_colored(&mut s, &a, &Precision::P32, &colors(n)) }.is_ok(); obs(ok as u64); check(ok == (n == 3), "exactly one color per vertex is needed"); if !ok { cover(2); check(s.to.is_empty(), "nothing is written when the colors do not fit") } else { cover(1) } }
    fn h_w_fail() { let a: M3 = mesh(&[Point3D::new(1.0, 2.0, 3.0), Point3D::new(4.0, 0.0, 6.0), Point3D::new(-7.0, 8.0, 9.5)], &[0, 1, 2]); let m = pick(0, 6); let (m, per) = (m, [5, 1 << 20][m & 1]); let v = vec![Point3D::new(1.0, 2.0, 3.0)]; let v2 = vec![Point2D::new(1.0, 2.0)]; let pr = Precision::P64;
        let save = |s: &mut Sink| match m { 0 => save_xyz(s, &v, " ", "\n").is_ok(), 1 => save_xy(s, &v2, " ", "\n").is_ok(), 2 => save_stl_ascii(s, &a).is_ok(), 3 => save_ply_ascii(s, &a).is_ok(), 4 => save_ply_ascii_colored(s, &a, &colors(3)).is_ok(), 5 => save_ply_binary(s, &a, &pr).is_ok(), _ => save_ply_binary_colored(s, &a, &pr, &colors(3)).is_ok() };
        let mut all = Sink { to: vec![], per: 1 << 20, left: usize::MAX }; check(save(&mut all), "saving to a working writer succeeds"); let n = all.to.len(); let k = us(0, n); let k = if k < n { conc(k as u64) as usize } else { n }; let mut s = Sink { to: vec![], per, left: if k == n { usize::MAX } else { k } }; let ok = save(&mut s); obs(ok as u64); check(ok == (k == n), "saving succeeds exactly if everything was written"); check((s.to.len() == k) && (0..k).all(|i| s.to[i] == all.to[i]), "what is written does not depend on how much the writer takes at once"); if ok { cover(1) } else { cover(2) } }
    fn h_las_points() { let mut l = las_std(); let k = pick(0, 2); let m = pick(0, 2); let mut r = [[1, 2, 3], [-4, 5, 6]]; match m { 0 => r[1][k] = sym(32) as u32 as i32, 1 => { r[0][k] = sym(32) as u32 as i32; l.o[k] = any_f64() } _ => { r[1][k] = [7, -1, i32::MIN][pick(0, 2)]; l.s[k] = any_f64() } } las(&l, &r, 0, 0) }
    fn h_las_layout() { let mut l = las_std(); l.len = [12, 13, 34][pick(0, 2)]; let g = pick(0, 1) * 3; l.off += g as u32; if pick(0, 1) == 1 { l.legacy = sym(32) as u32; l.n = 0; assume((l.legacy < 6) | (l.legacy > 1000000)) } else { l.n = sym(64); assume((l.n < 6) | (l.n > 1000000)) } las(&l, &[[1, 2, 3], [4, 5, 6], [-7, 8, 9]], g, [0, 1, 20][pick(0, 2)]) }
    fn h_las_header() { let mut l = las_std(); match pick(0, 4) { 0 => l.major = byte(), 1 => l.minor = byte(), 2 => l.format = byte(), 3 => l.len = us(0, 31) as u16, _ => () } las(&l, &[[1, 2, 3], [4, 5, 6]], 0, 0) }
    fn h_las_old() { let mut l = las_std(); l.minor = pick(0, 3) as u8; let g = pick(0, 2); l.off = if l.minor < 3 { 227 } else { 235 } + g as u32; l.legacy = sym(32) as u32; assume((l.legacy < 6) | (l.legacy > 1000000)); l.n = sym(64); l.len = [12, 34][pick(0, 1)]; let mut r = [[1, 2, 3], [-4, 5, 6]]; r[1][0] = sym(32) as u32 as i32; las(&l, &r, g, [0, 1][pick(0, 1)]) }
    fn h_las_cut() { let l = las_std(); las(&l, &[[1, 2, 3], [4, 5, 6]], 0, pick(0, 90)) }
    fn h_psl_points() { let mut t = psl_file(&[&[2, 0, 1], &[], &[1]]); let v = ref_psl(&t).0.len(); assert!(v == 4); let at = [512 + 128, 512 + 132 + 12, 512 + 64 + 64 + 24 + 64 + 64 + 4][pick(0, 2)]; for k in 0..4 { t[at + k] = byte() } psl(&t, [1, 5, 4096][pick(0, 2)]) }
    fn h_psl_counts() { let mut t = psl_file(&[&[1, 2], &[0, 1], &[2]]); let at = [136, 512, 576, 576 + 64 + 12, 512 + 64 * 3 + 36][pick(0, 4)]; let n = us(0, 5) as i32 - 1; t[at..at + 4].copy_from_slice(&n.to_le_bytes()); psl(&t, 4096) }
    fn h_psl_cut() { let mut t = psl_file(&[&[1, 2], &[0, 1]]); let n = t.len(); let c = [0, 1, 2, 3, 4, 8, 11, 12, 13, 60, 76, 77, 100, 140, 141, 200, 204, 205, 300, 390, 399, 400, 403, 404, 500][pick(0, 24)]; t.truncate(n - c); psl(&t, 4096) }
    fn h_gcode1() { gcode(&any_of(&[b"G1 X$ Y-$.5 Z2\nG91\nG1 X1 Z$\nG90\nG2 Y$ ; X9\nG92 X0 Z$ Y$\nG3 Z4\n", b"G1 Z3 Y4 X5\nG92 Y1 X$\nG92 Z1\nG91 ;\nG1 Y2\nG3 Z$ X7 Y-1\nG2 X$ Z1\nG92 Z-2 Y9 X$\nG1 Z1", b"G91 ; rel\nG1 X$\nG92 X5\nG1 X$ Y1 F300\nM104 S200\nG1 F100\nG90 ;abs\nG1 Z$", b"; c\nG28\nG1 X1\nG0 X5\nG21\nG1 Y2 E0.$\nG92 E0\nG1 Z-3"])) }
    fn h_gcode2() { gcode(&any_of(&[b"G1 X1\nG9?\nG1 X1", b"G1 X1 Y1\nG?? X3 Z4\nG1 Y5", b"G91\nG1 X1\nG92?Y5\nG1 X1", b"G1 X1??2\nG1 Y1", b"G1?X1\nG91?\nG1 ?1", b"G1 ?3 ?4 Y1"])) }
    fn h_fault0() { h_fault_of(0, false, 0) }
    fn h_hurt0() { h_hurt_of(0) }
    fn h_iter0() { h_iter_of(0, 0) }
    fn h_fault1() { h_fault_of(1, false, 0) }
    fn h_hurt1() { h_hurt_of(1) }
    fn h_iter1() { h_iter_of(1, 0) }
    fn h_fault2() { h_fault_of(2, false, 0) }
    fn h_hurt2() { h_hurt_of(2) }
    fn h_iter2() { h_iter_of(2, 0) }
    fn h_fault3() { h_fault_of(3, false, 0) }
    fn h_hurt3() { h_hurt_of(3) }
    fn h_iter3() { h_iter_of(3, 0) }
    fn h_fault4() { h_fault_of(4, false, 0) }
    fn h_hurt4() { h_hurt_of(4) }
    fn h_iter4() { h_iter_of(4, 0) }
    fn h_fault5() { h_fault_of(5, false, 0) }
    fn h_hurt5() { h_hurt_of(5) }
    fn h_iter5() { h_iter_of(5, 0) }
    fn h_fault6() { h_fault_of(6, false, 0) }
    fn h_hurt6() { h_hurt_of(6) }
    fn h_iter6() { h_iter_of(6, 0) }
    fn h_fault7() { h_fault_of(7, false, 0) }
    fn h_hurt7() { h_hurt_of(7) }
    fn h_iter7() { h_iter_of(7, 0) }
    fn h_fault8() { h_fault_of(8, false, 0) }
    fn h_hurt8() { h_hurt_of(8) }
    fn h_iter8() { h_iter_of(8, 0) }
    fn h_fault9() { h_fault_of(9, false, 0) }
    fn h_hurt9() { h_hurt_of(9) }
    fn h_iter9() { h_iter_of(9, 0) }
    fn h_fault10() { h_fault_of(10, false, 0) }
    fn h_hurt10() { h_hurt_of(10) }
    fn h_iter10() { h_iter_of(10, 0) }
    fn h_fault11() { h_fault_of(11, false, 0) }
    fn h_hurt11() { h_hurt_of(11) }
    fn h_iter11() { h_iter_of(11, 0) }
    fn h_fault12() { h_fault_of(12, false, 0) }
    fn h_hurt12() { h_hurt_of(12) }
    fn h_iter12() { h_iter_of(12, 0) }
    fn h_fault13() { h_fault_of(13, false, 0) }
    fn h_hurt13() { h_hurt_of(13) }
    fn h_iter13() { h_iter_of(13, 0) }
    fn h_fault14() { h_fault_of(14, false, 0) }
    fn h_hurt14() { h_hurt_of(14) }
    fn h_iter14() { h_iter_of(14, 0) }
    fn h_fault15() { h_fault_of(15, false, 370) }
    fn h_hurt15() { h_hurt_of(15) }
    fn h_iter15() { h_iter_of(15, 370) }
    fn h_fault16() { h_fault_of(16, false, 640) }
    fn h_hurt16() { h_hurt_of(16) }
    fn h_iter16() { h_iter_of(16, 640) }
}

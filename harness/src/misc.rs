//! text and number helpers, compression, interpolation, shapes
use crate::util::*;
use crate::vp::*;
use rust_3d::*;

fn pos(x: f64) -> Positive { match Positive::new(x) { Some(p) => p, None => { check(false, "Positive::new accepts positive values"); Positive::one() } } }
fn near(a: f64, b: f64, eps: f64) -> bool { (a - b <= eps) & (b - a <= eps) }
fn pc2(v: &[Point2D]) -> PointCloud2D<Point2D> { let mut p = PointCloud2D::new(); for x in v { p.push(x.clone()) } p }
fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| byte()).collect() }
fn asc() -> u8 { let b = byte(); assume(b < 128); b }
fn same_words(got: &[&[u8]], want: &[&[u8]]) { obs(got.len() as u64); check(got.len() == want.len(), "every word is found"); for i in 0..got.len().min(want.len()) { obs_bytes(got[i]); check(got[i].len() == want[i].len(), "words are whole"); for k in 0..got[i].len().min(want[i].len()) { check(got[i][k] == want[i][k], "words are whole") } } if !want.is_empty() { cover(1) } else { cover(2) } }
fn split_by(l: &[u8], f: &dyn Fn(u8) -> bool) -> Vec<&'static [u8]> { let l: &'static [u8] = Box::leak(l.to_vec().into_boxed_slice()); let (mut v, mut a) = (vec![], 0); for i in 0..l.len() + 1 { if i == l.len() || f(l[i]) { if i > a { v.push(&l[a..i]) } a = i + 1 } } v }

static mut K: f64 = 1.0;
fn compressed<T: num_like::N>(m: [f64; 3], p: Point3D) {
    let k = unsafe { K }; let m = [m[0] * k, m[1] * k, m[2] * k]; let p = Point3D::new(p.x * k, p.y * k, p.z * k);
    let pts = vec![Point3D::new(m[0], 0.0, m[2]), p.clone(), Point3D::new(0.0, m[1], 0.0)]; let off = k * [0.0, -4.0, 1.0][pick(0, 2)];
    let mut pc = PointCloud3D::new(); for q in &pts { pc.push(Point3D::new(q.x + off, q.y + off, q.z + off)) } T::run(&pc, m)
}
mod num_like {
    use super::*;
    pub trait N { fn run(pc: &PointCloud3D<Point3D>, m: [f64; 3]); }
    macro_rules! n { ($($t:ty),*) => { $(impl N for $t { fn run(pc: &PointCloud3D<Point3D>, m: [f64; 3]) {
        match CompressedPointCloud3D::<$t>::compress(pc) { Err(_) => check(false, "a cloud that spans a volume can be compressed"), Ok(c) => {
            check(c.data.len() == pc.len(), "every point is compressed"); let d: PointCloud3D<Point3D> = c.decompress(); check(d.len() == pc.len(), "every point is decompressed");
            for i in 0..d.len().min(pc.len()) { obs3(&d[i]); for (a, b, m) in [(d[i].x, pc[i].x, m[0]), (d[i].y, pc[i].y, m[1]), (d[i].z, pc[i].z, m[2])].iter() { check(near(*a, *b, m / <$t>::max_value() as f64 * 1.000001 + m * 1e-12), "points come back within one unit: an extent divided by the largest value of the type") } } cover(1) } }
    } })* } }
    n!(u8, u16, u32, u64);
}
/// the point at a distance along a path, and the segment it lies on and how far along that
fn along(p: &[Point2D], mut d: f64) -> (usize, f64) { for i in 1..p.len() { let (x, y) = (p[i].x - p[i - 1].x, p[i].y - p[i - 1].y); let l = if x < 0.0 { -x } else { x } + if y < 0.0 { -y } else { y }; if l > 0.0 { if d <= l { return (i, d / l) } d -= l } } (0, 0.0) }
/// axis parallel path of up to three segments
fn path() -> Vec<Point2D> { let k = pick(2, 4); let s = fi(0, 16); let j = pick(0, k - 2); let (mut x, mut y) = (un([0.0, -3.0][pick(0, 1)]), un(2.0)); let mut v = vec![Point2D::new(x, y)]; for i in 0..k - 1 { let l = if i == j { s } else { un([3.0, -2.0, 5.0][i]) }; if (i & 1 == 0) == (j & 1 == 0) { x += l } else { y += l } v.push(Point2D::new(x, y)) } v }
fn total(p: &[Point2D]) -> f64 { let mut t = 0.0; for i in 1..p.len() { let (x, y) = (p[i].x - p[i - 1].x, p[i].y - p[i - 1].y); t += if x < 0.0 { -x } else { x } + if y < 0.0 { -y } else { y } } t }
fn interpolated(cosine: bool) {
    interpolated_of(path(), pick(0, 6), cosine)
}
/// a path of twelve segments, one of them of any length
fn long_path() -> Vec<Point2D> { let j = [0, 6, 11][pick(0, 2)]; let s = fi(0, 8); let (mut x, mut y) = (1.0, 2.0); let mut v = vec![Point2D::new(x, y)]; for i in 0..12 { let l = if i == j { s } else { [3.0, -2.0, 5.0, 1.0, -4.0][i % 5] }; if i & 1 == 0 { x += l } else { y += l } v.push(Point2D::new(x, y)) } v }
fn interpolated_of(p: Vec<Point2D>, n: usize, cosine: bool) {
    let l = total(&p);
    match if cosine { interpolate_cosine(&pc2(&p), n) } else { interpolation_linear(&pc2(&p), n) } { Err(_) => check(false, "paths of two points and more can be interpolated"), Ok(r) => {
        check(r.len() == n, "as many points as requested"); let last = &p[p.len() - 1];
        for i in 0..n.min(r.len()) { obs2(&r[i]); let d = if n > 1 { l * i as f64 / (n - 1) as f64 } else { 0.0 };
            if i == 0 { check(near(r[i].x, p[0].x, un(1e-9)) & near(r[i].y, p[0].y, un(1e-9)), "the first point is the start of the path"); } else if i == n - 1 { check(near(r[i].x, last.x, un(1e-9)) & near(r[i].y, last.y, un(1e-9)), "the last point is the end of the path"); cover(1) }
            else { let (s, t) = along(&p, d); let u = if cosine { (1.0 - (t * std::f64::consts::PI).cos()) / 2.0 } else { t };
                if s > 0 { if t < 0.999999 { check(near(r[i].x, p[s - 1].x + t * (p[s].x - p[s - 1].x), un(1e-9)) & near(r[i].y, p[s - 1].y + u * (p[s].y - p[s - 1].y), un(1e-9)), "points are evenly distributed along the path"); cover(2) } } else { check(near(r[i].x, last.x, un(1e-9)) & near(r[i].y, last.y, un(1e-9)), "points are evenly distributed along the path") } } } } }
}

fn comp8_() { let m = [[8.0, 3.0, 255.0], [1.0, 64.0, 0.5]][pick(0, 1)]; let s = fi(0, 128); let f = s / 128.0; let p = match pick(0, 2) { 0 => Point3D::new(m[0] * f, m[1], 0.0), 1 => Point3D::new(0.0, m[1] * f, m[2]), _ => Point3D::new(m[0], 0.0, m[2] * f) }; compressed::<u8>(m, p) }
fn comp16_() { let m = [8.0, 3.0, 65535.0]; let s = fi(0, 128); let f = s / 128.0; let p = match pick(0, 2) { 0 => Point3D::new(m[0] * f, m[1], 0.0), 1 => Point3D::new(0.0, m[1] * f, m[2]), _ => Point3D::new(m[0], 0.0, m[2] * f) }; compressed::<u16>(m, p) }
fn bezier_() {
    let k = pick(2, 4); let n = pick(0, 6); let mut p = vec![Point2D::new(un(1.0), un(2.0)), Point2D::new(un(3.0), un(-1.0)), Point2D::new(un(-2.0), un(4.0)), Point2D::new(un(5.0), un(5.0))]; p.truncate(k); let j = pick(0, k - 1); if pick(0, 1) == 0 { p[j].x = fi(-8, 8) } else { p[j].y = fi(-8, 8) }
    match interpolate_bezier(&pc2(&p), n) { Err(_) => check(false, "paths of two points and more can be interpolated"), Ok(r) => { check(r.len() == n, "as many points as requested");
        for i in 0..n.min(r.len()) { obs2(&r[i]); let t = i as f64 / n as f64; let mut q: Vec<(f64, f64)> = p.iter().map(|p| (p.x, p.y)).collect(); while q.len() > 1 { for a in 0..q.len() - 1 { q[a] = (q[a].0 * (1.0 - t) + q[a + 1].0 * t, q[a].1 * (1.0 - t) + q[a + 1].1 * t) } q.pop(); } check(near(r[i].x, q[0].0, un(1e-9)) & near(r[i].y, q[0].1, un(1e-9)), "points lie on the curve of the control points, evenly in its parameter"); cover(1) } } }
}
harnesses! {
    fn h_words() { let t = bytes(6); let w: Vec<&[u8]> = to_words_skip_empty(&t).collect(); same_words(&w, &split_by(&t, &|c| (c == b' ') | (c == b'\t'))) }
    fn h_skip_empty() { let t = bytes(6); let d = byte(); let w: Vec<&[u8]> = t.split(|c| *c == d).skip_empty().collect(); same_words(&w, &split_by(&t, &|c| c == d)) }
    fn h_skip_empty_string() { let t: Vec<u8> = (0..6).map(|_| asc()).collect(); let d = [",", " "][pick(0, 1)]; let w: Vec<&[u8]> = std::str::from_utf8(&t).unwrap().split(d).skip_empty_string().map(|x| x.as_bytes()).collect(); same_words(&w, &split_by(&t, &|c| c == d.as_bytes()[0])) }
    fn h_until() { let t: Vec<u8> = (0..pick(0, 6)).map(|_| asc()).collect(); let d = asc(); let k = pick(0, 1); let dd = [d]; let r = if k == 0 { until_bytes(&t, d) } else { until(std::str::from_utf8(&t).unwrap(), std::str::from_utf8(&dd).unwrap()).as_bytes() }; let mut n = 0; while n < t.len() && t[n] != d { n += 1 } check(r.len() == n, "the text in front of the first delimiter"); for i in 0..n.min(r.len()) { check(r[i] == t[i], "the text in front of the first delimiter") } obs_bytes(r); if n < t.len() { cover(1) } else { cover(2) } }
    fn h_until_str() { let t: Vec<u8> = (0..pick(0, 6)).map(|_| { let c = byte(); assume((c == b'a') | (c == b'b')); c }).collect(); let d: Vec<u8> = (0..2).map(|_| { let c = byte(); assume((c == b'a') | (c == b'b')); c }).collect(); let r = until(std::str::from_utf8(&t).unwrap(), std::str::from_utf8(&d).unwrap()); let mut n = t.len(); for i in (0..t.len().saturating_sub(1)).rev() { if (t[i] == d[0]) & (t[i + 1] == d[1]) { n = i } } check(r.len() == n, "the text in front of the first delimiter"); obs(r.len() as u64); if n < t.len() { cover(1) } else { cover(2) } }
    fn h_contains() { let (h, n) = (bytes(pick(0, 5)), bytes(pick(0, 3))); let mut w = false; if n.len() <= h.len() { for i in 0..h.len() - n.len() + 1 { let mut e = true; for k in 0..n.len() { e &= h[i + k] == n[k] } w |= e } } let r = contains(&h, &n); obs(r as u64); check(r == w, "contains finds a sequence exactly if it is there"); if r { cover(1) } else { cover(2) } }
    fn h_delimiter() { let t = bytes(8); let n = sym(64) as usize; let r = estimate_delimiter(n, &t); obs(r.map_or(0, |c| c as u64)); let cnt = |d: u8| { let mut k = 0; for c in &t { k += (*c == d) as usize } k }; let mut w = None; for d in [b'\t', b',', b';', b' '].iter() { if cnt(*d) >= n { w = Some(*d) } } check(r == w, "the first of blank, semicolon, comma and tab that is there often enough"); if r.is_some() { cover(1) } else { cover(2) } }
    fn h_max() { let (a, b, c) = (any_f64(), any_f64(), any_f64()); assume((a == a) & (b == b) & (c == c)); let (m, n) = (max_f64(a, b), max_f64_3(a, b, c)); obs_f(m); obs_f(n); check((m >= a) & (m >= b) & ((m == a) | (m == b)), "max_f64 is the larger value"); check((n >= a) & (n >= b) & (n >= c) & ((n == a) | (n == b) | (n == c)), "max_f64_3 is the largest value"); cover(1) }
    fn h_add() { let (a, b) = (p3(-64, 64), p3(-64, 64)); let s = add(&a, &b); obs3(&s); check((s.x == a.x + b.x) & (s.y == a.y + b.y) & (s.z == a.z + b.z), "vectors are added coordinate by coordinate"); cover(1) }
    fn h_box() { let p = any_p3(); let b = Box::new(p.clone()); let d = sym(64) as usize; check(same_bits(Is3D::x(&b), p.x) & same_bits(Is3D::y(&b), p.y) & same_bits(Is3D::z(&b), p.z), "a boxed point has the coordinates of the point"); let (x, y) = (b.position_nd(d), p.position_nd(d)); check(x.is_some() == (d < 3), "a point has three dimensions"); check(y.is_some() == (d < 3), "a point has three dimensions"); if let (Some(x), Some(y)) = (x, y) { check(same_bits(x, y) & same_bits(x, if d == 0 { p.x } else if d == 1 { p.y } else { p.z }), "a boxed point has the coordinates of the point"); obs_f(x); cover(1) } else { cover(2) } check(<Box<Point3D> as IsND>::n_dimensions() == 3, "a point has three dimensions") }
    fn h_vids() { let a = [sym(64) as usize, sym(64) as usize, sym(64) as usize]; let f = Face3::new(VId(a[0]), VId(a[1]), VId(a[2])); check(Face3::n_vids() == 3, "a face has three corners"); let i = sym(64) as usize; let v = f.vid(i); check(v.is_some() == (i < 3), "a face has three corners"); if let Some(v) = v { check(v.0 == if i == 0 { a[0] } else if i == 1 { a[1] } else { a[2] }, "corners keep their order"); obs(v.0 as u64); cover(1) } else { cover(2) } let mut w = vec![]; f.for_each_vid(&mut |v| w.push(v.0)); check((w.len() == 3) && ((w[0] == a[0]) & (w[1] == a[1]) & (w[2] == a[2])), "all corners are visited in order") }

    fn h_sort_vec() {
        let d = pick(0, 4); let v: Vec<Point3D> = if d < 3 { (0..3).map(|_| p3(0, 2)).collect() } else { (0..3).map(|_| { let p = p2(0, 3); Point3D::new(p.x, p.y, 0.0) }).collect() }; let key = |p: &Point3D| match d { 0 | 3 => (p.x * 4.0 + p.y) * 4.0 + p.z, 1 => (p.y * 4.0 + p.z) * 4.0 + p.x, 2 => (p.z * 4.0 + p.x) * 4.0 + p.y, _ => (p.y * 4.0) + p.x };
        let w = match d { 0 | 1 | 2 => { let mut w = v.clone(); match d { 0 => sort_vec_3d_x(&mut w), 1 => sort_vec_3d_y(&mut w), _ => sort_vec_3d_z(&mut w) } w } _ => { let mut w: Vec<Point2D> = v.iter().map(|p| Point2D::new(p.x, p.y)).collect(); if d == 3 { sort_vec_2d_x(&mut w) } else { sort_vec_2d_y(&mut w) } w.into_iter().map(|p| Point3D::new(p.x, p.y, 0.0)).collect() } };
        check(w.len() == 3, "sorting keeps the points"); for p in &w { obs3(p) } for p in &v { let c = |v: &[Point3D]| { let mut n = 0; for q in v { n += eq3(p, q) as usize } n }; check(c(&v) == c(&w), "sorting keeps the points") } for i in 1..w.len() { check(key(&w[i - 1]) <= key(&w[i]), "points are sorted by the dimension, ties by the others in turn") } cover(1)
    }
    fn h_sort_any() { let d = pick(0, 2); let c = [any_f64(), any_f64(), any_f64()]; for x in &c { assume(*x == *x) } let mut v: Vec<Point3D> = c.iter().map(|x| match d { 0 => Point3D::new(*x, 1.0, 2.0), 1 => Point3D::new(1.0, *x, 2.0), _ => Point3D::new(1.0, 2.0, *x) }).collect(); match d { 0 => sort_vec_3d_x(&mut v), 1 => sort_vec_3d_y(&mut v), _ => sort_vec_3d_z(&mut v) } let g = |p: &Point3D| match d { 0 => p.x, 1 => p.y, _ => p.z }; check((v.len() == 3) && ((g(&v[0]) <= g(&v[1])) & (g(&v[1]) <= g(&v[2]))), "points are sorted by the dimension, ties by the others in turn"); cover(1) }

    fn h_comp8() { comp8_() }
    fn h_comp16() { comp16_() }
    fn h_comp32() { let m = [8.0, 1e-3, 3e9]; let s = fi(0, 128); let f = s / 128.0; let p = match pick(0, 2) { 0 => Point3D::new(m[0] * f, m[1], 0.0), 1 => Point3D::new(0.0, m[1] * f, m[2]), _ => Point3D::new(m[0], 0.0, m[2] * f) }; compressed::<u32>(m, p) }
    fn h_comp64() { let m = [8.0, 3.0, 1e12]; let s = fi(0, 128); let f = s / 128.0; let p = match pick(0, 2) { 0 => Point3D::new(m[0] * f, m[1], 0.0), 1 => Point3D::new(0.0, m[1] * f, m[2]), _ => Point3D::new(m[0], 0.0, m[2] * f) }; compressed::<u64>(m, p) }
    fn h_comp_flat() { let n = pick(0, 2); let s = fi(-8, 8); let mut pc: PointCloud3D<Point3D> = PointCloud3D::new(); for i in 0..n { pc.push(Point3D::new(1.0 + i as f64, 2.0 + 3.0 * i as f64, if i == 0 { 0.0 } else { s })) } let r = CompressedPointCloud3D::<u16>::compress(&pc); obs(r.is_ok() as u64); let vol = (n == 2) & (s != 0.0); check(r.is_ok() == vol, "a cloud can be compressed exactly if it spans a volume"); if vol { cover(1) } else { cover(2) } }

    fn h_long_linear() { interpolated_of(long_path(), [12, 40][pick(0, 1)], false) }
    fn h_long_cosine() { interpolated_of(long_path(), [12, 40][pick(0, 1)], true) }
    fn h_sort_vec_many() {
        let n = 24; let d = pick(0, 4); let mut v: Vec<Point3D> = (0..n).map(|i| Point3D::new((i * 7 % 11) as f64, (i * 5 % 9) as f64, if d < 3 { (i * 3 % 5) as f64 } else { 0.0 })).collect(); let k = [0, 10, 23][pick(0, 2)]; let x = fi(-1, 12); if d == 0 || d == 3 { v[k].x = x } else if d == 2 { v[k].z = x } else { v[k].y = x }
        let key = |p: &Point3D| match d { 0 | 3 => (p.x * 16.0 + p.y) * 16.0 + p.z, 1 => (p.y * 16.0 + p.z) * 16.0 + p.x, 2 => (p.z * 16.0 + p.x) * 16.0 + p.y, _ => (p.y * 16.0) + p.x };
        let w = match d { 0 | 1 | 2 => { let mut w = v.clone(); match d { 0 => sort_vec_3d_x(&mut w), 1 => sort_vec_3d_y(&mut w), _ => sort_vec_3d_z(&mut w) } w } _ => { let mut w: Vec<Point2D> = v.iter().map(|p| Point2D::new(p.x, p.y)).collect(); if d == 3 { sort_vec_2d_x(&mut w) } else { sort_vec_2d_y(&mut w) } w.into_iter().map(|p| Point3D::new(p.x, p.y, 0.0)).collect() } };
        check(w.len() == n, "sorting keeps the points"); for p in &w { obs3(p) } for p in &v { let c = |v: &[Point3D]| { let mut n = 0; for q in v { n += eq3(p, q) as usize } n }; check(c(&v) == c(&w), "sorting keeps the points") } for i in 1..w.len() { check(key(&w[i - 1]) <= key(&w[i]), "points are sorted by the dimension, ties by the others in turn") } cover(1)
    }
    fn h_comp_many() {
        let m = [8.0, 3.0, 255.0]; let k = [0, 9, 19][pick(0, 2)]; let mut pc: PointCloud3D<Point3D> = PointCloud3D::new(); for i in 0..20 { let f = i as f64 / 19.0; pc.push(if i == k { Point3D::new(m[0] * fi(0, 64) / 64.0, 1.0, 2.0) } else { Point3D::new(m[0] * f, m[1] * (1.0 - f), m[2] * f * f) }) } pc.push(Point3D::new(0.0, 0.0, 0.0)); pc.push(Point3D::new(m[0], m[1], m[2]));
        match pick(0, 2) { 0 => <u8 as num_like::N>::run(&pc, m), 1 => <u16 as num_like::N>::run(&pc, m), _ => <u64 as num_like::N>::run(&pc, m) }
    }
    fn h_linear() { interpolated(false) }
    fn h_cosine() { interpolated(true) }
    fn h_bezier() { bezier_() }
    fn h_interp_few() { let mut pc: PointCloud2D<Point2D> = PointCloud2D::new(); if pick(0, 1) == 1 { pc.push(p2(-8, 8)) } let n = us(0, 1000); check(interpolate_bezier(&pc, n).is_err() & interpolate_cosine(&pc, n).is_err() & interpolation_linear(&pc, n).is_err(), "paths of less than two points are refused"); cover(1) }
    fn h_bezier_many() { let k = [21, 22, 30, 40][pick(0, 3)]; let y = fi(-64, 64); let p: Vec<Point2D> = (0..k).map(|i| Point2D::new(i as f64, y)).collect(); match interpolate_bezier(&pc2(&p), 4) { Err(_) => check(false, "paths of two points and more can be interpolated"), Ok(r) => { check(r.len() == 4, "as many points as requested"); for i in 0..4.min(r.len()) { obs2(&r[i]); check(near(r[i].x, (k - 1) as f64 * i as f64 / 4.0, 1e-6) & near(r[i].y, y, 1e-6), "evenly spaced control points on a line yield evenly spaced points on it"); cover(1) } } } }
    fn h_rectangle() { let c = p2(-8, 8); let (w, h) = ([1.0, 6.0, 0.5][pick(0, 2)], [2.0, 7.0][pick(0, 1)]); let r = rectangle(&c, pos(w), pos(h)); check(r.len() == 4, "a rectangle has four corners"); if r.len() == 4 { let s = [(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)]; for i in 0..4 { obs2(&r[i]); check((r[i].x == c.x + s[i].0 * w / 2.0) & (r[i].y == c.y + s[i].1 * h / 2.0), "the corners of a rectangle in counter clockwise order"); } cover(1) } }
    fn h_arc() { let c = Point2D::new(fi(-8, 8), 3.0); let c = if pick(0, 1) == 0 { c } else { Point2D::new(-1.0, c.x) }; let (n, d) = ([0, 1, 2, 3, 4, 40][pick(0, 5)], [2.0, 0.5][pick(0, 1)]); let (a, b) = [(0.0, 1.0), (0.5, 3.0), (-2.0, 4.0), (1.0, 1.0), (3.0, -0.5)][pick(0, 4)]; let r = arc(&c, n, pos(d), Rad(a), Rad(b)); check(r.len() == n, "as many points as requested"); for i in 0..n.min(r.len()) { obs2(&r[i]); let t: f64 = if n > 1 { a + (b - a) * i as f64 / (n - 1) as f64 } else { a }; check(near(r[i].x, c.x + d / 2.0 * t.cos(), 1e-9) & near(r[i].y, c.y + d / 2.0 * t.sin(), 1e-9), "an arc runs evenly from its start to its end angle on the circle"); cover(1) } }
    fn h_ellipse() { let c = Point2D::new(fi(-8, 8), 3.0); let c = if pick(0, 1) == 0 { c } else { Point2D::new(-1.0, c.x) }; let (n, p, q) = ([0, 1, 2, 3, 4, 5, 40][pick(0, 6)], [2.0, 0.5][pick(0, 1)], [1.0, 3.0][pick(0, 1)]); let r = ellipse(&c, n, pos(p), pos(q)); check(r.len() == n, "as many points as requested"); for i in 0..n.min(r.len()) { obs2(&r[i]); let (x, y) = ((r[i].x - c.x) / p, (r[i].y - c.y) / q); check(near(x * x + y * y, 1.0, 1e-9), "points lie on the ellipse"); if i == 0 { check(near(x, 1.0, 1e-9), "an ellipse starts at its first axis") } else if i == n - 1 { check(near(x, -1.0, 1e-9), "half of an ellipse ends opposite to its start"); cover(1) } else { check(y > 0.0, "the upper half of an ellipse") } } }
    fn h_involut() { let c = Point2D::new(fi(-8, 8), 3.0); let c = if pick(0, 1) == 0 { c } else { Point2D::new(-1.0, c.x) }; let (n, d) = ([0, 1, 2, 3, 4, 40][pick(0, 5)], [2.0, 0.5][pick(0, 1)]); let (a, b) = [(0.0, 1.0), (0.0, 7.0), (0.5, 3.0), (2.0, -1.0), (1.0, 1.0)][pick(0, 4)]; let r = involut_circle(&c, n, pos(d), Rad(a), Rad(b)); check(r.len() == n, "as many points as requested"); for i in 0..n.min(r.len()) { obs2(&r[i]); let t: f64 = if n > 1 { a + (b - a) * i as f64 / (n - 1) as f64 } else { a }; let (x, y) = (r[i].x - c.x, r[i].y - c.y); check(near(x * t.cos() + y * t.sin(), d / 2.0, 1e-8) & near(x * t.sin() - y * t.cos(), d / 2.0 * t, 1e-8), "an involut runs evenly from its start to its end angle, at the end of the string unrolled"); cover(1) } }
    fn h_interp_mag() { mag(); match pick(0, 2) { 0 => interpolated_of(path(), [3, 6][pick(0, 1)], false), 1 => interpolated_of(path(), [3, 6][pick(0, 1)], true), _ => bezier_() } }
    fn h_comp_mag() { unsafe { K = [f64::from_bits((1023 - 60) << 52), f64::from_bits((1023 + 40) << 52)][pick(0, 1)] } if pick(0, 1) == 0 { comp8_() } else { comp16_() } }
}

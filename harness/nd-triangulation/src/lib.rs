//! Stand-in of the crate nd-triangulation (C++, CGAL; can't be linked here) for dimensions 1, 2 and 3: same interface, same
//! numbering of vertices and cells (see lib.rs of the original): ids of vertices count the insertions, a point inserted again
//! keeps its vertex and gets the new id, cells of the hull get an id when they are seen first and keep it as long as they exist.
//! Coordinates of the checks are small dyadic numbers, hence all predicates are exact.
#[derive(Debug, PartialEq)]
pub enum TriangulationError { WrongDimension { actual_dim: usize, expected_dim: usize } }
pub struct Triangulation { dim: usize, points: Vec<(Vec<f64>, usize)>, next: usize, cells: Vec<Vec<usize>> }
pub struct Cell { id: usize, vertices: Vec<Vertex> }
#[derive(Clone, Copy)]
pub struct Vertex { id: usize }
impl Vertex { pub fn id(&self) -> usize { self.id } }
impl Cell {
    pub fn id(&self) -> usize { self.id }
    pub fn vertices(&self) -> std::vec::IntoIter<Vertex> { self.vertices.clone().into_iter() }
}
fn sub(a: &[f64], b: &[f64]) -> Vec<f64> { a.iter().zip(b).map(|(x, y)| x - y).collect() }
fn dot(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(x, y)| x * y).sum() }
fn cross(a: &[f64], b: &[f64]) -> Vec<f64> { vec![a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn zero(a: &[f64]) -> bool { a.iter().all(|x| *x == 0.0) }
impl Triangulation {
    pub fn new(dim: usize) -> Triangulation { Triangulation { dim, points: vec![], next: 0, cells: vec![] } }
    pub fn add_vertex(&mut self, p: &[f64]) -> Result<usize, TriangulationError> {
        if p.len() != self.dim { return Err(TriangulationError::WrongDimension { actual_dim: p.len(), expected_dim: self.dim }); }
        let id = self.next;
        self.next += 1;
        match self.points.iter_mut().find(|q| q.0 == p) {
            Some(q) => q.1 = id,
            None => self.points.push((p.to_vec(), id)),
        }
        Ok(id)
    }
    /// facets (indices of points) of the convex hull; of lower dimension if the points are so
    fn facets(&self) -> Vec<Vec<usize>> {
        let p: Vec<&Vec<f64>> = self.points.iter().map(|x| &x.0).collect();
        let n = p.len();
        if n < 2 { return vec![vec![]]; }
        let d1 = sub(p[1], p[0]);
        // as 3d-vectors
        let v3 = |a: &[f64]| { let mut v = a.to_vec(); v.resize(3, 0.0); v };
        let off_line = (2..n).find(|&k| !zero(&cross(&v3(&d1), &v3(&sub(p[k], p[0])))));
        let k = match off_line {
            None => {
                // collinear: both ends
                let key = |i: usize| dot(&d1, p[i]);
                let lo = (0..n).fold(0, |m, i| if key(i) < key(m) { i } else { m });
                let hi = (0..n).fold(0, |m, i| if key(i) > key(m) { i } else { m });
                return vec![vec![lo], vec![hi]];
            }
            Some(k) => k,
        };
        let normal = cross(&v3(&d1), &v3(&sub(p[k], p[0])));
        let all: Vec<usize> = (0..n).collect();
        let off_plane = all.iter().any(|&i| dot(&normal, &v3(&sub(p[i], p[0]))) != 0.0);
        if !off_plane { return self.polygon(&all, &normal).iter().map(|x| vec![x.0, x.1]).collect(); }
        let mut out = vec![];
        for a in 0..n { for b in a + 1..n { for c in b + 1..n {
            let nv = cross(&sub(p[b], p[a]), &sub(p[c], p[a]));
            if zero(&nv) { continue; }
            let s: Vec<f64> = all.iter().map(|&i| dot(&nv, &sub(p[i], p[a]))).collect();
            if s.iter().any(|x| *x > 0.0) && s.iter().any(|x| *x < 0.0) { continue; }
            // facets of more than 3 points: fan around the first point of their boundary
            let on: Vec<usize> = all.iter().cloned().filter(|&i| s[i] == 0.0).collect();
            let border = self.polygon(&on, &nv);
            let apex = border.iter().map(|x| x.0).min().unwrap();
            if a == apex && border.iter().any(|x| *x == (b, c) || *x == (c, b)) { out.push(vec![a, b, c]); }
        } } }
        out
    }
    /// edges of the boundary of a planar set of points; collinear points of the boundary are vertices as well
    fn polygon(&self, on: &[usize], normal: &[f64]) -> Vec<(usize, usize)> {
        let v = |i: usize| { let mut v = self.points[i].0.clone(); v.resize(3, 0.0); v };
        let mut out = vec![];
        for &a in on { for &b in on {
            if a == b { continue; }
            let d = sub(&v(b), &v(a));
            let ok = on.iter().all(|&c| {
                let side = dot(normal, &cross(&d, &sub(&v(c), &v(a))));
                let along = dot(&d, &sub(&v(c), &v(a)));
                // left of the edge, or on its line but not strictly inside
                side > 0.0 || (side == 0.0 && (along <= 0.0 || along >= dot(&d, &d)))
            });
            if ok { out.push((a, b)); }
        } }
        out
    }
    pub fn convex_hull_cells(&mut self) -> std::vec::IntoIter<Cell> {
        let mut out = vec![];
        for mut f in self.facets() {
            f.sort();
            let id = match self.cells.iter().position(|c| *c == f) {
                Some(i) => i,
                None => { self.cells.push(f.clone()); self.cells.len() - 1 }
            };
            out.push(Cell { id: id + 1, vertices: f.iter().map(|&i| Vertex { id: self.points[i].1 }).collect() });
        }
        out.into_iter()
    }
}

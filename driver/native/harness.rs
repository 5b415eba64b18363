// Declarations the emitted Rust is compiled against: user types, external functions, containers.
#[derive(Clone, Copy)] pub struct Point2 { pub x: f64, pub y: f64 }
#[derive(Clone, Copy)] pub struct Pose { pub t: Mat<3, 1>, pub k: f64 }
#[derive(Clone, Copy)] pub struct Box { pub a: Point2, pub m: Mat<2, 2>, pub w: f64 }
#[derive(Clone, Copy)] pub struct Nest { pub b: Box, pub n: i64, pub p: Point2 }
#[derive(Clone, Copy)] pub struct Table { pub value: f64 }
#[derive(Clone, Copy)] pub struct Mat<const R: usize, const C: usize> { pub d: [[f64; C]; R] }
impl<const R: usize, const C: usize> std::ops::Index<(usize, usize)> for Mat<R, C> {
  type Output = f64;
  fn index(&self, ij: (usize, usize)) -> &f64 { &self.d[ij.0][ij.1] }
}

/// R x C elements somewhere in a buffer
pub struct In<'a, const R: usize, const C: usize> { pub d: &'a [f64], pub off: usize, pub rs: usize, pub cs: usize }
pub struct Out<'a, const R: usize, const C: usize> { pub d: &'a mut [f64], pub off: usize, pub rs: usize, pub cs: usize }
impl<const R: usize, const C: usize> wrenfold_traits::Span2D<R, C> for In<'_, R, C> {
  type ValueType = f64;
  fn get(&self, i: usize, j: usize) -> f64 { assert!(i < R && j < C); self.d[self.off + i * self.rs + j * self.cs] }
}
impl<const R: usize, const C: usize> wrenfold_traits::OutputSpan2D<R, C> for Out<'_, R, C> {
  type ValueType = f64;
  fn set(&mut self, i: usize, j: usize, v: f64) { assert!(i < R && j < C); self.d[self.off + i * self.rs + j * self.cs] = v; }
}

pub trait Elem { fn load(p: &mut &[f64]) -> Self; fn dump(&self, p: &mut Vec<f64>); }
impl Elem for f64 {
  fn load(p: &mut &[f64]) -> f64 { let x = p[0]; *p = &p[1..]; x }
  fn dump(&self, p: &mut Vec<f64>) { p.push(*self) }
}
impl Elem for i64 {
  fn load(p: &mut &[f64]) -> i64 { f64::load(p) as i64 }
  fn dump(&self, p: &mut Vec<f64>) { p.push(*self as f64) }
}
impl<const R: usize, const C: usize> Elem for Mat<R, C> {
  fn load(p: &mut &[f64]) -> Self { let mut m = Mat { d: [[0.0; C]; R] }; for i in 0..R { for j in 0..C { m.d[i][j] = f64::load(p); } } m }
  fn dump(&self, p: &mut Vec<f64>) { for i in 0..R { for j in 0..C { p.push(self.d[i][j]) } } }
}
impl Elem for Point2 {
  fn load(p: &mut &[f64]) -> Self { let x = f64::load(p); let y = f64::load(p); Point2 { x, y } }
  fn dump(&self, p: &mut Vec<f64>) { self.x.dump(p); self.y.dump(p) }
}
impl Elem for Pose {
  fn load(p: &mut &[f64]) -> Self { let t = Mat::load(p); let k = f64::load(p); Pose { t, k } }
  fn dump(&self, p: &mut Vec<f64>) { self.t.dump(p); self.k.dump(p) }
}
impl Elem for Box {
  fn load(p: &mut &[f64]) -> Self { let a = Point2::load(p); let m = Mat::load(p); let w = f64::load(p); Box { a, m, w } }
  fn dump(&self, p: &mut Vec<f64>) { self.a.dump(p); self.m.dump(p); self.w.dump(p) }
}
impl Elem for Nest {
  fn load(p: &mut &[f64]) -> Self { let b = Box::load(p); let n = i64::load(p); let q = Point2::load(p); Nest { b, n, p: q } }
  fn dump(&self, p: &mut Vec<f64>) { self.b.dump(p); self.n.dump(p); self.p.dump(p) }
}
impl Elem for Table {
  fn load(p: &mut &[f64]) -> Self { Table { value: f64::load(p) } }
  fn dump(&self, p: &mut Vec<f64>) { p.push(self.value) }
}

// external functions: the interpretation given in Sem.tla (ExtInterp)
fn interp(sh: f64, xs: &[f64]) -> f64 {
  let mut s = sh;
  for (i, x) in xs.iter().enumerate() { s += x * (2 * i + 3) as f64 / (i + 4) as f64; }
  s * (1.0 + sh / 5.0) + 2.0 / 11.0 * (xs[0] * xs[xs.len() - 1])
}
pub fn ext_s(a: f64, b: f64) -> f64 { interp(0.5, &[a, b]) }
pub fn ext_p(s: f64, p: &Point2) -> Point2 {
  Point2 { x: interp(3.0 / 7.0, &[s, p.x, p.y]), y: interp(-1.0 / 6.0, &[s, p.x, p.y]) }
}
pub fn ext_0() -> f64 { 1.4 }
pub fn ext_i(a: f64) -> i64 { if a < 0.0 { -2 } else { 3 } }
pub fn ext_t(t: &Table, a: f64) -> f64 { interp(1.8, &[t.value, a]) }

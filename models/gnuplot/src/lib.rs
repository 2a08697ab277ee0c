//! Recording model of the part of gnuplot that llamapun uses.
pub trait DataType { fn get(&self) -> f64; }
macro_rules! dt { ($($t:ty),*) => { $(impl DataType for $t { fn get(&self) -> f64 { *self as f64 } })* } }
dt!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64);
impl<'a, T: DataType> DataType for &'a T { fn get(&self) -> f64 { (**self).get() } }
pub enum PlotOption<T> { PointSymbol(char), Color(T), PointSize(f64), Caption(T) }
pub enum LabelOption<T> { Rotate(f64), Font(T, f64), TextColor(T) }
pub use self::LabelOption::*;
pub use self::PlotOption::*;
/// what was drawn: (x, y) pairs
pub static mut POINTS: Vec<(f64, f64)> = Vec::new();
/// the labels, title, terminal and file, each with what it is
pub static mut TEXTS: Vec<(&'static str, String)> = Vec::new();
pub type Shown = (Vec<(f64, f64)>, Vec<(&'static str, String)>);
static mut SHOWN: Vec<Shown> = Vec::new();
fn note(k: &'static str, t: &str) { unsafe { (*std::ptr::addr_of_mut!(TEXTS)).push((k, t.to_string())) } }
/// what was there whenever a figure was shown
pub fn shown() -> Vec<Shown> { unsafe { (*std::ptr::addr_of!(SHOWN)).clone() } }
pub struct Figure { ax: Axes2D }
pub struct Axes2D {}
impl Figure {
  pub fn new() -> Self { Figure { ax: Axes2D {} } }
  pub fn axes2d(&mut self) -> &mut Axes2D { &mut self.ax }
  pub fn set_terminal(&mut self, t: &str, o: &str) -> &mut Self { note("terminal", t); note("file", o); self }
  pub fn show(&mut self) -> Result<&mut Self, ()> { unsafe { let now = ((*std::ptr::addr_of!(POINTS)).clone(), (*std::ptr::addr_of!(TEXTS)).clone()); (*std::ptr::addr_of_mut!(SHOWN)).push(now) } Ok(self) }
}
impl Axes2D {
  #[allow(static_mut_refs)]
  pub fn points<Tx: DataType, X: IntoIterator<Item = Tx>, Ty: DataType, Y: IntoIterator<Item = Ty>>(&mut self, x: X, y: Y, _o: &[PlotOption<&str>]) -> &mut Self {
    for (a, b) in x.into_iter().zip(y) { unsafe { POINTS.push((a.get(), b.get())); } }
    self
  }
  pub fn set_x_label(&mut self, t: &str, _o: &[LabelOption<&str>]) -> &mut Self { note("x", t); self }
  pub fn set_y_label(&mut self, t: &str, _o: &[LabelOption<&str>]) -> &mut Self { note("y", t); self }
  pub fn set_title(&mut self, t: &str, _o: &[LabelOption<&str>]) -> &mut Self { note("title", t); self }
}

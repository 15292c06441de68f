//! A user-defined weight type: 2x2 matrices over (min, +). A full semiring, idempotent, and not
//! commutative, so an operation that multiplies weights in the wrong order is visible.
use crate::ctx::*;
use crate::model::TW;
use rustfst::semirings::{ReverseBack, Semiring, SemiringProperties, WeightQuantize};
use std::borrow::Borrow;

const INF: u32 = u32::MAX;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd)]
pub struct Mat(pub [u32; 4]);

fn p(a: u32, b: u32) -> u32 {
    if a == INF || b == INF {
        INF
    } else {
        a + b
    }
}

impl Semiring for Mat {
    type Type = [u32; 4];
    type ReverseWeight = Mat;
    fn zero() -> Self {
        Mat([INF; 4])
    }
    fn one() -> Self {
        Mat([0, INF, INF, 0])
    }
    fn new(v: [u32; 4]) -> Self {
        Mat(v)
    }
    fn plus_assign<P: Borrow<Self>>(&mut self, rhs: P) -> anyhow::Result<()> {
        for i in 0..4 {
            self.0[i] = self.0[i].min(rhs.borrow().0[i]);
        }
        Ok(())
    }
    fn times_assign<P: Borrow<Self>>(&mut self, rhs: P) -> anyhow::Result<()> {
        let (a, b) = (self.0, rhs.borrow().0);
        self.0 = [
            p(a[0], b[0]).min(p(a[1], b[2])),
            p(a[0], b[1]).min(p(a[1], b[3])),
            p(a[2], b[0]).min(p(a[3], b[2])),
            p(a[2], b[1]).min(p(a[3], b[3])),
        ];
        Ok(())
    }
    fn approx_equal<P: Borrow<Self>>(&self, rhs: P, _delta: f32) -> bool {
        self == rhs.borrow()
    }
    fn value(&self) -> &[u32; 4] {
        &self.0
    }
    fn take_value(self) -> [u32; 4] {
        self.0
    }
    fn set_value(&mut self, v: [u32; 4]) {
        self.0 = v
    }
    fn reverse(&self) -> anyhow::Result<Mat> {
        let a = self.0;
        Ok(Mat([a[0], a[2], a[1], a[3]]))
    }
    fn properties() -> SemiringProperties {
        SemiringProperties::SEMIRING | SemiringProperties::IDEMPOTENT
    }
}
impl ReverseBack<Mat> for Mat {
    fn reverse_back(&self) -> anyhow::Result<Mat> {
        self.reverse()
    }
}
impl WeightQuantize for Mat {
    fn quantize_assign(&mut self, _delta: f32) -> anyhow::Result<()> {
        Ok(())
    }
}
impl TW for Mat {
    const NAME: &'static str = "matrix";
    const IDEMP: bool = true;
    const COMM: bool = false;
    fn gen(c: &mut Ctx) -> Self {
        let mut m = [INF; 4];
        for x in m.iter_mut() {
            if c.chance(2, 3) {
                *x = c.below(4) as u32;
            }
        }
        if m == [INF; 4] {
            m[c.below(4)] = 1;
        }
        Mat(m)
    }
}

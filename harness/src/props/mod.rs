use crate::ctx::*;
macro_rules! props { ($($m:ident),*) => { $(pub mod $m;)* pub fn all() -> Vec<Prop> { vec![$($m::prop()),*] } } }
props!(p01, p02, p03, p04, p05, p06, p07, p11, p14, p30, p20, p15, p22, p26, p27, p24, p21, p23, p08, p09, p10, p12, p13, p16, p17, p18, p19, p25, p29, p28, p31, p32, p33, p34);

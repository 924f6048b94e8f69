use fields::field_gl::{Fr as FGL, FrRepr};
use fields::PrimeField;
use num_bigint::BigInt;
use num_traits::ToPrimitive;

pub const P: u64 = 0xFFFFFFFF00000001;

pub fn gl(x: u64) -> FGL {
    FGL::from_repr(FrRepr([x])).expect("element below p in trace")
}
pub fn gls(x: &[u64]) -> Vec<FGL> {
    x.iter().map(|x| gl(*x)).collect()
}
pub fn ungl(x: &[FGL]) -> Vec<u64> {
    x.iter().map(|x| x.as_int()).collect()
}
pub fn raw(x: &FGL) -> u64 {
    x.into_raw_repr().0[0]
}
pub fn limbs4(x: &BigInt) -> [u64; 4] {
    let m = BigInt::from(u64::MAX);
    let mut r = [0; 4];
    for (i, o) in r.iter_mut().enumerate() {
        *o = ((x >> (64 * i)) & &m).to_u64().unwrap();
    }
    r
}
/// runs f, turning a panic into None
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

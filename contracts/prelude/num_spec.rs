pub open spec fn actual_of(n: Num) -> VActual {
    match nval(n) { NumV::Unsigned(v) => VActual::Unsigned(v as u128), NumV::Signed(v) => VActual::Signed(v as i128), NumV::Float(v) => VActual::Float(v) }
}
/// equality of the errors' descriptions of values
pub open spec fn vactual_eq(a: VActual, b: VActual) -> bool {
    match (a, b) { (VActual::Float(x), VActual::Float(y)) => x.eq_spec(&y), _ => a == b }
}

/// same class and same mathematical value, whatever the widths
pub open spec fn num_same(a: Num, b: Num) -> bool {
    match (nval(a), nval(b)) {
        (NumV::Unsigned(x), NumV::Unsigned(y)) => x == y,
        (NumV::Signed(x), NumV::Signed(y)) => x == y,
        (NumV::Float(x), NumV::Float(y)) => x.eq_spec(&y),
        _ => false,
    }
}

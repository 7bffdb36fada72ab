use model::Ty;
pub fn all() -> Vec<Ty> {
    let mut v = reg_a::types();
    v.extend(reg_b::types());
    v.extend(reg_c::types());
    v.extend(reg_d::types());
    v.extend(reg_e::types());
    v.extend(reg_f::types());
    v
}

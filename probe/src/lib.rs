//! Instances of the function macro whose bodies and sizes are opaque: what the macro adds around
//! them is all there is to verify here.
#[macro_use]
extern crate advantage as adv;
use adv::prelude::*;
use adv::DVector;

pub const K: usize = 3;
pub fn size_in() -> usize { unimplemented!() }
pub fn size_out() -> usize { unimplemented!() }
pub fn body<S>(_x: DVector<S>) -> DVector<S> { unimplemented!() }
pub fn body_extra<S>(_x: DVector<S>, _a: f64, _b: usize) -> DVector<S> { unimplemented!() }
pub fn body_other<S>(_x: DVector<S>) -> DVector<S> { unimplemented!() }
pub fn choice<S>(_x: &DVector<S>) -> bool { unimplemented!() }
pub fn list1<S>(_u: S) -> DVector<S> { unimplemented!() }
pub fn list3<S>(_u: S, _v: S, _w: S) -> DVector<S> { unimplemented!() }
pub fn list2_extra<S>(_u: S, _v: S, _a: f64, _b: usize) -> DVector<S> { unimplemented!() }

adv_fn! {
    pub fn vector_const(x: [[3]]) -> [[2]] {
        body(x)
    }
}
adv_fn! {
    pub fn vector_expr(x: [[K + 1]]) -> [[2 * K]] {
        body(x)
    }
}
adv_fn! {
    pub fn vector_call(x: [[size_in()]]) -> [[size_out()]] {
        body(x)
    }
}
adv_fn! {
    pub fn vector_extra(x: [[size_in()]], a: f64, b: usize) -> [[size_out()]] {
        body_extra(x, a, b)
    }
}
adv_fn! {
    pub fn vector_sized(x: [[b]], a: f64, b: usize) -> [[b + 1]] {
        body_extra(x, a, b)
    }
}
adv_fn! {
    pub fn vector_early(x: [[size_in()]]) -> [[size_out()]] {
        if choice(&x) {
            return body_other(x);
        }
        body(x)
    }
}
adv_fn! {
    pub fn list_one([[u]]) -> [[size_out()]] {
        list1(u)
    }
}
adv_fn! {
    pub fn list_three([[u, v, w]]) -> [[2 + K]] {
        list3(u, v, w)
    }
}
adv_fn! {
    pub fn list_extra([[u, v]], a: f64, b: usize) -> [[size_out()]] {
        list2_extra(u, v, a, b)
    }
}

use factrs::variables::*;
use harness::*;
#[path = "../lie.rs"]
mod lie;
use lie::*;

fn group<V: Sym>() {
    let (a, b, c) = (V::any("a"), V::any("b"), V::any("c"));
    let id = V::identity();
    same("left_identity", &id.compose(&a), &a);
    same("right_identity", &a.compose(&id), &a);
    same("right_inverse", &a.compose(&a.inverse()), &id);
    same("left_inverse", &a.inverse().compose(&a), &id);
    same("associative", &a.compose(&b).compose(&c), &a.compose(&b.compose(&c)));
    same("inverse_of_product", &a.compose(&b).inverse(), &b.inverse().compose(&a.inverse()));
    same("involution", &a.inverse().inverse(), &a);
    V::closed("closed_product", &a.compose(&b));
    V::closed("closed_inverse", &a.inverse());
    V::closed("closed_identity", &id);
    mark("reached");
}

entries! {
    fn group_so2() { group::<SO2>() }
    fn group_se2() { group::<SE2>() }
    fn group_so3() { group::<SO3>() }
    fn group_se3() { group::<SE3>() }
    fn group_vec1() { group::<VectorVar1>() }
    fn group_vec2() { group::<VectorVar2>() }
    fn group_vec3() { group::<VectorVar3>() }
    fn group_vec4() { group::<VectorVar4>() }
    fn group_vec5() { group::<VectorVar5>() }
    fn group_vec6() { group::<VectorVar6>() }
    fn group_imubias() { group::<ImuBias>() }
}

//! Registry: third-party types.
use model::flags::*;
use model::{tys, Ty};
use glam::*;
use smallvec::SmallVec;

pub fn types() -> Vec<Ty> {
    let mut v = Vec::new();
    let b = EXT;
    tys!(v, b; Vec2, Vec3, Vec3A, Vec4, DVec2, DVec3, DVec4, IVec2, IVec3, IVec4, UVec2, UVec3, UVec4, Quat, DQuat);
    tys!(v, b; Mat2, Mat3, Mat3A, Mat4, DMat2, DMat3, DMat4, Affine2, Affine3A, DAffine2, DAffine3);
    tys!(v, b | NONUNIQUE; BVec2, BVec3, BVec4);
    tys!(v, b; Vec<Vec3>, Vec<Vec4>, [Quat; 2]);
    tys!(v, b | NONUNIQUE; Option<Mat4>, Option<chrono::DateTime<chrono::Utc>>);
    tys!(v, b; uuid::Uuid, Vec<uuid::Uuid>);
    tys!(v, b | SLOW; regex::Regex, Vec<regex::Regex>);
    tys!(v, b; chrono::DateTime<chrono::Utc>, Vec<chrono::DateTime<chrono::Utc>>);
    tys!(v, b; SmallVec<[u8; 4]>, SmallVec<[u16; 2]>, SmallVec<[u64; 8]>, SmallVec<[String; 2]>, SmallVec<[f32; 3]>, Vec<SmallVec<[u8; 2]>>);
    let c = b | NONUNIQUE | COLLECTION;
    tys!(v, c; indexmap_v1::IndexMap<u8, u16>, indexmap_v1::IndexMap<u8, u8>, indexmap_v1::IndexMap<String, Vec<u8>>, indexmap_v1::IndexSet<u8>, indexmap_v1::IndexSet<u32>, indexmap_v1::IndexSet<String>);
    tys!(v, c; indexmap_v2::IndexMap<u32, u16>, indexmap_v2::IndexMap<i8, i8>, indexmap_v2::IndexMap<String, Option<u8>>, indexmap_v2::IndexSet<u8>, indexmap_v2::IndexSet<i64>, indexmap_v2::IndexSet<String>);
    v
}

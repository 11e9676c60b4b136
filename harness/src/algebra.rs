macro_rules! entries {
    ($m:ident, $t:ident) => {
        mod $m {
            use crate::W;
            use mazth::dualquat::DualQuat;
            use mazth::i_comparable::IComparableError;
            use mazth::mat::*;
            use mazth::quat::Quat;
            type T = $t;

            // matrices are built and read through the raw storage, so that each property depends
            // on the operation it is about and not on init/index as well
            #[inline(always)]
            fn a3(i: *const T, at: usize) -> [T; 9] {
                let mut r = [0 as T; 9];
                for j in 0..9 {
                    r[j] = unsafe { *i.add(at + j) };
                }
                r
            }
            #[inline(always)]
            fn a4(i: *const T, at: usize) -> [T; 16] {
                let mut r = [0 as T; 16];
                for j in 0..16 {
                    r[j] = unsafe { *i.add(at + j) };
                }
                r
            }
            #[inline(always)]
            fn mk3(i: *const T, at: usize, rm: bool) -> Mat3<T> {
                let mut m = Mat3::<T> { _val: [0 as T; 9], _is_row_major: rm };
                for r in 0..3 {
                    for c in 0..3 {
                        let x = unsafe { *i.add(at + r * 3 + c) };
                        m._val[if rm { r * 3 + c } else { c * 3 + r }] = x;
                    }
                }
                m
            }
            #[inline(always)]
            fn mk4(i: *const T, at: usize, rm: bool) -> Mat4<T> {
                let mut m = Mat4::<T> { _val: [0 as T; 16], _is_row_major: rm };
                for r in 0..4 {
                    for c in 0..4 {
                        let x = unsafe { *i.add(at + r * 4 + c) };
                        m._val[if rm { r * 4 + c } else { c * 4 + r }] = x;
                    }
                }
                m
            }
            #[inline(always)]
            fn put3(w: &mut W<T>, m: &Mat3<T>) {
                for r in 0..3 {
                    for c in 0..3 {
                        w.f(m._val[if m._is_row_major { r * 3 + c } else { c * 3 + r }]);
                    }
                }
                w.b(m._is_row_major);
            }
            #[inline(always)]
            fn put4(w: &mut W<T>, m: &Mat4<T>) {
                for r in 0..4 {
                    for c in 0..4 {
                        w.f(m._val[if m._is_row_major { r * 4 + c } else { c * 4 + r }]);
                    }
                }
                w.b(m._is_row_major);
            }
            #[inline(always)]
            fn qt(i: *const T, at: usize) -> Quat<T> {
                unsafe {
                    Quat::<T> { _x: *i.add(at), _y: *i.add(at + 1), _z: *i.add(at + 2), _w: *i.add(at + 3) }
                }
            }
            #[inline(always)]
            fn putq(w: &mut W<T>, q: &Quat<T>) {
                w.f(q._x);
                w.f(q._y);
                w.f(q._z);
                w.f(q._w);
            }
            #[inline(always)]
            fn v3(i: *const T, at: usize) -> Mat3x1<T> {
                unsafe { Mat3x1::<T> { _val: [*i.add(at), *i.add(at + 1), *i.add(at + 2)] } }
            }
            #[inline(always)]
            fn v4(i: *const T, at: usize) -> Mat4x1<T> {
                unsafe { Mat4x1::<T> { _val: [*i.add(at), *i.add(at + 1), *i.add(at + 2), *i.add(at + 3)] } }
            }
            macro_rules! e {
                ($n:ident, $i:ident, $w:ident, $k:ident, $b:block) => {
                    #[export_name = concat!(stringify!($n), "_", stringify!($t))]
                    pub unsafe extern "C" fn $n($i: *const T, o: *mut T, $k: u64) {
                        #[allow(unused_mut)]
                        let mut $w = W { p: o };
                        let _ = ($i, $k);
                        $b
                    }
                };
            }

            // ---- C01 -----------------------------------------------------------------
            e!(mat3_access, i, w, k, {
                let m = Mat3::<T>::init(a3(i, 0), k & 1 == 1);
                for r in 0..3 {
                    for c in 0..3 {
                        w.f(m.index(r, c));
                    }
                }
                put3(&mut w, &m);
                w.f(m.trace());
                w.b(m.size() == Some(9));
            });
            e!(mat4_access, i, w, k, {
                let m = Mat4::<T>::init(a4(i, 0), k & 1 == 1);
                for r in 0..4 {
                    for c in 0..4 {
                        w.f(m.index(r, c));
                    }
                }
                put4(&mut w, &m);
                w.f(m.trace());
                w.b(m.size() == Some(16));
            });
            e!(mat3_index_mut, i, w, k, {
                let mut m = mk3(i, 0, k & 1 == 1);
                *m.index_mut((k >> 1) & 3, (k >> 3) & 3) = *i.add(9);
                put3(&mut w, &m);
            });
            e!(mat4_index_mut, i, w, k, {
                let mut m = mk4(i, 0, k & 1 == 1);
                *m.index_mut((k >> 1) & 3, (k >> 3) & 3) = *i.add(16);
                put4(&mut w, &m);
            });
            e!(mat3_consts, i, w, k, {
                put3(&mut w, &Mat3::<T>::iden());
                put3(&mut w, &Mat3::<T>::default());
            });
            e!(mat4_consts, i, w, k, {
                put4(&mut w, &Mat4::<T>::iden());
                put4(&mut w, &Mat4::<T>::default());
            });

            // ---- C02 -----------------------------------------------------------------
            e!(mat3_mul, i, w, k, {
                let r = mk3(i, 0, k & 1 == 1).mul(&mk3(i, 9, k & 1 == 1));
                w.b(r.is_some());
                if let Some(m) = r {
                    put3(&mut w, &m);
                }
            });
            e!(mat4_mul, i, w, k, {
                let r = mk4(i, 0, k & 1 == 1).mul(&mk4(i, 16, k & 1 == 1));
                w.b(r.is_some());
                if let Some(m) = r {
                    put4(&mut w, &m);
                }
            });
            e!(mat3_vec, i, w, k, {
                let r = mk3(i, 0, k & 1 == 1).mul_mat3x1(&v3(i, 9));
                w.b(r.is_some());
                if let Some(m) = r {
                    w.s(&m._val);
                }
            });
            e!(mat4_vec, i, w, k, {
                let r = mk4(i, 0, k & 1 == 1).mul_mat4x1(&v4(i, 16));
                w.b(r.is_some());
                if let Some(m) = r {
                    w.s(&m._val);
                }
            });
            e!(vec_mat3, i, w, k, {
                let r = Mat1x3::<T> { _val: v3(i, 9)._val }.mul_mat3x3(&mk3(i, 0, k & 1 == 1));
                w.b(r.is_some());
                if let Some(m) = r {
                    w.s(&m._val);
                }
            });
            e!(vec_mat4, i, w, k, {
                let r = Mat1x4::<T> { _val: v4(i, 16)._val }.mul_mat4x4(&mk4(i, 0, k & 1 == 1));
                w.b(r.is_some());
                if let Some(m) = r {
                    w.s(&m._val);
                }
            });

            // ---- C03 (matrices) --------------------------------------------------------
            e!(mat3_elem, i, w, k, {
                let a = mk3(i, 0, k & 8 != 0);
                let b = mk3(i, 9, k & 8 != 0);
                let r = match k & 7 {
                    0 => a.plus(&b),
                    1 => a.minus(&b),
                    2 => a.mul_elem(&b),
                    3 => a.div(&b),
                    4 => a.scale(*i.add(9)),
                    _ => a.normalize(),
                };
                w.b(r.is_some());
                if let Some(m) = r {
                    put3(&mut w, &m);
                }
            });
            e!(mat4_elem, i, w, k, {
                let a = mk4(i, 0, k & 8 != 0);
                let b = mk4(i, 16, k & 8 != 0);
                let r = match k & 7 {
                    0 => a.plus(&b),
                    1 => a.minus(&b),
                    2 => a.mul_elem(&b),
                    3 => a.div(&b),
                    4 => a.scale(*i.add(16)),
                    _ => a.normalize(),
                };
                w.b(r.is_some());
                if let Some(m) = r {
                    put4(&mut w, &m);
                }
            });

            // ---- C03/C04/C05/C08 (vectors) ------------------------------------------------
            macro_rules! vecs {
                ($p:ident, $v:ident, $tv:ident, $n:expr) => {
                    pub mod $p {
                        use super::*;
                        #[inline(always)]
                        fn vv(i: *const T, at: usize) -> $v<T> {
                            let mut r = $v::<T> { _val: [0 as T; $n] };
                            for j in 0..$n {
                                r._val[j] = unsafe { *i.add(at + j) };
                            }
                            r
                        }
                        #[export_name = concat!(stringify!($p), "_elem_", stringify!($t))]
                        pub unsafe extern "C" fn elem(i: *const T, o: *mut T, k: u64) {
                            let mut w = W { p: o };
                            let a = vv(i, 0);
                            let b = vv(i, $n);
                            let r = match k {
                                0 => a.plus(&b),
                                1 => a.minus(&b),
                                2 => a.mul_elem(&b),
                                3 => a.div(&b),
                                _ => a.scale(*i.add($n)),
                            };
                            w.b(r.is_some());
                            if let Some(m) = r {
                                w.s(&m._val);
                            }
                        }
                        #[export_name = concat!(stringify!($p), "_metric_", stringify!($t))]
                        pub unsafe extern "C" fn metric(i: *const T, o: *mut T, k: u64) {
                            let mut w = W { p: o };
                            let a = vv(i, 0);
                            let b = vv(i, $n);
                            match k {
                                0 => {
                                    let d = a.dot(&b);
                                    w.b(d.is_some());
                                    w.f(d.unwrap());
                                }
                                1 => {
                                    let d = a.magnitude();
                                    w.b(d.is_some());
                                    w.f(d.unwrap());
                                }
                                2 => {
                                    let d = a.normalize();
                                    w.b(d.is_some());
                                    w.s(&d.unwrap()._val);
                                }
                                _ => {
                                    let d = a.cross(&b);
                                    w.b(d.is_some());
                                    if let Some(x) = d {
                                        w.s(&x._val);
                                    }
                                }
                            }
                        }
                        #[export_name = concat!(stringify!($p), "_misc_", stringify!($t))]
                        pub unsafe extern "C" fn misc(i: *const T, o: *mut T, _k: u64) {
                            let mut w = W { p: o };
                            let mut a = vv(i, 0);
                            w.s(&a.transpose()._val);
                            w.s(&a.transpose().transpose()._val);
                            for j in 0..$n {
                                w.f(a[j]);
                            }
                            for j in 0..$n {
                                a[j] = *i.add($n + j);
                            }
                            w.s(&a._val);
                            w.s(&$v::<T>::default()._val);
                            w.b(a.size() == Some($n));
                        }
                        #[export_name = concat!(stringify!($p), "_equal_", stringify!($t))]
                        pub unsafe extern "C" fn equal(i: *const T, o: *mut T, _k: u64) {
                            let mut w = W { p: o };
                            let r = vv(i, 0).is_equal(&vv(i, $n), *i.add(2 * $n));
                            w.b(r.is_some());
                            w.b(r == Some(true));
                        }
                    }
                };
            }
            vecs!(v2x1, Mat2x1, Mat1x2, 2);
            vecs!(v1x2, Mat1x2, Mat2x1, 2);
            vecs!(v3x1, Mat3x1, Mat1x3, 3);
            vecs!(v1x3, Mat1x3, Mat3x1, 3);
            vecs!(v4x1, Mat4x1, Mat1x4, 4);
            vecs!(v1x4, Mat1x4, Mat4x1, 4);

            // ---- C05 -----------------------------------------------------------------
            e!(mat3_transpose, i, w, k, {
                let m = mk3(i, 0, k & 1 == 1);
                put3(&mut w, &m.transpose());
                put3(&mut w, &m.transpose().transpose());
                let mut s = m;
                s.transpose_self();
                put3(&mut w, &s);
            });
            e!(mat4_transpose, i, w, k, {
                let m = mk4(i, 0, k & 1 == 1);
                put4(&mut w, &m.transpose());
                put4(&mut w, &m.transpose().transpose());
                let mut s = m;
                s.transpose_self();
                put4(&mut w, &s);
                put3(&mut w, &m.submat_mat3());
            });

            // ---- C06/C07 ---------------------------------------------------------------
            e!(mat3_inverse, i, w, k, {
                let r = mk3(i, 0, k & 1 == 1).inverse();
                w.b(r.is_some());
                if let Some(m) = r {
                    put3(&mut w, &m);
                }
            });
            e!(mat4_inverse, i, w, k, {
                let r = mk4(i, 0, k & 1 == 1).inverse();
                w.b(r.is_some());
                if let Some(m) = r {
                    put4(&mut w, &m);
                }
            });

            // ---- C08 -----------------------------------------------------------------
            e!(mat3_equal, i, w, k, {
                let r = mk3(i, 0, k & 1 == 1).is_equal(&mk3(i, 9, k & 2 == 2), *i.add(18));
                w.b(r.is_some());
                w.b(r == Some(true));
            });
            e!(mat4_equal, i, w, k, {
                let r = mk4(i, 0, k & 1 == 1).is_equal(&mk4(i, 16, k & 2 == 2), *i.add(32));
                w.b(r.is_some());
                w.b(r == Some(true));
            });

            // ---- quaternions -------------------------------------------------------------
            e!(quat_mul, i, w, k, {
                putq(&mut w, &qt(i, 0).mul(qt(i, 4)));
            });
            e!(quat_lin, i, w, k, {
                let a = qt(i, 0);
                let b = qt(i, 4);
                let r = match k {
                    0 => a.add(b),
                    1 => a.minus(b),
                    2 => a.scale(*i.add(4)),
                    3 => a.negate(),
                    4 => a.conjugate(),
                    5 => Quat::<T>::init(),
                    _ => Quat::<T>::default(),
                };
                putq(&mut w, &r);
            });
            e!(quat_norm, i, w, k, {
                let a = qt(i, 0);
                match k {
                    0 => w.f(a.length_squared()),
                    1 => w.f(a.length()),
                    2 => putq(&mut w, &a.normalize()),
                    3 => putq(&mut w, &Quat::<T>::init_from_vals_normalize(a._x, a._y, a._z, a._w)),
                    _ => putq(&mut w, &a.inverse()),
                }
            });
            e!(quat_rotate, i, w, k, {
                w.s(&qt(i, 0).rotate_vector(v3(i, 4))._val);
            });
            e!(quat_rotmat, i, w, k, {
                put4(&mut w, &qt(i, 0).to_rotation_matrix(k & 1 == 1));
            });
            e!(quat_from_axis, i, w, k, {
                let a = (v3(i, 0), *i.add(3));
                let q = if k & 1 == 0 {
                    Quat::<T>::init_from_axis_angle_radian(a)
                } else {
                    Quat::<T>::init_from_axis_angle_degree(a)
                };
                putq(&mut w, &q);
            });
            e!(quat_to_axis, i, w, k, {
                let (v, a) = qt(i, 0).to_axis_angle();
                w.s(&v._val);
                w.f(a);
            });
            e!(quat_axis_round, i, w, k, {
                putq(&mut w, &Quat::<T>::init_from_axis_angle_radian(qt(i, 0).to_axis_angle()));
            });
            e!(quat_axis_rotate, i, w, k, {
                // rotate axis and a vector with the quaternion built from (axis, angle)
                let q = Quat::<T>::init_from_axis_angle_radian((v3(i, 0), *i.add(3)));
                w.s(&q.rotate_vector(v3(i, 0))._val);
                w.s(&q.rotate_vector(v3(i, 4))._val);
            });
            e!(quat_plane, i, w, k, {
                let q = qt(i, 0);
                let p = v3(i, 4);
                w.s(&q.reflection_in_plane(p)._val);
                w.s(&q.parallel_component_of_plane(p)._val);
                w.s(&q.orthogonal_component_of_plane(p)._val);
            });
            e!(quat_lerp, i, w, k, {
                putq(&mut w, &Quat::<T>::interpolate_linear(qt(i, 0), qt(i, 4), *i.add(8)));
            });
            e!(quat_slerp, i, w, k, {
                putq(&mut w, &Quat::<T>::interpolate_slerp(qt(i, 0), qt(i, 4), *i.add(8)));
            });
            e!(quat_ln, i, w, k, {
                putq(&mut w, &qt(i, 0).ln());
            });
            e!(quat_pow, i, w, k, {
                putq(&mut w, &qt(i, 0).pow(*i.add(4)));
            });
            e!(quat_powpow, i, w, k, {
                let q = qt(i, 0);
                putq(&mut w, &q.pow(*i.add(4)).mul(q.pow(*i.add(5))));
                putq(&mut w, &q.pow(*i.add(4) + *i.add(5)));
            });
            e!(quat_ctor, i, w, k, {
                let (x, y, z, ww) = (*i, *i.add(1), *i.add(2), *i.add(3));
                match k {
                    0 => putq(&mut w, &Quat::<T>::init_from_vals_raw(x, y, z, ww)),
                    1 => putq(&mut w, &Quat::<T>::init_from_vals_auto_w(x, y, z)),
                    2 => putq(&mut w, &Quat::<T>::init_from_translation(v3(i, 0))),
                    3 => {
                        let d = DualQuat::<T>::init(qt(i, 0), qt(i, 4));
                        putq(&mut w, &d._rot);
                        putq(&mut w, &d._tra);
                    }
                    4 => put4(&mut w, &qt(i, 0).to_translation_matrix(true)),
                    _ => put4(&mut w, &qt(i, 0).to_translation_matrix(false)),
                }
            });
        }
    };
}
entries!(t32, f32);
entries!(t64, f64);

use crate::W;
use mazth::bound::{AxisAlignedBBox, Axis};
use mazth::i_bound::{BoundType, IBound};
use mazth::i_shape::{IShape, ShapeType};
use mazth::i_vicinity::IVicinity;
use mazth::intersect_gjk::query_intersect;
use mazth::line::Line3;
use mazth::mat::Mat3x1;
use mazth::plane::Plane;
use mazth::point::Point3;
use mazth::ray::Ray3;
use mazth::rbox::RecBox;
use mazth::sphere::Sphere;
use mazth::triprism::TriPrism;

type T = f64;

#[inline(always)]
unsafe fn sl<'a>(i: *const T, at: usize, n: usize) -> &'a [T] {
    std::slice::from_raw_parts(i.add(at), n)
}
#[inline(always)]
unsafe fn v3(i: *const T, at: usize) -> Mat3x1<T> {
    Mat3x1 { _val: [*i.add(at), *i.add(at + 1), *i.add(at + 2)] }
}
unsafe fn pt(i: *const T, at: usize) -> Point3 {
    Point3::init(sl(i, at, 3))
}
unsafe fn ray(i: *const T, at: usize) -> Ray3 {
    Ray3::init(sl(i, at, 3), sl(i, at + 3, 3))
}
unsafe fn sph(i: *const T, at: usize) -> Sphere {
    Sphere::init(sl(i, at, 3), *i.add(at + 3))
}
unsafe fn pla(i: *const T, at: usize) -> Plane {
    Plane::init(sl(i, at, 3), sl(i, at + 3, 3))
}
unsafe fn bx(i: *const T, at: usize) -> RecBox {
    RecBox::init(sl(i, at, 3), *i.add(at + 3))
}
unsafe fn lin(i: *const T, at: usize) -> Line3 {
    Line3::init(sl(i, at, 3), sl(i, at + 3, 3))
}
unsafe fn pri(i: *const T, at: usize) -> TriPrism {
    TriPrism::init(sl(i, at, 9), *i.add(at + 9))
}
fn hit(o: *mut T, r: (bool, Option<Mat3x1<T>>)) {
    let mut w = W { p: o };
    w.b(r.0);
    w.b(r.1.is_some());
    if let Some(p) = r.1 {
        w.s(&p._val);
    }
}
fn tyidx(t: ShapeType) -> T {
    match t {
        ShapeType::Point => 0.,
        ShapeType::Ray => 1.,
        ShapeType::Sphere => 2.,
        ShapeType::Plane => 3.,
        ShapeType::Box => 4.,
        ShapeType::Line => 5.,
        ShapeType::TriPrism => 6.,
        _ => 7.,
    }
}
macro_rules! e {
    ($n:ident, $i:ident, $o:ident, $k:ident, $b:block) => {
        #[export_name = concat!(stringify!($n), "_f64")]
        pub unsafe extern "C" fn $n($i: *const T, $o: *mut T, $k: u64) {
            let _ = $k;
            $b
        }
    };
}
// pair(a, b): k = 0 asks a.get_intersect(b), k = 1 asks b.get_intersect(a)
macro_rules! pair {
    ($n:ident, $a:ident, $b:ident, $at:expr) => {
        #[export_name = concat!(stringify!($n), "_f64")]
        pub unsafe extern "C" fn $n(i: *const T, o: *mut T, k: u64) {
            let a = $a(i, 0);
            let b = $b(i, $at);
            hit(o, if k & 1 == 0 { a.get_intersect(&b) } else { b.get_intersect(&a) });
        }
    };
}
pair!(point_point, pt, pt, 3);
pair!(ray_point, ray, pt, 6);
pair!(ray_ray, ray, ray, 6);
pair!(ray_sphere, ray, sph, 6);
pair!(ray_plane, ray, pla, 6);
pair!(sphere_sphere, sph, sph, 4);
pair!(sphere_point, sph, pt, 4);
pair!(sphere_plane, sph, pla, 4);
pair!(plane_point, pla, pt, 6);
pair!(box_point, bx, pt, 4);
pair!(prism_point, pri, pt, 10);
pair!(prism_line, pri, lin, 10);

// point-point / plane-point with an explicit tolerance on the first shape
e!(point_point_tol, i, o, k, {
    let mut a = pt(i, 0);
    let b = pt(i, 3);
    a.set_vicinity(*i.add(6));
    hit(o, a.get_intersect(&b));
});
e!(plane_point_tol, i, o, k, {
    let mut a = pla(i, 0);
    let b = pt(i, 6);
    a.set_vicinity(*i.add(9));
    hit(o, if k & 1 == 0 { a.get_intersect(&b) } else { b.get_intersect(&a) });
});

unsafe fn with(i: *const T, kind: u64, f: &mut dyn FnMut(&dyn IShape)) {
    match kind {
        0 => f(&pt(i, 0)),
        1 => f(&ray(i, 0)),
        2 => f(&sph(i, 0)),
        3 => f(&pla(i, 0)),
        4 => f(&bx(i, 0)),
        5 => f(&lin(i, 0)),
        _ => f(&pri(i, 0)),
    }
}
// ---- C18 / C38 -------------------------------------------------------------------
e!(shape_bound, i, o, k, {
    let mut w = W { p: o };
    with(i, k, &mut |s: &dyn IShape| {
        let b = s.get_bound();
        w.b(match b.get_type() {
            BoundType::AxisAlignBox => true,
            _ => false,
        });
        w.s(&b.get_bound_data()[0..6]);
    });
});
e!(default_bound, i, o, k, {
    let _ = i;
    let mut w = W { p: o };
    let b = AxisAlignedBBox::default();
    w.s(&b._bound_lower);
    w.s(&b._bound_upper);
});
e!(shape_data, i, o, k, {
    let mut w = W { p: o };
    with(i, k, &mut |s: &dyn IShape| {
        w.f(tyidx(s.get_type()));
        let d = s.get_shape_data();
        w.f(d.len() as T);
        w.s(&d);
    });
});
e!(prism_fields, i, o, k, {
    let mut w = W { p: o };
    let p = pri(i, 0);
    for j in 0..3 {
        w.s(&p._tri_base[j]._val);
    }
    for j in 0..3 {
        w.s(&p._tri_base2[j]._val);
    }
    w.s(&p._normal_height._val);
});
e!(shape_own_bound, i, o, k, {
    let mut w = W { p: o };
    let same = |a: &dyn IBound, b: &AxisAlignedBBox| a as *const dyn IBound as *const u8 == b as *const AxisAlignedBBox as *const u8;
    w.b(match k {
        0 => {
            let s = pt(i, 0);
            same(s.get_bound(), &s._bound)
        }
        1 => {
            let s = ray(i, 0);
            same(s.get_bound(), &s._bound)
        }
        2 => {
            let s = sph(i, 0);
            same(s.get_bound(), &s._bound)
        }
        3 => {
            let s = pla(i, 0);
            same(s.get_bound(), &s._bound)
        }
        4 => {
            let s = bx(i, 0);
            same(s.get_bound(), &s._bound)
        }
        5 => {
            let s = lin(i, 0);
            same(s.get_bound(), &s._bound)
        }
        _ => {
            let s = pri(i, 0);
            same(s.get_bound(), &s._bound)
        }
    });
});
// ---- bounds ------------------------------------------------------------------------
unsafe fn bb(i: *const T, at: usize) -> AxisAlignedBBox {
    AxisAlignedBBox { _bound_lower: v3(i, at)._val, _bound_upper: v3(i, at + 3)._val }
}
e!(aabb_intersect, i, o, k, {
    let mut w = W { p: o };
    let (a, b) = (bb(i, 0), bb(i, 6));
    w.b(if k == 0 { a.intersect(&b) } else { b.intersect(&a) });
});
e!(aabb_data, i, o, k, {
    let mut w = W { p: o };
    w.s(&bb(i, 0).get_bound_data());
});
e!(aabb_union, i, o, k, {
    // receiver = box 0, list = boxes 1..=k&7 (reversed when bit 3 is set)
    let mut w = W { p: o };
    let mut r = bb(i, 0);
    let (b1, b2, b3, b4) = (bb(i, 6), bb(i, 12), bb(i, 18), bb(i, 24));
    match k {
        0 => r.get_union(&[]),
        1 => r.get_union(&[&b1]),
        2 => r.get_union(&[&b1, &b2]),
        3 => r.get_union(&[&b1, &b2, &b3]),
        4 => r.get_union(&[&b1, &b2, &b3, &b4]),
        10 => r.get_union(&[&b2, &b1]),
        _ => r.get_union(&[&b3, &b2, &b1]),
    }
    w.s(&r._bound_lower);
    w.s(&r._bound_upper);
});
e!(aabb_union_many, i, o, k, {
    // receiver = box 0, list = boxes 1..=k
    let mut w = W { p: o };
    let mut r = bb(i, 0);
    let bs: Vec<AxisAlignedBBox> = (0..k as usize).map(|j| bb(i, 6 + 6 * j)).collect();
    let refs: Vec<&dyn IBound> = bs.iter().map(|b| b as &dyn IBound).collect();
    r.get_union(&refs);
    w.s(&r._bound_lower);
    w.s(&r._bound_upper);
});
e!(aabb_centroid, i, o, k, {
    let mut w = W { p: o };
    w.s(&bb(i, 0).get_centroid());
});
e!(aabb_longest, i, o, k, {
    let mut w = W { p: o };
    let (a, x) = bb(i, 0).get_longest_axis();
    w.f(match a {
        Axis::X => 0.,
        Axis::Y => 1.,
        Axis::Z => 2.,
    });
    w.f(x);
});
// ---- vicinity -----------------------------------------------------------------------
unsafe fn vic<S: IVicinity<T>>(i: *const T, o: *mut T, mut s: S) {
    let mut w = W { p: o };
    let (a, b, e) = (*i, *i.add(1), *i.add(2));
    w.b(s.within_vicinity(a, b));
    s.set_vicinity(e);
    w.b(s.within_vicinity(a, b));
}
e!(vicinity, i, o, k, {
    let z = [0f64, 0., 0., 1., 0., 0., 0., 1., 0., 1.];
    let p = z.as_ptr();
    match k {
        0 => vic(i, o, pt(p, 0)),
        1 => vic(i, o, ray(p, 0)),
        2 => vic(i, o, sph(p, 0)),
        3 => vic(i, o, pla(p, 0)),
        4 => vic(i, o, bx(p, 0)),
        5 => vic(i, o, lin(p, 0)),
        _ => vic(i, o, pri(p, 0)),
    }
});
unsafe fn vic2<S: IVicinity<T>>(i: *const T, o: *mut T, mut s: S) {
    let mut w = W { p: o };
    s.set_vicinity(*i.add(2));
    s.set_vicinity(*i.add(3));
    w.b(s.within_vicinity(*i, *i.add(1)));
}
e!(vicinity_twice, i, o, k, {
    let z = [0f64, 0., 0., 1., 0., 0., 0., 1., 0., 1.];
    let p = z.as_ptr();
    match k {
        0 => vic2(i, o, pt(p, 0)),
        1 => vic2(i, o, ray(p, 0)),
        2 => vic2(i, o, sph(p, 0)),
        3 => vic2(i, o, pla(p, 0)),
        4 => vic2(i, o, bx(p, 0)),
        5 => vic2(i, o, lin(p, 0)),
        _ => vic2(i, o, pri(p, 0)),
    }
});
// ---- support / gjk -------------------------------------------------------------------
e!(support, i, o, k, {
    // direction first, then the shape
    let mut w = W { p: o };
    let v = v3(i, 0);
    with(i.add(3), k, &mut |s: &dyn IShape| {
        let r = s.get_support(&v);
        w.b(r.is_some());
        if let Some(p) = r {
            w.s(&p._val);
        }
    });
});
e!(gjk, i, o, k, {
    let mut w = W { p: o };
    let (a, b) = (sph(i, 0), sph(i, 4));
    let r = if k == 0 { query_intersect(&a, &b) } else { query_intersect(&b, &a) };
    w.b(r.is_some());
    w.b(r == Some(true));
});

//! Suite `static`: statically sized matrices and vectors, several scalar types.
include!("../smat_core.rs");
fn all<T: Tt>(e: &J, d: (usize, usize, usize)) -> Box<dyn Session> {
    dims!(
        T,
        e,
        d,
        (1, 1, 1),
        (2, 2, 2),
        (1, 2, 2),
        (2, 1, 2),
        (2, 2, 1),
        (1, 3, 2),
        (2, 3, 1),
        (3, 1, 2),
        (2, 3, 4),
        (4, 3, 2),
        (3, 3, 3),
        (4, 4, 4),
        (0, 2, 2),
        (2, 0, 3),
        (2, 2, 0),
        (1, 8, 1),
        (9, 8, 2),
        (1, 130, 1)
    )
}
fn wide<T: Tt>(e: &J, d: (usize, usize, usize)) -> Box<dyn Session> {
    dims!(
        T,
        e,
        d,
        (1, 1, 1),
        (2, 2, 2),
        (2, 3, 4),
        (3, 3, 3),
        (2, 9, 16),
        (16, 17, 3),
        (1, 33, 2),
        (3, 2, 33),
        (65, 2, 3),
        (2, 65, 1),
        (1, 2, 64),
        (12, 12, 12),
        (1, 257, 1),
        (257, 1, 1)
    )
}
fn huge<T: Tt>(e: &J, d: (usize, usize, usize)) -> Box<dyn Session> {
    dims!(
        T,
        e,
        d,
        (33, 34, 35),
        (2, 65, 64),
        (64, 3, 2),
        (1, 1025, 1),
        (1, 128, 1),
        (100, 2, 7),
        (20, 20, 20),
        (40, 40, 40),
        (70, 66, 3)
    )
}
fn mixed<T: Tt>(e: &J, d: (usize, usize, usize)) -> Box<dyn Session> {
    dims!(
        T,
        e,
        d,
        (2, 2, 2),
        (2, 3, 4),
        (5, 9, 4),
        (8, 8, 8),
        (3, 17, 3),
        (2, 33, 2),
        (1, 65, 1),
        (1, 130, 1),
        (1, 257, 2),
        (130, 1, 2)
    )
}
fn some<T: Tt>(e: &J, d: (usize, usize, usize)) -> Box<dyn Session> {
    dims!(T, e, d, (2, 2, 2), (2, 3, 4))
}

fn main() {
    main_loop(|e| {
        let t = e.a("dim");
        let d = (t[0].us(), t[1].us(), t[2].us());
        match e.s("impl") {
            "free" => all::<Free>(e, d),
            "i32" => wide::<i32>(e, d),
            "gf2" => some::<Gf<2>>(e, d),
            "gf3" => some::<Gf<3>>(e, d),
            "gi" => some::<Gi>(e, d),
            "gf7" => huge::<Gf<7>>(e, d),
            "f64" => some::<f64>(e, d),
            "f32" => some::<f32>(e, d),
            "i8" => some::<i8>(e, d),
            "i64" => some::<i64>(e, d),
            "m2" => mixed::<M2>(e, d),
            o => panic!("harness: unknown impl {o}"),
        }
    })
}

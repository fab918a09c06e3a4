//! Suite `static`, two scalar types, many dimensions.
include!("../smat_core.rs");

fn dims<T: Tt>(e: &J, d: (usize, usize, usize)) -> Box<dyn Session> {
    dims!(
        T,
        e,
        d,
        (1, 4, 1),
        (1, 5, 1),
        (1, 6, 1),
        (1, 7, 1),
        (1, 8, 1),
        (1, 9, 1),
        (1, 10, 1),
        (1, 11, 1),
        (1, 12, 1),
        (1, 13, 1),
        (1, 14, 1),
        (1, 15, 1),
        (1, 16, 1),
        (1, 17, 1),
        (1, 18, 1),
        (1, 19, 1),
        (1, 20, 1),
        (1, 21, 1),
        (1, 22, 1),
        (1, 23, 1),
        (1, 24, 1),
        (1, 25, 1),
        (1, 26, 1),
        (1, 27, 1),
        (1, 28, 1),
        (1, 29, 1),
        (1, 30, 1),
        (1, 31, 1),
        (1, 32, 1),
        (1, 33, 1),
        (1, 34, 1),
        (1, 35, 1),
        (1, 47, 1),
        (1, 48, 1),
        (1, 49, 1),
        (1, 63, 1),
        (1, 64, 1),
        (1, 66, 1),
        (1, 95, 1),
        (1, 96, 1),
        (1, 127, 1),
        (1, 128, 1),
        (1, 129, 1),
        (1, 255, 1),
        (1, 256, 1),
        (2, 3, 5),
        (2, 3, 6),
        (2, 3, 7),
        (2, 3, 10),
        (2, 3, 11),
        (2, 3, 15),
        (2, 3, 18),
        (2, 3, 19),
        (2, 3, 31),
        (5, 2, 3),
        (6, 2, 3),
        (7, 2, 3),
        (10, 2, 3),
        (11, 2, 3),
        (15, 2, 3),
        (18, 2, 3),
        (19, 2, 3),
        (31, 2, 3),
        (2, 5, 3),
        (2, 6, 3),
        (2, 7, 3),
        (2, 10, 3),
        (2, 11, 3),
        (2, 15, 3),
        (2, 18, 3),
        (2, 19, 3),
        (2, 31, 3),
        (2, 63, 3),
        (5, 5, 5),
        (6, 6, 6),
        (7, 7, 7),
        (9, 9, 9),
        (10, 10, 10),
        (11, 11, 11),
        (5, 6, 7),
        (6, 7, 5),
        (7, 5, 6),
        (15, 15, 2),
        (3, 14, 13)
    )
}

fn main() {
    main_loop(|e| {
        let t = e.a("dim");
        let d = (t[0].us(), t[1].us(), t[2].us());
        match e.s("impl") {
            "free" => dims::<Free>(e, d),
            "m2" => dims::<M2>(e, d),
            o => panic!("harness: unknown impl {o}"),
        }
    })
}

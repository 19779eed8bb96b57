macro_rules! entries {
    ($($name:ident = $f:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $f }
        )*
        #[allow(dead_code)]
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($name), || { $f })),*];
    };
}
entries! {
    h_build_structure = build::structure();
    h_trav = trav::trav();
    h_closest = trav::closest();
    h_e2e = trav::e2e();
    h_build_bounds = build::bounds();
    h_slab = prim::slab_test();
    h_ray = prim::ray_ops();
    h_aabb = prim::aabb_ops();
    h_morton = prim::morton();
    h_tri = prim::triangle();
    h_split = prim::tri_split();
    h_collapse = tree::collapse();
    h_refit = tree::refit();
    h_validation = tree::validation();
    h_deep = tree::deep();
    h_schedule = tree::schedule();
    h_race = tree::race();
    h_ffi = ffi::ffi();
}

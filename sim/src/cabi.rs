//! The C interface as a program compiled against it sees it: the exported symbols, argument types and
//! record layouts, spelled out here rather than taken from the Rust types of the crate under test.  What
//! a C program relies on is this; how the crate names and arranges things on the Rust side is its own.
#![allow(non_camel_case_types)]

// the rlib that defines the symbols below
use cavalier_contours_ffi as _;

#[repr(C)]
pub struct cavc_pline {
    _opaque: [u8; 0],
}

#[repr(C)]
pub struct cavc_plinelist {
    _opaque: [u8; 0],
}

#[repr(C)]
pub struct cavc_aabbindex {
    _opaque: [u8; 0],
}

#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct cavc_vertex {
    pub x: f64,
    pub y: f64,
    pub bulge: f64,
}

impl cavc_vertex {
    pub fn new(x: f64, y: f64, bulge: f64) -> Self {
        cavc_vertex { x, y, bulge }
    }
}

#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct cavc_pline_parallel_offset_o {
    pub aabb_index: *const cavc_aabbindex,
    pub pos_equal_eps: f64,
    pub slice_join_eps: f64,
    pub offset_dist_eps: f64,
    pub handle_self_intersects: u8,
}

#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct cavc_pline_boolean_o {
    pub pline1_aabb_index: *const cavc_aabbindex,
    pub pos_equal_eps: f64,
}

unsafe extern "C" {
    pub fn cavc_pline_parallel_offset_o_init(options: *mut cavc_pline_parallel_offset_o) -> i32;
    pub fn cavc_pline_boolean_o_init(options: *mut cavc_pline_boolean_o) -> i32;
    pub fn cavc_pline_create(vertexes: *const cavc_vertex, n_vertexes: u32, is_closed: u8, pline: *mut *const cavc_pline) -> i32;
    pub fn cavc_pline_f(pline: *mut cavc_pline);
    pub fn cavc_pline_reserve(pline: *mut cavc_pline, additional: u32) -> i32;
    pub fn cavc_pline_clone(pline: *const cavc_pline, cloned: *mut *const cavc_pline) -> i32;
    pub fn cavc_pline_get_is_closed(pline: *const cavc_pline, is_closed: *mut u8) -> i32;
    pub fn cavc_pline_set_is_closed(pline: *mut cavc_pline, is_closed: u8) -> i32;
    pub fn cavc_pline_get_vertex_count(pline: *const cavc_pline, count: *mut u32) -> i32;
    pub fn cavc_pline_get_vertex_data(pline: *const cavc_pline, vertex_data: *mut cavc_vertex) -> i32;
    pub fn cavc_pline_set_vertex_data(pline: *mut cavc_pline, vertex_data: *const cavc_vertex, n_vertexes: u32) -> i32;
    pub fn cavc_pline_clear(pline: *mut cavc_pline) -> i32;
    pub fn cavc_pline_add(pline: *mut cavc_pline, x: f64, y: f64, bulge: f64) -> i32;
    pub fn cavc_pline_get_vertex(pline: *const cavc_pline, position: u32, vertex: *mut cavc_vertex) -> i32;
    pub fn cavc_pline_set_vertex(pline: *mut cavc_pline, position: u32, vertex: cavc_vertex) -> i32;
    pub fn cavc_pline_remove(pline: *mut cavc_pline, position: u32) -> i32;
    pub fn cavc_pline_eval_path_length(pline: *const cavc_pline, path_length: *mut f64) -> i32;
    pub fn cavc_pline_eval_area(pline: *const cavc_pline, area: *mut f64) -> i32;
    pub fn cavc_pline_eval_wn(pline: *const cavc_pline, x: f64, y: f64, winding_number: *mut i32) -> i32;
    pub fn cavc_pline_invert_direction(pline: *mut cavc_pline) -> i32;
    pub fn cavc_pline_scale(pline: *mut cavc_pline, scale_factor: f64) -> i32;
    pub fn cavc_pline_translate(pline: *mut cavc_pline, x_offset: f64, y_offset: f64) -> i32;
    pub fn cavc_pline_remove_repeat_pos(pline: *mut cavc_pline, pos_equal_eps: f64) -> i32;
    pub fn cavc_pline_remove_redundant(pline: *mut cavc_pline, pos_equal_eps: f64) -> i32;
    pub fn cavc_pline_eval_extents(pline: *const cavc_pline, min_x: *mut f64, min_y: *mut f64, max_x: *mut f64, max_y: *mut f64) -> i32;
    pub fn cavc_pline_parallel_offset(pline: *const cavc_pline, offset: f64, options: *const cavc_pline_parallel_offset_o, result: *mut *const cavc_plinelist) -> i32;
    pub fn cavc_pline_boolean(pline1: *const cavc_pline, pline2: *const cavc_pline, operation: u32, options: *const cavc_pline_boolean_o, pos_plines: *mut *const cavc_plinelist, neg_plines: *mut *const cavc_plinelist) -> i32;
    pub fn cavc_pline_create_approx_aabbindex(pline: *const cavc_pline, aabbindex: *mut *const cavc_aabbindex) -> i32;
    pub fn cavc_pline_create_aabbindex(pline: *const cavc_pline, aabbindex: *mut *const cavc_aabbindex) -> i32;
    pub fn cavc_aabbindex_f(aabbindex: *mut cavc_aabbindex);
    pub fn cavc_aabbindex_get_extents(aabbindex: *const cavc_aabbindex, min_x: *mut f64, min_y: *mut f64, max_x: *mut f64, max_y: *mut f64) -> i32;
    pub fn cavc_plinelist_f(plinelist: *mut cavc_plinelist);
    pub fn cavc_plinelist_get_count(plinelist: *const cavc_plinelist, count: *mut u32) -> i32;
    pub fn cavc_plinelist_get_pline(plinelist: *const cavc_plinelist, position: u32, pline: *mut *const cavc_pline) -> i32;
    pub fn cavc_plinelist_pop(plinelist: *mut cavc_plinelist, pline: *mut *const cavc_pline) -> i32;
    pub fn cavc_plinelist_take(plinelist: *mut cavc_plinelist, position: u32, pline: *mut *const cavc_pline) -> i32;
}

/// options as a C program gets them: a record of no particular content, initialised by the interface
impl Default for cavc_pline_parallel_offset_o {
    fn default() -> Self {
        let mut o = cavc_pline_parallel_offset_o::garbage();
        unsafe { cavc_pline_parallel_offset_o_init(&mut o) };
        o
    }
}

impl cavc_pline_parallel_offset_o {
    pub fn garbage() -> Self {
        cavc_pline_parallel_offset_o {
            aabb_index: 0xDEAD_0000_0000_0008u64 as _,
            pos_equal_eps: 77.0,
            slice_join_eps: -78.0,
            offset_dist_eps: f64::NAN,
            handle_self_intersects: 9,
        }
    }
}

impl Default for cavc_pline_boolean_o {
    fn default() -> Self {
        let mut o = cavc_pline_boolean_o::garbage();
        unsafe { cavc_pline_boolean_o_init(&mut o) };
        o
    }
}

impl cavc_pline_boolean_o {
    pub fn garbage() -> Self {
        cavc_pline_boolean_o { pline1_aabb_index: 0xDEAD_0000_0000_0008u64 as _, pos_equal_eps: 77.0 }
    }
}

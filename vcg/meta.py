"""Per-property metadata."""
ASSUMPTIONS = [
    "floating-point arithmetic is treated as exact real arithmetic with infinities and NaN; rounding, overflow to infinity, signed zeros beyond 1/0 and f32 narrowing are not modelled",
    "library functions (f64 intrinsics, Vec, slices, iterators, Option, Box, Arc, fastrand ranges, image buffers) behave as their models in vcg/models.py",
    "rayon and Mutex: every spawned task runs exactly once, in some order, with exclusive access where it locks",
    "loops without a decreasing measure (rejection sampling) are verified for partial correctness",
    "the rustc front end and MIR construction are trusted; the MIR interpreter vcg/ is trusted",
]
LIB_TRUST = ["vcg (MIR symbolic executor, verification-condition generator)", "z3", "cvc5", "rustc MIR of the current sources"]
P = lambda **kw: dict({"level": "proof"}, **kw)
META = {
    "P01": P(), "P07": P(), "P02": P(), "P03": P(), "P04": P(), "P05": P(), "P06": P(),
    "P08": P(), "P09": P(), "P12": P(), "P13": P(), "P14": P(), "P10": P(), "P11": P(), "P17": P(), "P18": P(), "P19": P(), "P20": P(), "P15": P(), "P16": P(), "P21": P(), "P22": P(), "P23": P(),
}
# what stands behind an interface contract: the contracts that prove it for every implementation, or that it leaves the result open
OPEN = "leaves the result open (any value), no assumption"
INTERFACE = [
    ("Hittable>::hit (world)", OPEN), ("Hittable>::hit", "any hit behaviour that respects the interval; each shape's is proved under P04-P07"),
    ("Hittable>::bounding_box", "any box around the object's hits; proved for each shape under P02"),
    ("Hittable>::get_lights", "any number of lights; proved for each shape under P22"),
    ("Hittables as std::clone::Clone", "a copy is the same object; proved for each shape under P03 (copies)"),
    ("Materials as std::clone::Clone", "a copy is the same material; proved for each material under P13 (copies: material)"),
    ("Hittable>::pdf_value", OPEN), ("Hittable>::random_direction", OPEN),
    ("get_transformed_normal", "materials without a normal map; normal maps are proved under P13"),
    ("Material>::scatter", OPEN), ("Material>::is_light", OPEN), ("Texture>::color", OPEN),
    ("Shader>::shade", OPEN), ("following a ray", "the measure decreases; proved under P14 (one step of a path)"),
    ("abstract basis", "any orthonormal basis about the direction; proved under P11 (Onb::new is orthonormal)"),
    ("abstract local coordinates", "proved under P11 (Onb::local)"),
    ("abstract density", "any non-negative density; proved for each under P12"),
    ("post_process", "any result, the accumulators as the guarantee says; the order of the steps is what is proved (P22)"),
    ("Camera::new", "which camera is made is proved under P10"), ("Camera::get_ray", "the ray of the image position; proved under P10"),
    ("get_attenuated_color", "proved under P14 (a ray's colour) and P13 (emission)"),
    ("to_rgb_color", "proved under P17"), ("Renderer::render", "proved under P15, P16, P22 (the rendering loop)"),
    ("needs albedo and normals", OPEN), ("convex boundary", "part of the statement: the boundary is crossed at most twice"),
    ("new_with_tex_coords", "a triangle by its arguments; what they make of it is proved under P06"), ("Quad::new", "a quad by its arguments; what they make of it is proved in the same check (Quad::hit)"),
    ("to_normal_map", "proved under P19"), ("Bvh::new", "a group by its members; proved under P01-P03"), ("Lambertian::new", "a material by its arguments; proved under P13"),
    ("ImageMap::load", "proved under P18 (an image file becomes a texture)"), ("load_normal_texture", "proved under P19 (file lemmas)"),
]
def interface(name):
    for k, w in INTERFACE:
        if k in name: return "interface contract: %s -- %s" % (name.replace("abstract ", "").replace("loader: ", ""), w)
    return "assumed contract: " + name
NA = {}

"""Writes /verif/properties.jsonl (the property list is kept here in a readable form)."""
import json, os
H = "src/hittable/"
P = []
def p(id, title, st, why, files, mech, over=("inputs",), text=None):
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": list(over), "text": text or "every finite input value within the stated domain"},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}})

p("P01", "The acceleration structure finds exactly the nearest hit of all its objects",
  "For every collection of objects, every ray with a finite non-zero direction and every parameter interval, querying the bounding volume hierarchy built from the collection reports a hit exactly when some object of the collection is hit inside the interval. The reported hit is that of an object whose hit parameter is minimal over all the objects, with that object's complete hit record. Objects whose box the ray only grazes in a single point are excluded.",
  "The tests build a handful of trees and compare rendered images within a tolerance; they cannot cover all object sets, split decisions, orders of children and intervals.",
  [H + "bvh.rs", "src/geo/mod.rs"], [("ordered descent that narrows the interval", H + "bvh.rs: Bvh::hit, BvhItem::hit"), ("slab test", "src/geo/mod.rs: Aabb::hit")],
  text="every list of objects (any length, any mixture of kinds), every ray, every interval")
p("P02", "Bounding boxes enclose their shapes; the box test accepts every crossing ray",
  "Every object's bounding box contains every point of its surface, also after transformation, the box of a group contains the boxes of all its members, and padding or shifting keeps that enclosure. The ray-box test answers yes for every ray that crosses the interior of the box at a non-negative parameter and no for every ray that misses the closed box. Boxes of flat shapes are padded to a positive thickness.",
  "An object cut by its own box disappears only for particular rays, orientations or signs of coordinates, which sampled scenes hardly contain.",
  ["src/geo/mod.rs", H + "sphere.rs", H + "quad.rs", H + "triangle.rs", H + "bvh.rs", H + "constant_medium.rs", "src/util/interval.rs"],
  [("box construction", "src/geo/mod.rs: Aabb::new_from_2_points, new_from_3_points, combine_aabbs, pad_if_needed"), ("slab test", "src/geo/mod.rs: Aabb::hit")],
  text="every shape, transformation, and ray with a finite non-zero direction")
p("P03", "The acceleration structure keeps every object and every light exactly once",
  "For every list of objects the bounding volume hierarchy is built without panic or unbounded recursion, whatever the positions of the objects (also all equal ones). Every object of the list ends up in exactly one leaf, and the lights reported by the tree are exactly the lights of the list with their multiplicity. The tree of an empty list is never hit and has no light.",
  "A lost or duplicated object needs a particular number or arrangement of objects; tests use a few fixed scenes.",
  [H + "bvh.rs"], [("recursive split of the slice", H + "bvh.rs: Bvh::new_bvh, sort_hittables_by_center and the split helpers"), ("light collection", H + "bvh.rs: get_lights")],
  text="every list of objects")
p("P04", "Sphere intersection returns the nearest surface point in the interval",
  "For every sphere of positive radius, every ray with a non-zero direction and every interval, the query reports a hit exactly when the ray's line meets the sphere at a parameter inside the interval, and the reported parameter is the smallest such. The hit point lies on the ray and on the sphere, the normal has unit length, is radial and points against the ray, and the front-face flag is set exactly when the ray arrives from outside. The texture coordinates are the normalised longitude and latitude of the outward normal, and the material is the sphere's.",
  "Three fixed rays are tested; roots on the interval border, origins inside the sphere and non-unit directions are continuous families.",
  [H + "sphere.rs", H + "mod.rs"], [("quadratic root selection", H + "sphere.rs: Sphere::hit")],
  text="every sphere, ray and interval (finite or unbounded)")
p("P05", "Quad intersection and box construction are exact",
  "For every parallelogram (also transformed ones), every ray not parallel to it and every interval, the query reports a hit exactly when the ray crosses the closed parallelogram inside the interval; hit point, parameter and plane coordinates describe the same point, and the unit normal points against the ray with a matching front-face flag. A box built from two opposite corners consists of six faces that together are the surface of the cuboid.",
  "The tests hit one or two axis-parallel quads; edges, orientations and transformations are continuous families.",
  [H + "quad.rs"], [("plane coordinates", H + "quad.rs: Quad::hit"), ("six faces", H + "quad.rs: Quad::new_box")],
  text="every non-degenerate quad, transformation, ray with |n.d| above the parallel threshold, interval")
p("P06", "Triangle intersection is exact and interpolates texture coordinates",
  "For every non-degenerate triangle (also transformed), every ray whose determinant is above the parallel threshold and every interval, the query reports a hit exactly when the ray crosses the closed triangle inside the interval. The hit point, its parameter and the barycentric coordinates describe the same point, the texture coordinates are the barycentric interpolation of those of the vertices, and the unit geometric normal points against the ray with a matching front-face flag.",
  "Only a few fixed triangles are tested; a defect in one barycentric condition shows only for rays in one region of the plane.",
  [H + "triangle.rs"], [("Moeller-Trumbore intersection", H + "triangle.rs: Triangle::hit")],
  text="every triangle, ray and interval")
p("P07", "A constant medium scatters exactly along the ray's way through its boundary",
  "A ray query against a constant-density medium reports a hit only at a parameter inside the interval and inside the boundary object, at the depth at which the exponentially distributed free path of the given density ends; rays that miss the boundary, and rays whose free path is longer than their way inside, are not scattered. The probability of scattering over a way of length L inside the boundary is 1-exp(-density*L), independent of the length of the ray's direction vector. It also holds for rays that start inside the boundary, whatever convex object bounds the medium.",
  "The free path is random: an image test cannot separate a wrong distribution from noise, and start points inside need particular rays.",
  [H + "constant_medium.rs"], [("free path sampling", H + "constant_medium.rs: ConstantMedium::hit")],
  text="every boundary, density, ray, interval and random draw")
p("P08", "Transformations compose in order and move points, directions and shapes alike",
  "Translation moves points by its offset and leaves directions unchanged; rotation about a coordinate axis turns by exactly the given angle in degrees (about x from z towards y, about y from z towards x, about z from y towards x) and keeps lengths and the axis coordinate; scaling multiplies coordinates, also of directions; a sequence applies its parts in list order; the neutral transformation changes nothing. Shapes built under a transformation are the images of the untransformed shapes.",
  "Tests use isolated transformations and special angles; order and direction handling show only in compositions.",
  ["src/geo/transformation.rs", H + "quad.rs", H + "triangle.rs"], [("Transformer implementations", "src/geo/transformation.rs")],
  text="every vector, angle, scale, offset and list of transformations")
p("P09", "Reflection, refraction and specular scattering obey the laws of optics",
  "Reflection mirrors the direction at the surface: the tangential part is kept and the normal part reversed. Refraction of unit directions obeys Snell's law, stays in the plane of incidence, lies on the far side and has unit length. Metal scatters into the mirror direction plus at most its fuzz; a dielectric reflects under total internal reflection, uses the inverse index when entering from outside, chooses between reflection and refraction by Schlick's reflectance, and neither of the two adds or removes energy beyond its texture colour.",
  "Only single directions are tested; total reflection and grazing angles form thin regions and the choice is random.",
  ["src/geo/vec3.rs", "src/material/mod.rs"], [("reflect and refract", "src/geo/vec3.rs"), ("Metal and Dielectric scatter", "src/material/mod.rs")],
  text="every unit direction, unit normal, index of refraction, fuzz and random draw")
p("P10", "Camera rays pass through the pinhole image plane and converge on the focus plane",
  "For every camera configuration with distinct eye and target and an up vector not parallel to the view direction, the ray for normalised image coordinates starts on the lens disc around the eye, perpendicular to the view direction and of the given aperture diameter, and passes through the point of the focus plane that the coordinates select. The centre of the image is the target direction, the vertical extent subtends the given field of view, the aspect ratio fixes the horizontal extent, and increasing coordinates go right and up in a right-handed frame. With zero aperture all rays start in the eye point.",
  "Only default cameras are rendered in tests; lens offset and focus distance combine with orientation continuously.",
  ["src/camera.rs"], [("viewport frame", "src/camera.rs: Camera::new, get_ray")],
  text="every camera configuration, image size, image coordinate and random draw")
p("P11", "Sampling primitives stay inside their domains",
  "Random unit vectors have unit length, hemisphere and cosine-weighted directions lie on the outer side of their normal, disc samples lie in the unit disc, and random intervals are respected. The orthonormal basis built from any non-zero vector is orthonormal with its last axis along the vector, so local coordinates keep length and angles.",
  "The tests draw a few samples per function; the domain limits must hold for every draw.",
  ["src/random.rs", "src/geo/mod.rs", "src/geo/vec3.rs", "src/pdf.rs"], [("samplers", "src/geo/vec3.rs: random_*"), ("orthonormal basis", "src/geo/mod.rs: Onb")],
  text="every normal vector and every sequence of random draws")
p("P12", "Light sampling directions and densities belong together",
  "For every light shape and every point from which it is visible, a sampled direction hits that light, and its density is the squared distance over (cosine at the light times area) for flat lights and the inverse of the subtended solid angle for spheres, zero for directions that miss. Combining several lights averages their densities and samples each with equal probability, and the mixture with the material density is their mean; densities are never negative. Cosine and uniform sphere densities are cos/pi and 1/(4 pi).",
  "A wrong density leaves images plausible, only biased; tests compare noisy images with a tolerance.",
  ["src/pdf.rs", H + "mod.rs", H + "sphere.rs", H + "quad.rs", H + "triangle.rs"], [("pdf_value and random_direction", H + "*.rs"), ("mixture", "src/pdf.rs")],
  text="every light, origin outside it, direction and random draw")
p("P13", "Materials scatter with the weights of their reflectance model",
  "Diffuse surfaces scatter with cosine-weighted density over the outer hemisphere and isotropic media uniformly over the sphere, both with the texture colour as attenuation and with a scattering density equal to the density of their sampling. Lights do not scatter and emit their texture colour on the front side only, attenuated by distance as configured; all other materials emit nothing. A blend behaves as its first material with probability one minus the blend factor and otherwise as its second, and a diffuse light is a light whereas diffuse, metallic, dielectric and isotropic materials are not. A normal map replaces the surface normal by its vector in the local basis, whose axes are unit vectors along growing texture coordinates and the geometric normal.",
  "Choice and weights are random and only visible as a bias of a noisy image.",
  ["src/material/mod.rs", "src/pdf.rs"], [("Material implementations", "src/material/mod.rs")],
  text="every material, hit and random draw")
p("P14", "Path tracing composes emission and scattering to a bounded depth, without NaN",
  "The colour of a camera ray is the background where nothing is hit, the emission at a surface that does not scatter, and otherwise the colour of the scattered ray times the surface's attenuation, and for diffuse scattering times the scattering weight. A light's attenuation factor and the distance travelled along the whole path come back with the colour, and the distance is independent of how long the direction vectors of the rays are. No path is followed beyond the configured depth, and a diffusely scattered contribution is never NaN and never above the limit of three per channel. The albedo and normal shaders report the surface colour and the normal at the first hit.",
  "Depth bound, weights and the filter concern random deep paths that a test image averages out.",
  ["src/renderer/shader.rs", "src/renderer/mod.rs"], [("PathTracingShader::shade", "src/renderer/shader.rs"), ("recursion bound and filter", "src/renderer/mod.rs: ray_color, filter_color_value")],
  text="every scene, hit record, depth and random draw")
p("P15", "Every pixel accumulates every sample exactly once, in its own place",
  "For every image size and sample count, each pixel of the result is the average of exactly the configured number of samples, each taken through a position inside that very pixel's area, with row zero at the top. No pixel's samples leak into another, whatever the order in which worker tasks run, and the result has exactly the requested size.",
  "Test images are compared with a score that tolerates shifted, doubled or dropped samples, and worker scheduling is not controlled.",
  ["src/renderer/mod.rs"], [("row tasks and accumulation", "src/renderer/mod.rs: render, sample loops")], over=("inputs", "schedules"),
  text="every image size, sample count and schedule of the row tasks")
p("P16", "Rendering reports monotone progress, delivers a final image and stops on abort",
  "A render sends one progress report per completed sample round with strictly increasing fractions ending at one, and images in exactly the reports the chosen strategy asks for, in particular with the last one. After an abort request no further round is started, and a finished or aborted render leaves no work behind and reports no error.",
  "Tests read the whole stream of one or two renders; message order under abort and all strategies are not covered.",
  ["src/renderer/mod.rs", "src/lib.rs"], [("progress and abort handling", "src/renderer/mod.rs: Renderer::render")], over=("inputs", "schedules", "configurations"),
  text="every sample count, strategy and point in time of the abort request")
p("P17", "Tone mapping turns any accumulated colour into valid bytes, monotonically",
  "The conversion of a summed linear colour to an output pixel divides by the number of samples, applies square-root gamma and clamps, so that zero or anything negative or undefined gives 0, an average of one or above gives 255, and brighter input never gives a darker byte. Channels are independent and keep their places.",
  "Four colours are tested; monotonicity and clamping are statements over the continuum.",
  ["src/util/rgb_color.rs"], [("rgb conversion", "src/util/rgb_color.rs")],
  text="every non-negative colour and sample count")
p("P18", "Texture lookup always stays inside the image and wraps coordinates",
  "Every lookup with any finite texture coordinates, negative and beyond one included, returns the colour of an existing texel: the one at the fractional part of the absolute coordinates scaled between the first and last texel (rounded down), with the vertical coordinate pointing up. Channel bytes map linearly to zero to one. A solid colour texture returns its colour everywhere.",
  "Border coordinates (0, 1, negatives) and odd sizes are a large family of which only a few points are tested.",
  ["src/material/texture.rs"], [("image lookup", "src/material/texture.rs: ImageMap::color")],
  text="every image of at least one pixel and every finite coordinate")
p("P19", "Height maps turn into unit normals of their gradient, wrapping at the borders",
  "The normal map made from a height map has the same size, and every texel encodes the unit normal of the surface with the local slopes of the height, flat regions giving the straight-up normal. Heights rising to the right tilt the normal to the left and heights rising upwards tilt it downwards, borders repeat the edge texels, and an image that is already a normal map is kept as it is.",
  "Border texels, flat regions and slope signs at every size are beyond the single test image.",
  ["src/util/height_map.rs", "src/material/texture.rs"], [("to_normal_map", "src/util/height_map.rs")],
  text="every image of at least one pixel")
p("P20", "Bloom only adds symmetric blurred light from bright pixels",
  "The blur weights are symmetric, non-negative, decreasing from the centre and sum to one. Bloom keeps the image size, leaves an image without pixels above the threshold unchanged, and adds to each pixel exactly the separable blur of the bright part, limited to the maximum intensity and repeated at the borders.",
  "Only one image with one radius is tested; borders and small images are where index arithmetic fails.",
  ["src/post/bloom.rs", "src/util/gaussian.rs"], [("separable blur", "src/post/bloom.rs"), ("weights", "src/util/gaussian.rs")],
  text="every image, radius, threshold and intensity")
p("P21", "An OBJ model becomes exactly its triangles with their own materials",
  "Loading a model yields one triangle for every face, at the positions given in the file after the transformation, with the texture coordinates of its vertices and the material its group names, or the default material if it names none, whatever the number of objects and materials. A missing or malformed file gives an error, not a panic.",
  "The test models are few; index confusion needs many materials or mixed faces.",
  ["src/loader/obj.rs", "src/loader/mod.rs"], [("face conversion", "src/loader/obj.rs")], over=("inputs", "configurations"),
  text="every triangulated model")
p("P22", "Scene set-up refuses unlit scenes and samples every light",
  "A renderer is only created when the scene contains at least one light; the list of sampled lights is exactly the set of emitting objects anywhere in the scene, through groups and acceleration structures. The post-processing steps run in the configured order, each on the result of the previous one.",
  "Nesting and multiplicity of lights are unbounded; tests use one light at a fixed place.",
  ["src/renderer/mod.rs", H + "*.rs", "src/lib.rs"], [("light collection", "src/renderer/mod.rs: Renderer::new"), ("get_lights", H + "*.rs")], over=("inputs", "configurations"),
  text="every scene")
p("P23", "Vector and interval algebra follows the mathematical laws",
  "Vector addition, subtraction, scaling, dot and cross product, length, normalisation and component access are the mathematical operations. Intervals contain exactly the numbers between their ends, combining two gives their hull, shifting and expanding move the ends as stated, and clamping returns the nearest contained number.",
  "Everything else is built on these; single values in tests do not fix a formula.",
  ["src/geo/vec3.rs", "src/util/interval.rs"], [("Vec3 operators", "src/geo/vec3.rs"), ("Interval", "src/util/interval.rs")],
  text="all finite operands")
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")

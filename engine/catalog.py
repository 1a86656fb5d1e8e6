"""What each property says: source of properties.jsonl and MANIFEST.json (written by gen.py)."""
CAT = {}
NA = {}
def cat(pid, title, statement, over, text, why, files, mech, note=''):
    CAT[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))

cat('C01', 'The hierarchy returns the nearest hit of all its objects',
    'For every list of objects, every ray and every ray-length interval, casting the ray into a bounding volume hierarchy built from the list finds a hit exactly when some object of the list is hit within the interval, and returns the smallest-ray-length hit that testing the objects one by one would return; nested, cloned and empty hierarchies included, whichever order parallel construction takes. '
    'Excluded are rays that graze: those meeting the hit object\'s bounding box on an edge only, a flat object within 1e-6 of its own edge, or running parallel to an axis in the plane of a box side.',
    ['inputs', 'configurations', 'schedules'], 'all rays and intervals, lists of objects of any size and arrangement, all build orders',
    'The tests compare a few random rays and golden images; a wrongly culled subtree shows only for rays that enter children in a particular order, for ties of centroids, or for particular list sizes.',
    ['src/hittable/bvh.rs', 'src/hittable/mod.rs', 'src/geo/mod.rs'],
    [('Bvh::new: recursive split around the centroid mean, parallel over halves', 'src/hittable/bvh.rs'), ('Bvh::hit: slab test of the node box, then both children with the closest so far', 'src/hittable/bvh.rs')])
cat('C02', 'A sphere is hit exactly where the ray first meets its surface',
    'For every sphere, ray and ray-length interval, a hit is reported exactly when the ray meets the surface at a length inside the interval, and then at the smallest such length; the hit point is origin plus length times direction and lies on the surface. '
    'The normal is the unit outward radial direction turned against the ray, front face tells whether the ray came from outside, the texture coordinates are the documented spherical coordinates in [0,1], and the hit carries the sphere\'s material.',
    ['inputs'], 'all centres, radii, origins, directions of any length and intervals',
    'A handful of unit tests cast axis-aligned rays at a unit sphere; sign errors that need the origin inside, a direction that is not of unit length, or an interval between the two roots stay invisible.',
    ['src/hittable/sphere.rs', 'src/geo/mod.rs'], [('Sphere::hit: quadratic roots filtered by the interval', 'src/hittable/sphere.rs'), ('calculate_sphere_uv', 'src/hittable/sphere.rs')])
cat('C03', 'A quad is hit exactly inside its parallelogram',
    'For every quad, ray not nearly parallel to it and ray-length interval, a hit is reported exactly when the ray meets the parallelogram (up to 1e-6 around its edges) at a length inside the interval; a ray parallel to the plane never hits. '
    'The reported length and point satisfy the ray equation and lie in the plane, the normal is the unit plane normal turned against the ray with front face telling the side, and the texture coordinates are the plane coordinates along the two sides.',
    ['inputs'], 'all corners, sides, origins, directions and intervals',
    'The tests cast fixed rays at one or two quads.', ['src/hittable/quad.rs'], [('Quad::hit: plane intersection and plane coordinates from w = n/(n.n)', 'src/hittable/quad.rs')])
cat('C04', 'A triangle is hit exactly inside its corners, with interpolated texture',
    'For every triangle, ray not nearly parallel to it and ray-length interval, a hit is reported exactly when the ray meets the triangle (up to 1e-6 around its edges) at a length inside the interval. '
    'The reported length and point satisfy the ray equation and lie in the plane, the normal is the unit plane normal turned against the ray with front face telling the side, and the texture coordinates are the corner coordinates weighted by the barycentric coordinates of the hit point.',
    ['inputs'], 'all corners, corner texture coordinates, origins, directions and intervals',
    'The tests cast fixed rays at one or two triangles with default texture coordinates.', ['src/hittable/triangle.rs'], [('Triangle::hit: barycentric intersection test', 'src/hittable/triangle.rs'), ('Triangle::new_with_tex_coords', 'src/hittable/triangle.rs')])
cat('C05', 'Bounding boxes contain what they bound',
    'The bounding box of every sphere, quad, triangle, constant medium and hierarchy contains every point of the object and has positive thickness on every axis, is no larger than the object\'s extent beyond the documented padding, and the box of a hierarchy contains the boxes of all its objects. '
    'The box and interval operations agree with set semantics: union and interval of two values are the least covering ones, padding widens thin axes only, translation shifts both ends, and size, containment and centre match the ends.',
    ['inputs'], 'all shapes, points on them, and boxes', 'The tests look at a few boxes with constant corners.',
    ['src/geo/mod.rs', 'src/util/interval.rs', 'src/hittable/bvh.rs', 'src/hittable/sphere.rs', 'src/hittable/quad.rs', 'src/hittable/triangle.rs', 'src/hittable/constant_medium.rs'],
    [('Aabb constructors, pad_if_needed, combine', 'src/geo/mod.rs'), ('Interval operations', 'src/util/interval.rs')])
cat('C06', 'A box is reported hit exactly when the ray line crosses it',
    'For every axis-aligned box and every ray, the box test answers whether some point at a nonnegative length along the ray lies inside the box, whatever the signs of the direction components, including rays parallel to an axis and origins inside the box. '
    'Rays that only touch the box on its boundary may be answered either way.',
    ['inputs'], 'all boxes, origins and directions', 'The tests use a few boxes and rays; errors in the slab bookkeeping show only for particular sign combinations.',
    ['src/geo/mod.rs'], [('Aabb::hit: slab test with the inverted direction', 'src/geo/mod.rs')])
cat('C07', 'Light directions and their densities agree',
    'For every light, direction handed out for a viewpoint outside it leads to a point of the light, distributed uniformly over the area of a quad or triangle and uniformly over the solid angle of a sphere, and the density reported for a direction is the corresponding solid-angle density: squared distance over cosine times area, or one over the solid angle, and zero for directions that miss the light. '
    'A group of lights reports the mean of their densities and picks each of them as the source of a direction; directions closer than 1e-6 to the outline of a light are left open.',
    ['inputs'], 'all lights, viewpoints, directions and random draws', 'The tests compare golden images within a tolerance, which a biased density passes.',
    ['src/hittable/sphere.rs', 'src/hittable/quad.rs', 'src/hittable/triangle.rs', 'src/pdf.rs'],
    [('pdf_value and random_direction of each shape', 'src/hittable/'), ('ContainerPdf', 'src/pdf.rs')])
cat('C08', 'Diffuse scattering carries the weight of its density',
    'A ray scattered by a matte surface leaves from the hit point with the colour of the texture, in half of the cases towards the lights and else cosine-distributed about the normal, and its weight is the cosine law cos/pi divided by the mean of the density of the lights and of the cosine density, for the direction that was drawn. '
    'A medium does the same with the uniform density 1/(4 pi) instead of the cosine law; the cosine and uniform densities have the documented values and directions of unit length, the cosine one never below the surface.',
    ['inputs'], 'all hit points, normals, lights and random draws', 'The tests compare golden images of few scenes, in which a wrong weight is hidden by noise tolerance.',
    ['src/material/mod.rs', 'src/pdf.rs', 'src/geo/vec3.rs'], [('Lambertian::scatter, Isotropic::scatter', 'src/material/mod.rs'), ('mix_generate, mix_value', 'src/pdf.rs')])
cat('C09', 'Metal mirrors and glass refracts by the laws of optics',
    'Metal scatters the unit incoming direction mirrored at the normal, displaced by less than its fuzz factor. '
    'Glass leaves in the plane of incidence with unit direction, either mirrored, with the angle of incidence, or refracted with sines in the ratio of the refraction indices for the side that was hit; it always mirrors beyond the critical angle and otherwise mirrors with the probability of Schlick\'s approximation. '
    'Both keep the texture colour and start at the hit point.',
    ['inputs'], 'all directions, normals, indices, sides and random draws', 'The tests are golden images.',
    ['src/material/mod.rs', 'src/geo/vec3.rs'], [('Metal::scatter, Dielectric::scatter, reflectance', 'src/material/mod.rs'), ('reflect, refract', 'src/geo/vec3.rs')])
cat('C10', 'A blend picks each material with its share',
    'A blend of two materials behaves, in scattering and in normal mapping, like the second material with the chance of the blend factor and like the first otherwise: factor 0 is always the first and factor 1 always the second, and each use draws once. '
    'Blends of blends behave like their parts.',
    ['inputs'], 'all blend factors and random draws, nested blends', 'The tests render one blend.', ['src/material/mod.rs'], [('Blend::get_material', 'src/material/mod.rs')])
cat('C11', 'Lights emit on their front only, attenuated by distance',
    'A light material reports itself as a light and, hit on its front, emits its colour unchanged, hit on its back black; it never scatters. '
    'With an attenuation half length h, light that has travelled the distance s arrives as colour times h/(h+s), so that half of it is left at h; without one it arrives unchanged.',
    ['inputs'], 'all colours, half lengths and distances', 'The tests look at one distance.', ['src/material/mod.rs'], [('DiffuseLight::scatter', 'src/material/mod.rs'), ('AttenuatedColor::get_attenuated_color', 'src/material/mod.rs')])

cat('C12', 'A path tracer adds up the light of the path it follows',
    'Along a path of scatterings the colour is the colour of the light, or of the background if the path leaves, multiplied by the colour and the weight of every surface on the way, with the attenuation of a light counting the length of the whole path in units of length whatever the lengths of the ray directions; a path at the depth limit is black, and a channel that is no number counts as black. '
    'The albedo, normal and simple shaders return the surface colour, the normal, and the colour shaded by the documented fixed light; rays that leave get the background, the background and no normal.',
    ['inputs', 'histories'], 'all colours, path lengths, depths and depth limits', 'The tests compare golden images; a wrong product at some bounce count or length hides in noise and tolerance.',
    ['src/renderer/shader.rs', 'src/renderer/mod.rs', 'src/material/mod.rs'], [('PathTracingShader::shade, recursive through Renderer::ray_color', 'src/renderer/shader.rs'), ('filter_invalid_color_values, attenuation', 'src/renderer/shader.rs')])
cat('C13', 'A pixel is the gamma-corrected mean of its samples',
    'For every sum of samples and every number of samples each channel of a pixel is the mean of the samples, square-rooted for gamma, times 256, rounded down and at most 255; invalid sums give a valid pixel. '
    'The way back turns each byte into its share of 255, channel by channel.',
    ['inputs'], 'all sums, sample counts and byte values', 'The tests convert a few constants.', ['src/util/rgb_color.rs', 'src/util/interval.rs'], [('to_rgb_color, rgb_to_vec3', 'src/util/rgb_color.rs')])
cat('C14', 'Rendering reports progress, and stops when asked',
    'A rendering sends one progress message per sample in order, with the share of samples done so far, the last one being exactly one, an image with each, every interval, or only the last according to the strategy, and plausible frame rate and remaining time. '
    'An abort request stops it within the running sample without error, a receiver that is gone stops it with an error and no panic, at the latest after the sample in progress; a scene without lights is refused before anything is rendered.',
    ['schedules', 'histories', 'configurations'], 'all points of abort or loss, clock readings, strategies and sample counts', 'The tests stop one rendering at one point and look at few messages.',
    ['src/renderer/mod.rs', 'src/lib.rs'], [('Renderer::render: loop over samples, messages, abort channel', 'src/renderer/mod.rs'), ('ray_trace', 'src/lib.rs')])
cat('C15', 'Every pixel sums its own samples, however rows are scheduled',
    'In the image sent after k samples each pixel is the conversion of the sum of exactly its own k samples, taken through its own square of the view: first row at the top, first column left, each sample at a random place within the pixel; no row is lost, doubled or mixed with another, whatever the order in which the threads run.',
    ['schedules', 'inputs', 'configurations'], 'all image sizes, sample counts, random draws and thread schedules', 'The tests compare golden images of symmetric scenes; the schedule is whatever the machine does.',
    ['src/renderer/mod.rs', 'src/camera.rs'], [('Renderer::render: parallel rows into a shared image', 'src/renderer/mod.rs'), ('Camera::get_ray', 'src/camera.rs')])
cat('C16', 'All and only the lights of a scene are sampled',
    'The list of lights that scattering aims at contains every object with a light material, once, wherever it sits in the nesting of hierarchies, and nothing else; a scene is refused exactly if it is empty. '
    'Lights keep their place and shape when collected.',
    ['inputs', 'configurations'], 'all lists and nestings of objects', 'The tests count the lights of one list.', ['src/hittable/mod.rs', 'src/hittable/bvh.rs', 'src/lib.rs', 'src/renderer/mod.rs'], [('Bvh::get_lights', 'src/hittable/bvh.rs'), ('Renderer::new', 'src/renderer/mod.rs')])
cat('C17', 'Bloom spreads what exceeds the threshold, within the image',
    'Bloom adds to every pixel the Gaussian-weighted sum of the pixels around it whose intensity reaches the threshold, each cut to the maximum intensity with its colour kept, the kernel being symmetric, normalised and of the width given by the radius as fraction of the image width, with the edge pixels repeated outside the image. '
    'Nothing changes when no pixel reaches the threshold; threshold and maximum scale with the number of samples; a radius outside its documented range is refused.',
    ['inputs', 'configurations'], 'all images, radii, thresholds and sample counts', 'The tests apply it to one image.', ['src/post/bloom.rs', 'src/util/gaussian.rs'], [('BloomPostProcessor::intermediate_post_process', 'src/post/bloom.rs'), ('create_gaussian_blur_weights', 'src/util/gaussian.rs')])
cat('C18', 'Post-processors apply in order, each to the last one\'s result',
    'The image sent is what the last post-processor makes of the pixels that the earlier ones, in order, have made of the sums of samples; without any, the plain conversion. The pixel sums themselves are never changed by them. '
    'A processor that needs albedo and normal colours gets, per pixel, colour and albedo and the normal of what the pixel shows, free of invalid numbers, whichever way the camera looks.',
    ['inputs', 'histories', 'configurations'], 'all lists of processors, images and sample counts', 'The tests use one processor at a time.', ['src/post/mod.rs', 'src/post/nop.rs', 'src/post/oidn.rs', 'src/renderer/mod.rs'],
    [('post-processing in Renderer::render', 'src/renderer/mod.rs'), ('OidnPostProcessor', 'src/post/oidn.rs')])
cat('C19', 'A texture shows the pixel that its coordinates point at',
    'For every image and all texture coordinates, an image texture returns the colour (byte/255 per channel) of one pixel of the image: column by the fraction of u of the width, row by that of v counted from the bottom; coordinates outside [0,1] repeat the image and never reach outside it. '
    'Loading a missing or broken file is reported as an error naming the file, never a panic; a solid colour is the same everywhere. Materials show the texture at the coordinates of the hit.',
    ['inputs', 'configurations'], 'all images and texture coordinates', 'The tests look up a few coordinates in one picture.',
    ['src/material/texture.rs', 'src/material/mod.rs'], [('ImageMap::color', 'src/material/texture.rs'), ('ImageMap::load', 'src/material/texture.rs')],)
cat('C20', 'Height maps become the normals of their slope',
    'For every image given as height map, the normal at each pixel is the unit vector along (-slope to the right, -slope upwards, 1/6), the slopes being the Sobel differences (1, 2, 1) of the heights (share of 255 of the red channel) in the eight pixels around it, with edge pixels repeated outside the image; it is encoded in bytes as share of [-1,1]. An even image gives the undisturbed normal (0,0,1). '
    'A picture given as normal texture counts as a map of normals exactly when its pixels decode to unit vectors, and as a map of heights otherwise.',
    ['inputs', 'configurations'], 'all images', 'The tests look at pictures of two kinds.', ['src/util/height_map.rs', 'src/material/texture.rs'], [('to_normal_map', 'src/util/height_map.rs'), ('load_normal_texture, is_probably_height_map', 'src/material/texture.rs')])
cat('C21', 'Transformations move geometry as documented, in the order given',
    'Rotations turn every point about their axis by the angle in degrees, in the documented sense, keeping distances; translation adds its offset to points and leaves directions alone; scale multiplies. A list applies its members from first to last. '
    'An object built with a transformation is hit where the transformed ray hits the transformed object, with the same ray length and texture coordinates.',
    ['inputs', 'configurations'], 'all points, angles, factors, offsets and lists', 'The tests transform three vectors by 90 degrees or so.', ['src/geo/transformation.rs', 'src/hittable/quad.rs', 'src/hittable/triangle.rs'], [('Transformer implementations', 'src/geo/transformation.rs'), ('Quad::new, Triangle::new apply the transformation', 'src/hittable')])
cat('C22', 'The camera maps the image onto the documented field of view',
    'For every camera the middle of the image looks at look_at, the image plane stands across the direction of view with u to the right and v upwards (towards up), its height at the distance of look_at is 2*tan(vertical_fov/2) times that distance and its width the height times width/height; all rays for a place of the image meet at that place of the focus plane. '
    'Without an aperture all rays start at look_from; with one they start within a disc of half the aperture around look_from, across the direction of view.',
    ['inputs', 'configurations'], 'all camera configurations, places of the image and random draws', 'The tests check one ray of one camera.', ['src/camera.rs'], [('Camera::new', 'src/camera.rs'), ('Camera::get_ray', 'src/camera.rs')])
cat('C23', 'Normal maps tilt normals in the frame of the surface',
    'For every object with a normal texture, the normal of a hit is the unit vector whose components along the surface\'s own directions - that of increasing u, that of increasing v, and the geometric normal facing the ray - are those of the texture at the hit; the same for all materials that take a normal texture, and the geometric normal itself without one. '
    'The normal is finite and of unit length everywhere, on spheres of any size, at their poles, and on triangles without texture coordinates.',
    ['inputs', 'configurations'], 'all surfaces, texture values and hits', 'The tests compare golden images of one textured scene.', ['src/material/mod.rs', 'src/hittable/sphere.rs', 'src/hittable/quad.rs', 'src/hittable/triangle.rs', 'src/geo/mod.rs'],
    [('transform_normal_by_map', 'src/material/mod.rs'), ('tangent and bi-tangent of Sphere::hit, Quad::new, Triangle::new', 'src/hittable'), ('Onb::new', 'src/geo/mod.rs')])
cat('C24', 'Fog is passed with the probability its density says',
    'In a constant medium a ray goes a distance distributed as exp(-density * x), measured as length in space however long its direction vector is, from where it enters the boundary (or starts inside it): it is stopped there, at a point of the ray, with a unit normal, by a material of the given colour that scatters in all directions and is no light; if that distance is more than the way to the far side of the boundary or to the end of the interval, it passes. '
    'Rays that miss the boundary, leave it behind them or touch one that is not closed pass always.',
    ['inputs', 'configurations'], 'all rays, boundaries, densities, intervals and random draws', 'The tests render one foggy scene.', ['src/hittable/constant_medium.rs'], [('ConstantMedium::hit', 'src/hittable/constant_medium.rs')])
cat('C25', 'Random values stay in their domain and follow their distribution',
    'random_float(a,b) lies in [a,b) and is spread evenly; random vectors have components in their range; points in the unit ball and disc lie inside it and are exactly the first try that does, so are spread evenly; unit vectors have length one; cosine-weighted directions lie on the upper half of the unit sphere with the square of the cosine spread evenly; random indices lie inside the list and reach every element.',
    ['inputs'], 'all results of the underlying generator', 'The tests draw some numbers and look whether they are in range.', ['src/random.rs', 'src/geo/vec3.rs'], [('random_float, random_uint32, random_element_index', 'src/random.rs'), ('random_in_unit_sphere, random_in_unit_disc, random_unit_vector, random_cosine_direction', 'src/geo/vec3.rs')])
cat('C26', 'A box is closed by six sides facing outwards',
    'For any two opposite corners, in any order, the six quads of a box cover its surface: a ray through any place of a side, from inside or outside, hits exactly one of them there, at the right distance, and meets the front face exactly when it comes from outside.',
    ['inputs'], 'all corners and rays', 'The tests count the sides.', ['src/hittable/quad.rs'], [('Quad::new_box', 'src/hittable/quad.rs')])
cat('C27', 'A loaded model has the triangles and materials of its file',
    'For every model read by the obj loader, each face becomes triangles at its corners, transformed as asked, with the texture coordinates the file gives them (zero if none) and the material the file names: its diffuse image if there is one, else its diffuse colour, else white, with its normal or height image; meshes without a material, or with an unknown one, get the default material given, else white. Nothing else is in the result. '
    'A missing or broken model, material or image file is reported as an error that names it.',
    ['inputs', 'configurations'], 'all models, any number of materials, all defaults and transformations', 'The tests load one box and some broken files.', ['src/loader/obj.rs', 'src/material/texture.rs'], [('Obj::load', 'src/loader/obj.rs')])
cat('C28', 'Vectors and rays obey their algebra',
    'Sum, difference, products, quotient, negation, dot and cross product, length, unit, reflection about a unit normal, near-zero test, axis access, points along a ray and the distance between two rays\' lines agree with their mathematical definitions for all vectors.',
    ['inputs'], 'all vectors', 'Unit tests and doc tests compute single examples.', ['src/geo/vec3.rs', 'src/geo/mod.rs'], [('Vec3 operators', 'src/geo/vec3.rs'), ('Ray::shortest_distance', 'src/geo/mod.rs')])

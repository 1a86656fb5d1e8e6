"""Registry of properties: which harness entries decide them, with what bounds."""
ASSUME = ['f64/f32 arithmetic is interpreted as exact real arithmetic in "real" mode harnesses: rounding and overflow are outside the bounds',
          'the fastrand, rayon, image, tobj and oidn crates are replaced by the stand-ins in ws/shims, which hand the solver every value or order those crates may produce']
PROPS = {}
def prop(pid, explain, bounds, tasks, outside='', assume=()):
    PROPS[pid] = dict(explain=explain, bounds=bounds, outside=outside, assume=list(assume), tasks=tasks)
def T(entry, ids, shards=(0,), **k):
    d = dict(entry=entry, ids=set(ids), shards=list(shards)); d.update(k); return d

G = dict(ite=1)

REAL = 'Each harness calls the real functions with solver variables for inputs; the IR of harness and crate is executed on every feasible path and each assertion is an obligation over all values of the variables.'
prop('C01', REAL + ' A hierarchy of solid, distinguishable objects is built by the real constructor, both orders of every parallel construction step being explored; its answer is compared with the nearest answer of the objects tested one by one, for symbolic ray origins, positions along a line of symbolic offset, and symbolic directions.',
    'one to eight objects, with fewer variables up to forty, with the ray passing through one object after the other up to 401 (quads, spheres and triangles in rows, clusters, coinciding centres, nested hierarchies and clones; harness shards list the arrangements), ray origin (in [-1000,1000]) or positions in a row (in [-10000,10000]) symbolic, interval ends symbolic (from -100000 to 1000000, not within 1e-6 of zero), everything, behind the origin only or (0.001, infinity), directions symbolic (slopes within 100) for hierarchies of up to three objects',
    [T('c01_line', [4], [1004, 1105], opts=G), T('c01_line', [], [2004, 1206, 2306, 2405, 1505], opts=G), T('c01_row', [4], [103, 113], opts=G), T('c01_line', [4], [5, 106, 207, 309, 405, 508, 20, 120, 140], deep_shards=[5, 106, 207, 309, 405, 508, 20, 120, 40, 140, 240, 360], opts=G),
     T('c01_origin', [2, 4], [3, 6, 13, 23, 33, 43, 53, 104, 115, 205, 225, 245], opts=G),
     T('c01_row', [4], [3, 13, 23], opts=G),
     T('c01_nested', [4, 5], [0, 1, 2, 3], opts=G), T('c01_concentric', [1], [90, 180], opts=G), T('c01_large', [1], [149, 10149, 20145, 30061, 40039, 401], opts=G),
     T('c01_direction', [4], [3, 13, 23, 33, 103], opts=G)],
    outside='more objects than listed, arrangements other than the listed families, rays that graze')
prop('C02', REAL, 'centre in [-100000,100000]^3, radius through a symbolic surface point (0.01 to 8660; 0.01 to 173 for normal and texture), direction components in [-1000,1000] ([-10,10] for normal and texture) not all tiny, origin placed by a symbolic ray length in [-100000,100000], interval ends symbolic in [-1000,100000]; texture coordinates compared with acos/atan2 of the normal as uninterpreted functions of the exact arguments',
    [T('c02_sphere_miss', [1], opts=G), T('c02_sphere_nearest', range(1, 6), opts=G), T('c02_sphere_frame', range(2, 7), [0, 1], opts=G)], outside='tangent rays within 1e-6, degenerate spheres')
prop('C03', REAL, 'corner in [-100000,100000]^3, sides in [-100,100]^3 with area at least 0.1, any direction in [-100,100]^3 with |d.n| at least 0.01, plane coordinates in [-1000,1000], ray length in [-100000,100000], interval ends in [-1000,100000]', [T('c03_quad_hit', range(1, 10), opts=G), T('c03_parallel', [1], [0], opts=G)], outside='hits within 1e-6 of an edge, rays with |d.n| below 1e-8 but not zero, degenerate quads')
prop('C04', REAL, 'corners in [-100000,100000]^3, edges in [-5000,5000]^3 with area at least 0.05, any direction in [-1000,1000]^3 with |d.n| at least 0.01, barycentric coordinates and texture coordinates in [-1000,1000], ray length in [-100000,100000], interval ends in [-1000,100000]', [T('c04_triangle_hit', [1, 2, 3, 4, 7, 8, 9], opts=G), T('c04_triangle_uv', [1, 2], opts=G), T('c03_parallel', [1], [1], opts=G)], outside='hits within 1e-6 of an edge, nearly parallel rays, degenerate triangles')
prop('C05', REAL, 'all coordinates symbolic in [-100000,100000]; hierarchies of up to three (thorough: four) objects with symbolic positions, sixteen with one that sticks out by a symbolic length', [T('c05_shape', [1, 2, 3, 4], range(8), opts=G), T('c05_ops', range(1, 16), range(7), opts=G), T('c05_containers', [1, 2], [0, 1, 2, 4, 5, 6, 8, 9, 10, 100, 104, 108], deep_shards=list(range(12)) + [100, 104, 108], opts=G)])
prop('C06', REAL, 'box ends in [-100000,200000], origin in [-200000,200000]^3, direction components 0.0001 to 4000 of either sign or zero of either sign: all sign combinations', [T('c06_slab', [1, 2, 3, 4], [x for x in range(54) if x < 27 or x % 3 == 2 or (x - 27) // 3 % 3 == 2 or (x - 27) // 9 % 3 == 2], opts=G)], outside='rays touching the boundary of the box only')
prop('C07', REAL + ' Random draws are solver variables.', 'flat shapes with sides in [-100,100]^3 anywhere in [-100000,100000]^3, besides two given shapes met at every angle down to 1e-4; spheres of radius 0.001 to 1000; viewpoint symbolic, direction symbolic, both random draws symbolic in [0,1); containers of one to three, and of twelve, lights of mixed kinds, every light of groups of up to 40 aimed at by its share of the draws', [T('c07_flat_value', [1, 2], range(4), opts=G), T('c07_flat_graze', [1], range(8), opts=G), T('c07_flat_direction', [1, 2, 3, 4, 5], [0, 1, 2], opts=G), T('c07_sphere_value', [1, 2], [0, 1], opts=G), T('c07_sphere_direction', [1, 2, 3]), T('c07_container', [1, 2, 3, 4, 5], [0, 1, 2, 11], opts=G), T('c07_share', [1], [1, 2, 5, 12, 40], opts=G)],
    outside='viewpoints inside a light sphere or in the plane of a flat light, directions within 1e-6 of the outline of the light')
prop('C08', REAL + ' Random draws are solver variables.', 'normal and direction of the densities symbolic in [-1000,1000]^3; scattering at a symbolic point of a surface patch with one or two quad lights (above, below, upright, slanted surface), all draws symbolic, up to one rejected sample of the uniform direction (thorough: two)',
    [T('c08_pdfs', range(1, 12), range(3), opts=G), T('c08_lambertian', [1, 2, 3, 4, 5, 7, 8, 9], range(5), opts=G), T('c08_isotropic', [1, 2, 3, 4], range(3), opts=dict(ite=1, max_rand=11), deep=dict(max_rand=14))], outside='sphere and triangle lights inside scatter (their densities are decided in C07), directions of zero length')
prop('C09', REAL + ' Random draws are solver variables.', 'metal: normal, direction, point, colour and fuzz symbolic, at most the bounded number of rejected samples; directions in [-1000,1000]^3, fuzz up to 10; dielectric: three frames, angle of incidence by half-angle parameter in [0,1], index 0.2 to 5, direction length 0.001 to 1000, both faces', [T('c09_metal', [1, 2, 3, 4], [0, 1], opts=G), T('c09_dielectric', range(1, 11), range(6), opts=G)])
prop('C10', REAL + ' Random draws are solver variables.', 'blend factor 0, 1 and symbolic in [0,1], both parts of different kinds, nesting depth two; chains of one, three and seven blends', [T('c10_blend', [1, 2, 3, 4, 5, 6, 7, 9, 10], range(3), opts=G), T('c10_nested', [1, 2, 3, 6], opts=G), T('c10_chain', [1, 2], [1, 3, 7], opts=dict(ite=1, max_rand=14))])
prop('C11', REAL, 'colour in [0,100000]^3, half length in [0.0001,100000], distance in [0,1000000], both faces', [T('c11_emission', [1, 2, 3, 4, 5], range(3), opts=G)])
prop('C12', REAL, 'mirror paths of 0 to 3 bounces (with unit directions and limits around that number and above also 6, 9 and 16) with symbolic colours and background, light and background up to 1000000, attenuation half length in [0.001,100000], accumulated length in [0,100000], start depth 0 or 1, depth limit 0 to 4294967295, ray directions of length 0.001 to 1000; diffuse: one bounce with a lamp, symbolic colours, draws in [0,0.999], depth limits 0 to 2, a mirrored light up to 1e12 away, the lamp with and without attenuation, each channel of the surface being no number; a room of seven objects with every kind of material, eleven fixed sequences of draws and every choice of light, depth limits 3 to 12, symbolic colours, emission, background and attenuation; simple shaders: tilted quad with a symbolic normal, three materials, draws in [0.01,0.99]', [T('c12_mirrors', [1, 2, 3], [0, 1, 2, 3, 101, 102, 103, 6, 9, 16, 109], opts=G), T('c12_diffuse', [1, 2, 3, 4, 5, 6], [0, 1, 2, 10, 11, 12], opts=G), T('c12_diffuse', [2, 3, 4], [20, 21, 22], opts=G), T('c12_room', [1, 2], range(11), opts=G), T('c12_far', [1], range(3), opts=G), T('c12_simple', [1, 2, 3, 4], range(3), opts=G)])
prop('C13', REAL, 'samples 1 to 4294967295, channel sums t*t*samples with t in [0,1000], all 256 values of the way back', [T('c13_rgb', [1, 2, 3, 4, 5, 6, 7, 8, 10], range(4), opts=G)])
prop('C14', REAL + ' The whole of ray_trace runs: the rows of a sample as threads whose order is left open, the clock as variables, the abort request and the loss of the receiver at a symbolic point of the rendering.',
    'images of 2x2 pixels, one to three (thorough: four) samples, three strategies, both orders of the rows; clock readings with nanoseconds in a range of 100000 s after (or before) the start, interval 0 to 100000 s; abort and loss before the start or at any random draw, with a second rendering after it; 40 and 300 (thorough: 3000) samples of one pixel, each of which takes a symbolic number of seconds; images of five and six samples at an interval in whole seconds',
    [T('c14_messages', range(1, 6), [30, 31, 32], deep_shards=[40, 41, 42], opts=G), T('c14_times', range(1, 6), [1, 2, 3, 11, 12, 105, 106], deep_shards=[1, 2, 3, 4, 11, 12, 13, 105, 106, 107], opts=G),
     T('c14_stop', range(1, 10), [20, 21, 22, 120, 121, 122], deep_shards=[30, 31, 32, 130, 131, 132], opts=G), T('c14_dark', [1, 2], range(5), opts=G), T('c14_many', range(1, 7), [40, 300], deep_shards=[40, 300, 3000], opts=G)],
    outside='larger images, an abort request between two draws of different samples is placed at the next draw')
prop('C15', REAL + ' The whole of ray_trace runs over a wall of light tiles, two per pixel, of symbolic colours; the rows of a sample run as threads in every order.',
    'images of 1x1 to 3x2 pixels, one to three (thorough: four) samples; two colour channels symbolic in [0,1000], background symbolic; each random draw symbolic in [0.01,0.49] in odd samples and [0.51,0.99] in even ones; two shaders; images of every sample or of the last only; one-row images of up to two (thorough: four) pixels with four tiles each and up to three (thorough: four) samples, every single draw moved from one half of [0,1) to the other; images of 24x1, 1x24 and 7x6 pixels with one symbolic tile and background and up to 40 samples, one and two pixels with 300 samples, rays through the middle of the pixels, rows from the first to the last or the other way round',
    [T('c15_image', [1, 2, 3], [10, 11, 12, 20, 22, 30, 31, 120, 220, 321, 13, 23, 14, 24, 15, 25], deep_shards=[10, 11, 12, 20, 21, 22, 30, 31, 32, 120, 220, 321, 322, 240, 241, 13, 23, 43, 14, 24, 34, 15, 25, 35], opts=G), T('c15_place', [1, 2, 4, 5], [1, 2, 12, 22, 102, 121, 202], deep_shards=[1, 2, 3, 12, 22, 33, 4, 102, 121, 202, 203, 303], opts=dict(ite=1, max_rand=900)), T('c15_large', range(1, 6), [0, 1, 2, 10, 11, 12, 20, 33, 34], deep_shards=[0, 1, 2, 10, 11, 12, 20, 21, 22, 33, 34], opts=G)],
    outside='larger images, rays towards the edges of the tiles, post-processors other than the default one (C17, C18)')
prop('C16', REAL, 'four objects of all kinds, each a light or not, one at a symbolic position in [-1000000,1000000] along two axes, seven arrangements of lists, nested hierarchies (up to six within each other), fog and clones; 20 and 60 lights of which one is at a symbolic place and two pairs coincide',
    [T('c16_lights', range(1, 6), range(7), opts=G), T('c16_many', [2, 3], [20, 60], opts=G)])
prop('C17', REAL, 'images of 4x1 to 4x3 pixels (with a radius of a quarter of the width also 12x1, 1x12 and 7x6, and 280x1 with one bright pixel), two pixels of symbolic intensity in [0,1000] (times a direction of three), radius fraction, threshold, maximum and number of samples symbolic',
    [T('c17_bloom', [5, 6], [0, 1, 3, 14, 20, 32, 7, 8, 19], deep_shards=[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 19, 20, 23, 30, 32, 35], opts=G), T('c17_bloom', [3, 4], [53, 62, 48], deep_shards=[41, 42, 53, 62, 47, 48], opts=G), T('c17_args', [1, 2, 3]), T('c17_wide', [3], [0, 1, 2], opts=dict(ite=1, step_limit=30000000))])
prop('C18', REAL + ' The whole of ray_trace runs with lists of post-processors; the denoiser is a stand-in that records what it is given.',
    'images of 2x2 (denoiser: 3x2) pixels, one to three samples, seven lists of up to three processors and one of nine, symbolic colours, thresholds and background; denoiser inputs with the camera along four axes',
    [T('c18_chain', [1, 2, 4], [20, 11, 12, 13, 14, 25, 26, 17], deep_shards=[20, 21, 22, 23, 24, 25, 26, 27, 30, 34], opts=G), T('c18_nop', range(1, 6), opts=G), T('c18_aux', range(1, 9), [10, 11, 12, 13, 21], feat='oidn', opts=G)])

prop('C19', REAL, 'images of 1x1 to 5x4 pixels, stretches of 300x2, 2x300, 5000x2 and 2x5000; coordinates in [0,2.25] or [-1.75,-0.125] except within 1e-3 pixels of the border between two pixels; four materials',
    [T('c19_image', range(3, 7), [0, 1, 2, 3, 4, 13, 14, 24, 33, 103, 203, 303, 413], opts=G), T('c19_large', [1, 2], range(8), opts=G), T('c19_solid', [1, 2, 3], [0]), T('c19_solid', [4, 6], [1, 2])])
prop('C20', REAL, 'images of 1x1 to 4x3, 33x2, 2x33, 1100x2 and 2x1100 pixels with one symbolic height next to or at the pixel looked at; kinds: three pixels, symbolic greys, six unit normals, and 60x40 pixels with a third of them of the other kind',
    [T('c20_heights', [1, 2, 3], [40000, 50100, 40103, 204, 20204, 30204, 50204, 70204, 80204, 40200, 50200, 40208, 10208, 30301, 50301, 10401, 70401, 10505, 40634, 50764, 30804, 40906], deep_shards=[40000, 50100, 40103, 30103, 204, 10204, 20204, 30204, 40204, 50204, 60204, 70204, 80204, 40200, 50200, 70200, 40208, 10208, 30208, 30301, 50301, 10401, 70401, 10505, 20505, 30505, 60506, 40511, 40634, 30634, 50764, 70764, 40802, 30804, 40906, 70907], opts=G), T('c20_kind_large', [2], range(4), opts=G),
     T('c20_kind', [2], range(4), opts=G)])
prop('C21', REAL, 'points and offsets in [-100000,100000]^3, angles in [-100000,100000] degrees, factors in [-1000,1000]; six lists of up to three transformations, and lists of nine and twenty without rotations; a quad, a triangle and all sides of a box under five transformations, struck at symbolic places',
    [T('c21_single', [4, 5, 6, 7], [0, 1, 2, 10, 11, 12], opts=G), T('c21_single', [1], [3, 13], opts=G), T('c21_single', [2], [4, 14], opts=G), T('c21_single', [3], [5, 15], opts=G),
     T('c21_list', [1], list(range(8)) + list(range(10, 18)), opts=G), T('c21_objects', [1, 2, 3, 4], [0, 10, 20, 30, 40], opts=G), T('c21_objects', [1, 2, 4, 5], [3, 13, 23, 33, 43], opts=G), T('c21_objects', [1, 2, 4], [1, 2, 11, 12, 21, 22, 31, 32, 41, 42], opts=G)],
    outside='the rotation of texture coordinates on triangles (C04), other long lists')
prop('C22', REAL + ' Random draws are solver variables.', 'place in [-100000,100000]^3, direction of view in [-1000,1000]^3 with four directions of up, opening 0.1 to 179 degrees, aperture up to 100, images of every width and height up to 100000, every place of the image; one rejected draw for the lens (draws after it in [0.3,0.7])',
    [T('c22_view', range(1, 13), [0, 1, 2, 3, 100, 200, 300, 303, 400, 500], opts=G), T('c22_view', range(1, 11), [10, 11, 12, 13, 312], opts=G), T('c22_lens', range(1, 6), range(4), opts=G)],
    outside='a direction of view parallel to up')
prop('C23', REAL, 'flat objects: symbolic sides and map values, four materials, seen from both sides; triangles with four ways of laying on the texture; spheres of symbolic radius met in five directions and at both poles, map values symbolic; frames around any unit vector given by two symbolic parameters',
    [T('c23_flat', [2, 3], [0, 1, 10, 11, 20, 21, 30, 31, 100, 101], opts=G), T('c23_skew', [2], range(4), opts=G), T('c23_sphere', [2, 3, 5], [0, 1, 2, 3, 4, 10, 11, 100, 200, 300], opts=G), T('c23_pole', [2, 3], range(4), opts=G), T('c23_frame', range(1, 6), [0, 1], opts=G)],
    outside='spheres met elsewhere than in the listed directions')
prop('C24', REAL + ' Random draws are solver variables.', 'ball of symbolic place and size and box of symbolic length (0.001 to 1000 times the direction), met from before, within and behind, density 0.001 to 1000, ray directions of length 0.001 to 1000, interval to infinity or a symbolic end, colour symbolic, the deciding draw in [0.001,0.999]',
    [T('c24_medium', range(2, 10), [0, 1, 10, 11, 100, 101, 110, 111], opts=G), T('c24_medium', [1], [20, 21], opts=G), T('c24_outside', [1, 3], [0], opts=G), T('c24_outside', [2, 3], [1], opts=G)],
    outside='passages shorter than 1e-6, boundaries other than balls and boxes')
prop('C25', REAL + ' Random draws are solver variables.', 'ranges within [-100,100] at least 0.01 wide, all draws in [0,1), up to two rejected tries with symbolic draws and rows of 50 fixed ones, counts 1 to 5, and 300',
    [T('c25_random', range(1, 6), [0], opts=G), T('c25_random', [6, 7, 8], [1], opts=G), T('c25_random', [9, 10, 11], [2], opts=G), T('c25_random', [12, 13], [3], opts=G), T('c25_random', range(14, 18), [4], opts=G), T('c25_random', range(18, 23), [5], opts=G), T('c25_random', [23], [6], opts=G), T('c25_random', [24], [7], opts=G), T('c25_random', [25, 26], [8, 9], opts=G)],
    outside='a try whose draws all lie within 5e-4 of the middle, more than two rejected tries')
prop('C26', REAL, 'corner in [-100000,100000]^3, sides 0.1 to 1000, the two corners given in four orders, each of the six sides met at a symbolic place from both sides',
    [T('c26_box', range(1, 10), [s + 10 * k for k in range(4) for s in range(6)], opts=G)], outside='rays not perpendicular to the side, hits within two hundredths of a side\'s length of its edge')
prop('C27', REAL + ' What tobj and image would read from files is handed in by the harness.', 'two meshes of three triangles, corners shifted by symbolic offsets in [-10000,10000], texture coordinates and colours symbolic, 16 combinations of numbering, transformation and polygons; meshes of 21 and 121 (thorough: 701) triangles and of 70000 corners; 3 and 300 materials; images of colours, normals and heights, alone and shared by eight materials; six kinds of missing or broken files',
    [T('c27_mesh', [2, 3, 4, 5, 6, 8, 9, 10, 12], range(16), opts=G), T('c27_large', [1, 2, 3, 4, 6, 7], [20, 120], deep_shards=[20, 120, 700], opts=G), T('c27_materials', [2], [0, 1, 10, 11], opts=G), T('c27_far', [2, 3, 4], [0, 1], opts=G), T('c27_shared', [2, 3], [0, 3, 5, 6], opts=G), T('c27_images', [2, 3], range(4), opts=G), T('c27_errors', [2], range(6), opts=G)],
    outside='the parsing of .obj, .mtl and image files, which the tobj and image crates do')
prop('C28', REAL, 'components and factors in [-100000,100000] (for the distance of lines [-10000,10000]); division and unit vectors away from zero; any two lines, besides lines of given directions and of any length, skew, parallel and nearly parallel',
    [T('c28_vectors', range(1, 6), [0], opts=G), T('c28_vectors', [6, 7, 8], [1], opts=G), T('c28_vectors', [9], [2], opts=G), T('c28_vectors', range(10, 14), [3, 4], opts=G), T('c28_vectors', [11, 13], [5, 6, 7, 8, 9], opts=G)])

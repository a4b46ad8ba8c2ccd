pub const HIST509: [u64; 80] = [1190, 1509, 2522, 4022, 4813, 4879, 5728, 6115, 6641, 7144, 8035, 8405, 8438, 9074, 9085, 9097, 9715, 10137, 10275, 10682, 10932, 11630, 11670, 11949, 12705, 13530, 13828, 13873, 14135, 14914, 15114, 16661, 16780, 17822, 18875, 19508, 19788, 19830, 20175, 20389, 20527, 20680, 21002, 21263, 21741, 21932, 22002, 22726, 22731, 22883, 22982, 23205, 23751, 23910, 24988, 25011, 25545, 26045, 26074, 26293, 27132, 28078, 29264, 29717, 30223, 31724, 31761, 32337, 32990, 33006, 33261, 33915, 34956, 35047, 35539, 35646, 35690, 36211, 37066, 38665];
pub const HIST677: [u64; 80] = [9, 1104, 1120, 1203, 1493, 1749, 1929, 1987, 3620, 3880, 4467, 4986, 5677, 6768, 7389, 7534, 8603, 8858, 9076, 9145, 9309, 9460, 9760, 10344, 10721, 10773, 11045, 11105, 12217, 12218, 12382, 12395, 13022, 13393, 14218, 15273, 15714, 15863, 15907, 16407, 16453, 16520, 17435, 17533, 17974, 18012, 18457, 19573, 19796, 19839, 20531, 20570, 20599, 20646, 21191, 21198, 21633, 22048, 22286, 23136, 23486, 23515, 23838, 23941, 24444, 25914, 26373, 26503, 27788, 27894, 28418, 29148, 29201, 29316, 29359, 30146, 30265, 30407, 31400, 31494];
pub const HIST821: [u64; 80] = [705, 961, 1704, 2140, 3275, 3453, 4047, 4668, 4997, 5100, 5184, 5554, 5857, 5878, 5976, 7611, 8463, 8629, 8826, 9145, 10948, 11873, 12143, 12531, 13209, 13511, 13705, 14982, 15137, 15343, 15788, 16045, 16846, 16925, 18264, 18901, 19027, 19280, 19468, 19552, 19641, 19761, 20231, 20780, 20838, 20925, 21402, 22234, 22491, 22569, 22648, 22733, 22894, 22933, 23407, 24041, 24156, 24923, 25097, 25666, 27316, 27532, 29428, 29492, 29583, 30453, 30666, 31029, 31385, 31720, 31871, 32053, 32553, 34117, 35023, 35388, 36667, 37319, 37833, 37863];
pub const HIST701: [u64; 80] = [615, 2019, 2377, 2586, 2888, 2922, 3459, 3685, 4226, 4964, 5361, 5864, 6531, 6692, 6695, 7781, 7853, 8250, 9301, 10252, 10253, 10717, 11035, 11207, 11242, 11332, 11335, 11371, 11485, 12580, 13098, 13545, 13591, 13779, 14033, 15092, 15157, 15727, 16056, 16464, 16623, 17062, 17080, 17202, 17731, 18134, 18302, 18572, 18844, 18940, 19690, 19825, 20499, 20736, 21185, 21476, 24270, 24616, 24987, 25956, 26088, 26838, 27218, 27907, 28048, 28797, 29403, 30548, 30834, 30920, 31129, 31616, 31831, 32216, 32478, 32611, 32887, 33076, 33528, 33701];

-------------------------------- MODULE Trig --------------------------------
(* Cosines and sines of rational fractions of a turn, times 10^5. The tables  *)
(* hold the first quarter of a turn in steps of 1/10080 (2^5 3^2 5 7), 1/5720 *)
(* (2^3 5 11 13) and 1/2640 (2^4 3 5 11) of a turn                            *)
EXTENDS Integers, Sequences
Unit == 100000
T1 == <<100000, 100000, 100000, 100000, 100000, 100000, 99999, 99999, 99999, 99998, 99998, 99998, 99997, 99997, 99996, 99996, 99995, 99994, 99994, 99993, 
99992, 99991, 99991, 99990, 99989, 99988, 99987, 99986, 99985, 99984, 99983, 99981, 99980, 99979, 99978, 99976, 99975, 99973, 99972, 99970, 99969, 
99967, 99966, 99964, 99962, 99961, 99959, 99957, 99955, 99953, 99951, 99949, 99947, 99945, 99943, 99941, 99939, 99937, 99935, 99932, 99930, 99928, 
99925, 99923, 99920, 99918, 99915, 99913, 99910, 99908, 99905, 99902, 99899, 99896, 99894, 99891, 99888, 99885, 99882, 99879, 99876, 99873, 99869, 
99866, 99863, 99860, 99856, 99853, 99850, 99846, 99843, 99839, 99836, 99832, 99828, 99825, 99821, 99817, 99813, 99810, 99806, 99802, 99798, 99794, 
99790, 99786, 99782, 99778, 99773, 99769, 99765, 99761, 99756, 99752, 99748, 99743, 99739, 99734, 99730, 99725, 99720, 99716, 99711, 99706, 99701, 
99697, 99692, 99687, 99682, 99677, 99672, 99667, 99662, 99657, 99651, 99646, 99641, 99636, 99630, 99625, 99619, 99614, 99609, 99603, 99597, 99592, 
99586, 99580, 99575, 99569, 99563, 99557, 99551, 99546, 99540, 99534, 99528, 99522, 99515, 99509, 99503, 99497, 99491, 99484, 99478, 99472, 99465, 
99459, 99452, 99446, 99439, 99432, 99426, 99419, 99412, 99406, 99399, 99392, 99385, 99378, 99371, 99364, 99357, 99350, 99343, 99336, 99329, 99321, 
99314, 99307, 99299, 99292, 99285, 99277, 99270, 99262, 99255, 99247, 99239, 99232, 99224, 99216, 99208, 99200, 99193, 99185, 99177, 99169, 99161, 
99153, 99144, 99136, 99128, 99120, 99112, 99103, 99095, 99087, 99078, 99070, 99061, 99053, 99044, 99035, 99027, 99018, 99009, 99001, 98992, 98983, 
98974, 98965, 98956, 98947, 98938, 98929, 98920, 98911, 98902, 98892, 98883, 98874, 98864, 98855, 98846, 98836, 98827, 98817, 98808, 98798, 98788, 
98779, 98769, 98759, 98749, 98739, 98730, 98720, 98710, 98700, 98690, 98680, 98669, 98659, 98649, 98639, 98629, 98618, 98608, 98598, 98587, 98577, 
98566, 98556, 98545, 98534, 98524, 98513, 98502, 98492, 98481, 98470, 98459, 98448, 98437, 98426, 98415, 98404, 98393, 98382, 98371, 98359, 98348, 
98337, 98325, 98314, 98303, 98291, 98280, 98268, 98257, 98245, 98233, 98222, 98210, 98198, 98186, 98175, 98163, 98151, 98139, 98127, 98115, 98103, 
98091, 98079, 98066, 98054, 98042, 98030, 98017, 98005, 97992, 97980, 97968, 97955, 97942, 97930, 97917, 97905, 97892, 97879, 97866, 97853, 97841, 
97828, 97815, 97802, 97789, 97776, 97763, 97749, 97736, 97723, 97710, 97697, 97683, 97670, 97657, 97643, 97630, 97616, 97603, 97589, 97575, 97562, 
97548, 97534, 97520, 97507, 97493, 97479, 97465, 97451, 97437, 97423, 97409, 97395, 97381, 97366, 97352, 97338, 97324, 97309, 97295, 97280, 97266, 
97252, 97237, 97222, 97208, 97193, 97178, 97164, 97149, 97134, 97119, 97105, 97090, 97075, 97060, 97045, 97030, 97014, 96999, 96984, 96969, 96954, 
96938, 96923, 96908, 96892, 96877, 96861, 96846, 96830, 96815, 96799, 96783, 96768, 96752, 96736, 96720, 96705, 96689, 96673, 96657, 96641, 96625, 
96609, 96593, 96576, 96560, 96544, 96528, 96511, 96495, 96479, 96462, 96446, 96429, 96413, 96396, 96380, 96363, 96346, 96330, 96313, 96296, 96279, 
96262, 96246, 96229, 96212, 96195, 96178, 96160, 96143, 96126, 96109, 96092, 96074, 96057, 96040, 96022, 96005, 95988, 95970, 95952, 95935, 95917, 
95900, 95882, 95864, 95846, 95829, 95811, 95793, 95775, 95757, 95739, 95721, 95703, 95685, 95667, 95649, 95630, 95612, 95594, 95576, 95557, 95539, 
95520, 95502, 95483, 95465, 95446, 95428, 95409, 95390, 95372, 95353, 95334, 95315, 95296, 95278, 95259, 95240, 95221, 95201, 95182, 95163, 95144, 
95125, 95106, 95086, 95067, 95048, 95028, 95009, 94989, 94970, 94950, 94931, 94911, 94892, 94872, 94852, 94832, 94813, 94793, 94773, 94753, 94733, 
94713, 94693, 94673, 94653, 94633, 94613, 94592, 94572, 94552, 94532, 94511, 94491, 94470, 94450, 94429, 94409, 94388, 94368, 94347, 94326, 94306, 
94285, 94264, 94243, 94222, 94202, 94181, 94160, 94139, 94118, 94097, 94075, 94054, 94033, 94012, 93991, 93969, 93948, 93927, 93905, 93884, 93862, 
93841, 93819, 93798, 93776, 93754, 93733, 93711, 93689, 93667, 93645, 93623, 93602, 93580, 93558, 93536, 93514, 93491, 93469, 93447, 93425, 93403, 
93380, 93358, 93336, 93313, 93291, 93268, 93246, 93223, 93201, 93178, 93156, 93133, 93110, 93087, 93065, 93042, 93019, 92996, 92973, 92950, 92927, 
92904, 92881, 92858, 92835, 92811, 92788, 92765, 92742, 92718, 92695, 92672, 92648, 92625, 92601, 92578, 92554, 92530, 92507, 92483, 92459, 92436, 
92412, 92388, 92364, 92340, 92316, 92292, 92268, 92244, 92220, 92196, 92172, 92148, 92123, 92099, 92075, 92050, 92026, 92002, 91977, 91953, 91928, 
91904, 91879, 91854, 91830, 91805, 91780, 91756, 91731, 91706, 91681, 91656, 91631, 91606, 91581, 91556, 91531, 91506, 91481, 91456, 91430, 91405, 
91380, 91355, 91329, 91304, 91278, 91253, 91227, 91202, 91176, 91151, 91125, 91099, 91074, 91048, 91022, 90996, 90970, 90944, 90918, 90892, 90866, 
90840, 90814, 90788, 90762, 90736, 90710, 90683, 90657, 90631, 90604, 90578, 90552, 90525, 90499, 90472, 90446, 90419, 90392, 90366, 90339, 90312, 
90285, 90259, 90232, 90205, 90178, 90151, 90124, 90097, 90070, 90043, 90016, 89988, 89961, 89934, 89907, 89879, 89852, 89825, 89797, 89770, 89742, 
89715, 89687, 89660, 89632, 89604, 89577, 89549, 89521, 89493, 89466, 89438, 89410, 89382, 89354, 89326, 89298, 89270, 89242, 89214, 89185, 89157, 
89129, 89101, 89072, 89044, 89016, 88987, 88959, 88930, 88902, 88873, 88845, 88816, 88787, 88759, 88730, 88701, 88672, 88643, 88615, 88586, 88557, 
88528, 88499, 88470, 88441, 88412, 88382, 88353, 88324, 88295, 88265, 88236, 88207, 88177, 88148, 88119, 88089, 88060, 88030, 88000, 87971, 87941, 
87911, 87882, 87852, 87822, 87792, 87762, 87733, 87703, 87673, 87643, 87613, 87583, 87552, 87522, 87492, 87462, 87432, 87401, 87371, 87341, 87310, 
87280, 87250, 87219, 87189, 87158, 87128, 87097, 87066, 87036, 87005, 86974, 86943, 86913, 86882, 86851, 86820, 86789, 86758, 86727, 86696, 86665, 
86634, 86603, 86571, 86540, 86509, 86478, 86446, 86415, 86384, 86352, 86321, 86289, 86258, 86226, 86195, 86163, 86131, 86100, 86068, 86036, 86004, 
85972, 85941, 85909, 85877, 85845, 85813, 85781, 85749, 85717, 85685, 85652, 85620, 85588, 85556, 85524, 85491, 85459, 85426, 85394, 85362, 85329, 
85297, 85264, 85231, 85199, 85166, 85133, 85101, 85068, 85035, 85002, 84970, 84937, 84904, 84871, 84838, 84805, 84772, 84739, 84706, 84672, 84639, 
84606, 84573, 84540, 84506, 84473, 84439, 84406, 84373, 84339, 84306, 84272, 84239, 84205, 84171, 84138, 84104, 84070, 84036, 84003, 83969, 83935, 
83901, 83867, 83833, 83799, 83765, 83731, 83697, 83663, 83629, 83594, 83560, 83526, 83492, 83457, 83423, 83389, 83354, 83320, 83285, 83251, 83216, 
83182, 83147, 83112, 83078, 83043, 83008, 82973, 82939, 82904, 82869, 82834, 82799, 82764, 82729, 82694, 82659, 82624, 82589, 82554, 82518, 82483, 
82448, 82413, 82377, 82342, 82307, 82271, 82236, 82200, 82165, 82129, 82094, 82058, 82022, 81987, 81951, 81915, 81879, 81844, 81808, 81772, 81736, 
81700, 81664, 81628, 81592, 81556, 81520, 81484, 81448, 81412, 81375, 81339, 81303, 81267, 81230, 81194, 81157, 81121, 81084, 81048, 81011, 80975, 
80938, 80902, 80865, 80828, 80792, 80755, 80718, 80681, 80644, 80608, 80571, 80534, 80497, 80460, 80423, 80386, 80349, 80311, 80274, 80237, 80200, 
80163, 80125, 80088, 80051, 80013, 79976, 79939, 79901, 79864, 79826, 79788, 79751, 79713, 79676, 79638, 79600, 79562, 79525, 79487, 79449, 79411, 
79373, 79335, 79297, 79259, 79221, 79183, 79145, 79107, 79069, 79031, 78993, 78954, 78916, 78878, 78839, 78801, 78763, 78724, 78686, 78647, 78609, 
78570, 78532, 78493, 78454, 78416, 78377, 78338, 78300, 78261, 78222, 78183, 78144, 78105, 78066, 78027, 77988, 77949, 77910, 77871, 77832, 77793, 
77754, 77715, 77675, 77636, 77597, 77557, 77518, 77479, 77439, 77400, 77360, 77321, 77281, 77242, 77202, 77162, 77123, 77083, 77043, 77004, 76964, 
76924, 76884, 76844, 76804, 76764, 76725, 76685, 76644, 76604, 76564, 76524, 76484, 76444, 76404, 76364, 76323, 76283, 76243, 76202, 76162, 76122, 
76081, 76041, 76000, 75960, 75919, 75878, 75838, 75797, 75756, 75716, 75675, 75634, 75594, 75553, 75512, 75471, 75430, 75389, 75348, 75307, 75266, 
75225, 75184, 75143, 75102, 75061, 75019, 74978, 74937, 74896, 74854, 74813, 74772, 74730, 74689, 74647, 74606, 74564, 74523, 74481, 74439, 74398, 
74356, 74314, 74273, 74231, 74189, 74147, 74106, 74064, 74022, 73980, 73938, 73896, 73854, 73812, 73770, 73728, 73686, 73643, 73601, 73559, 73517, 
73475, 73432, 73390, 73348, 73305, 73263, 73220, 73178, 73135, 73093, 73050, 73008, 72965, 72922, 72880, 72837, 72794, 72752, 72709, 72666, 72623, 
72580, 72537, 72495, 72452, 72409, 72366, 72323, 72279, 72236, 72193, 72150, 72107, 72064, 72021, 71977, 71934, 71891, 71847, 71804, 71761, 71717, 
71674, 71630, 71587, 71543, 71500, 71456, 71412, 71369, 71325, 71281, 71238, 71194, 71150, 71106, 71062, 71019, 70975, 70931, 70887, 70843, 70799, 
70755, 70711, 70667, 70622, 70578, 70534, 70490, 70446, 70401, 70357, 70313, 70269, 70224, 70180, 70135, 70091, 70046, 70002, 69957, 69913, 69868, 
69824, 69779, 69734, 69690, 69645, 69600, 69555, 69511, 69466, 69421, 69376, 69331, 69286, 69241, 69196, 69151, 69106, 69061, 69016, 68971, 68926, 
68881, 68835, 68790, 68745, 68700, 68654, 68609, 68564, 68518, 68473, 68427, 68382, 68336, 68291, 68245, 68200, 68154, 68109, 68063, 68017, 67972, 
67926, 67880, 67834, 67788, 67743, 67697, 67651, 67605, 67559, 67513, 67467, 67421, 67375, 67329, 67283, 67237, 67191, 67144, 67098, 67052, 67006, 
66959, 66913, 66867, 66820, 66774, 66728, 66681, 66635, 66588, 66542, 66495, 66449, 66402, 66355, 66309, 66262, 66215, 66169, 66122, 66075, 66028, 
65981, 65935, 65888, 65841, 65794, 65747, 65700, 65653, 65606, 65559, 65512, 65465, 65418, 65370, 65323, 65276, 65229, 65181, 65134, 65087, 65040, 
64992, 64945, 64897, 64850, 64802, 64755, 64707, 64660, 64612, 64565, 64517, 64470, 64422, 64374, 64326, 64279, 64231, 64183, 64135, 64088, 64040, 
63992, 63944, 63896, 63848, 63800, 63752, 63704, 63656, 63608, 63560, 63512, 63463, 63415, 63367, 63319, 63271, 63222, 63174, 63126, 63077, 63029, 
62980, 62932, 62884, 62835, 62787, 62738, 62690, 62641, 62592, 62544, 62495, 62446, 62398, 62349, 62300, 62251, 62203, 62154, 62105, 62056, 62007, 
61958, 61909, 61860, 61811, 61762, 61713, 61664, 61615, 61566, 61517, 61468, 61419, 61369, 61320, 61271, 61222, 61172, 61123, 61074, 61024, 60975, 
60926, 60876, 60827, 60777, 60728, 60678, 60629, 60579, 60529, 60480, 60430, 60380, 60331, 60281, 60231, 60182, 60132, 60082, 60032, 59982, 59932, 
59882, 59832, 59783, 59733, 59683, 59632, 59582, 59532, 59482, 59432, 59382, 59332, 59282, 59231, 59181, 59131, 59081, 59030, 58980, 58930, 58879, 
58829, 58779, 58728, 58678, 58627, 58577, 58526, 58476, 58425, 58374, 58324, 58273, 58222, 58172, 58121, 58070, 58020, 57969, 57918, 57867, 57816, 
57765, 57715, 57664, 57613, 57562, 57511, 57460, 57409, 57358, 57307, 57255, 57204, 57153, 57102, 57051, 57000, 56948, 56897, 56846, 56795, 56743, 
56692, 56641, 56589, 56538, 56486, 56435, 56383, 56332, 56280, 56229, 56177, 56126, 56074, 56023, 55971, 55919, 55868, 55816, 55764, 55712, 55661, 
55609, 55557, 55505, 55453, 55401, 55350, 55298, 55246, 55194, 55142, 55090, 55038, 54986, 54934, 54881, 54829, 54777, 54725, 54673, 54621, 54568, 
54516, 54464, 54412, 54359, 54307, 54255, 54202, 54150, 54097, 54045, 53993, 53940, 53888, 53835, 53783, 53730, 53677, 53625, 53572, 53520, 53467, 
53414, 53361, 53309, 53256, 53203, 53150, 53098, 53045, 52992, 52939, 52886, 52833, 52780, 52727, 52674, 52621, 52568, 52515, 52462, 52409, 52356, 
52303, 52250, 52197, 52144, 52090, 52037, 51984, 51931, 51877, 51824, 51771, 51717, 51664, 51611, 51557, 51504, 51450, 51397, 51343, 51290, 51236, 
51183, 51129, 51076, 51022, 50969, 50915, 50861, 50808, 50754, 50700, 50646, 50593, 50539, 50485, 50431, 50377, 50324, 50270, 50216, 50162, 50108, 
50054, 50000, 49946, 49892, 49838, 49784, 49730, 49676, 49622, 49568, 49513, 49459, 49405, 49351, 49297, 49242, 49188, 49134, 49080, 49025, 48971, 
48917, 48862, 48808, 48753, 48699, 48644, 48590, 48535, 48481, 48426, 48372, 48317, 48263, 48208, 48154, 48099, 48044, 47990, 47935, 47880, 47825, 
47771, 47716, 47661, 47606, 47551, 47497, 47442, 47387, 47332, 47277, 47222, 47167, 47112, 47057, 47002, 46947, 46892, 46837, 46782, 46727, 46672, 
46617, 46561, 46506, 46451, 46396, 46341, 46285, 46230, 46175, 46120, 46064, 46009, 45954, 45898, 45843, 45787, 45732, 45677, 45621, 45566, 45510, 
45455, 45399, 45344, 45288, 45232, 45177, 45121, 45065, 45010, 44954, 44898, 44843, 44787, 44731, 44676, 44620, 44564, 44508, 44452, 44397, 44341, 
44285, 44229, 44173, 44117, 44061, 44005, 43949, 43893, 43837, 43781, 43725, 43669, 43613, 43557, 43501, 43445, 43388, 43332, 43276, 43220, 43164, 
43107, 43051, 42995, 42939, 42882, 42826, 42770, 42713, 42657, 42600, 42544, 42488, 42431, 42375, 42318, 42262, 42205, 42149, 42092, 42036, 41979, 
41923, 41866, 41809, 41753, 41696, 41639, 41583, 41526, 41469, 41413, 41356, 41299, 41242, 41186, 41129, 41072, 41015, 40958, 40901, 40844, 40788, 
40731, 40674, 40617, 40560, 40503, 40446, 40389, 40332, 40275, 40218, 40161, 40103, 40046, 39989, 39932, 39875, 39818, 39761, 39703, 39646, 39589, 
39532, 39474, 39417, 39360, 39303, 39245, 39188, 39130, 39073, 39016, 38958, 38901, 38843, 38786, 38729, 38671, 38614, 38556, 38499, 38441, 38383, 
38326, 38268, 38211, 38153, 38096, 38038, 37980, 37923, 37865, 37807, 37749, 37692, 37634, 37576, 37518, 37461, 37403, 37345, 37287, 37229, 37172, 
37114, 37056, 36998, 36940, 36882, 36824, 36766, 36708, 36650, 36592, 36534, 36476, 36418, 36360, 36302, 36244, 36186, 36128, 36069, 36011, 35953, 
35895, 35837, 35779, 35720, 35662, 35604, 35546, 35487, 35429, 35371, 35312, 35254, 35196, 35137, 35079, 35021, 34962, 34904, 34846, 34787, 34729, 
34670, 34612, 34553, 34495, 34436, 34378, 34319, 34261, 34202, 34143, 34085, 34026, 33968, 33909, 33850, 33792, 33733, 33674, 33616, 33557, 33498, 
33439, 33381, 33322, 33263, 33204, 33146, 33087, 33028, 32969, 32910, 32851, 32792, 32734, 32675, 32616, 32557, 32498, 32439, 32380, 32321, 32262, 
32203, 32144, 32085, 32026, 31967, 31908, 31849, 31790, 31730, 31671, 31612, 31553, 31494, 31435, 31376, 31316, 31257, 31198, 31139, 31079, 31020, 
30961, 30902, 30842, 30783, 30724, 30664, 30605, 30546, 30486, 30427, 30368, 30308, 30249, 30189, 30130, 30071, 30011, 29952, 29892, 29833, 29773, 
29714, 29654, 29595, 29535, 29476, 29416, 29356, 29297, 29237, 29178, 29118, 29058, 28999, 28939, 28879, 28820, 28760, 28700, 28641, 28581, 28521, 
28461, 28402, 28342, 28282, 28222, 28162, 28103, 28043, 27983, 27923, 27863, 27803, 27743, 27684, 27624, 27564, 27504, 27444, 27384, 27324, 27264, 
27204, 27144, 27084, 27024, 26964, 26904, 26844, 26784, 26724, 26664, 26604, 26544, 26483, 26423, 26363, 26303, 26243, 26183, 26123, 26062, 26002, 
25942, 25882, 25822, 25761, 25701, 25641, 25581, 25520, 25460, 25400, 25340, 25279, 25219, 25159, 25098, 25038, 24978, 24917, 24857, 24797, 24736, 
24676, 24615, 24555, 24494, 24434, 24374, 24313, 24253, 24192, 24132, 24071, 24011, 23950, 23890, 23829, 23769, 23708, 23647, 23587, 23526, 23466, 
23405, 23345, 23284, 23223, 23163, 23102, 23041, 22981, 22920, 22859, 22799, 22738, 22677, 22617, 22556, 22495, 22434, 22374, 22313, 22252, 22191, 
22131, 22070, 22009, 21948, 21887, 21826, 21766, 21705, 21644, 21583, 21522, 21461, 21400, 21340, 21279, 21218, 21157, 21096, 21035, 20974, 20913, 
20852, 20791, 20730, 20669, 20608, 20547, 20486, 20425, 20364, 20303, 20242, 20181, 20120, 20059, 19998, 19937, 19876, 19815, 19754, 19692, 19631, 
19570, 19509, 19448, 19387, 19326, 19264, 19203, 19142, 19081, 19020, 18959, 18897, 18836, 18775, 18714, 18652, 18591, 18530, 18469, 18407, 18346, 
18285, 18224, 18162, 18101, 18040, 17978, 17917, 17856, 17794, 17733, 17672, 17610, 17549, 17488, 17426, 17365, 17303, 17242, 17181, 17119, 17058, 
16996, 16935, 16874, 16812, 16751, 16689, 16628, 16566, 16505, 16443, 16382, 16320, 16259, 16197, 16136, 16074, 16013, 15951, 15890, 15828, 15767, 
15705, 15643, 15582, 15520, 15459, 15397, 15336, 15274, 15212, 15151, 15089, 15027, 14966, 14904, 14843, 14781, 14719, 14658, 14596, 14534, 14473, 
14411, 14349, 14288, 14226, 14164, 14102, 14041, 13979, 13917, 13856, 13794, 13732, 13670, 13609, 13547, 13485, 13423, 13362, 13300, 13238, 13176, 
13114, 13053, 12991, 12929, 12867, 12805, 12744, 12682, 12620, 12558, 12496, 12434, 12373, 12311, 12249, 12187, 12125, 12063, 12001, 11939, 11878, 
11816, 11754, 11692, 11630, 11568, 11506, 11444, 11382, 11320, 11258, 11196, 11135, 11073, 11011, 10949, 10887, 10825, 10763, 10701, 10639, 10577, 
10515, 10453, 10391, 10329, 10267, 10205, 10143, 10081, 10019, 9957, 9895, 9833, 9771, 9709, 9647, 9585, 9523, 9460, 9398, 9336, 9274, 9212, 9150, 
9088, 9026, 8964, 8902, 8840, 8778, 8716, 8653, 8591, 8529, 8467, 8405, 8343, 8281, 8219, 8157, 8094, 8032, 7970, 7908, 7846, 7784, 7722, 7659, 7597, 
7535, 7473, 7411, 7349, 7287, 7224, 7162, 7100, 7038, 6976, 6913, 6851, 6789, 6727, 6665, 6603, 6540, 6478, 6416, 6354, 6291, 6229, 6167, 6105, 6043, 
5980, 5918, 5856, 5794, 5732, 5669, 5607, 5545, 5483, 5420, 5358, 5296, 5234, 5171, 5109, 5047, 4985, 4922, 4860, 4798, 4736, 4673, 4611, 4549, 4486, 
4424, 4362, 4300, 4237, 4175, 4113, 4051, 3988, 3926, 3864, 3801, 3739, 3677, 3615, 3552, 3490, 3428, 3365, 3303, 3241, 3178, 3116, 3054, 2992, 2929, 
2867, 2805, 2742, 2680, 2618, 2555, 2493, 2431, 2368, 2306, 2244, 2181, 2119, 2057, 1995, 1932, 1870, 1808, 1745, 1683, 1621, 1558, 1496, 1434, 1371, 
1309, 1247, 1184, 1122, 1060, 997, 935, 873, 810, 748, 686, 623, 561, 499, 436, 374, 312, 249, 187, 125, 62, 0>>
T2 == <<100000, 100000, 100000, 99999, 99999, 99998, 99998, 99997, 99996, 99995, 99994, 99993, 99991, 99990, 99988, 99986, 99985, 99983, 99980, 99978, 99976, 
99973, 99971, 99968, 99965, 99962, 99959, 99956, 99953, 99949, 99946, 99942, 99938, 99934, 99930, 99926, 99922, 99917, 99913, 99908, 99903, 99899, 
99894, 99888, 99883, 99878, 99872, 99867, 99861, 99855, 99849, 99843, 99837, 99831, 99824, 99818, 99811, 99804, 99797, 99790, 99783, 99776, 99768, 
99761, 99753, 99745, 99737, 99729, 99721, 99713, 99705, 99696, 99687, 99679, 99670, 99661, 99652, 99643, 99633, 99624, 99614, 99604, 99595, 99585, 
99575, 99564, 99554, 99544, 99533, 99523, 99512, 99501, 99490, 99479, 99467, 99456, 99445, 99433, 99421, 99409, 99397, 99385, 99373, 99361, 99348, 
99336, 99323, 99310, 99297, 99284, 99271, 99258, 99244, 99231, 99217, 99203, 99189, 99175, 99161, 99147, 99132, 99118, 99103, 99089, 99074, 99059, 
99044, 99029, 99013, 98998, 98982, 98966, 98951, 98935, 98919, 98902, 98886, 98870, 98853, 98837, 98820, 98803, 98786, 98769, 98752, 98734, 98717, 
98699, 98681, 98664, 98646, 98628, 98609, 98591, 98573, 98554, 98535, 98517, 98498, 98479, 98460, 98440, 98421, 98401, 98382, 98362, 98342, 98322, 
98302, 98282, 98262, 98241, 98220, 98200, 98179, 98158, 98137, 98116, 98095, 98073, 98052, 98030, 98008, 97986, 97964, 97942, 97920, 97898, 97875, 
97853, 97830, 97807, 97784, 97761, 97738, 97715, 97691, 97668, 97644, 97620, 97596, 97572, 97548, 97524, 97500, 97475, 97451, 97426, 97401, 97376, 
97351, 97326, 97301, 97275, 97250, 97224, 97198, 97173, 97147, 97120, 97094, 97068, 97041, 97015, 96988, 96961, 96934, 96907, 96880, 96853, 96825, 
96798, 96770, 96743, 96715, 96687, 96659, 96630, 96602, 96574, 96545, 96516, 96488, 96459, 96430, 96400, 96371, 96342, 96312, 96283, 96253, 96223, 
96193, 96163, 96133, 96103, 96072, 96042, 96011, 95980, 95949, 95918, 95887, 95856, 95825, 95793, 95762, 95730, 95698, 95666, 95634, 95602, 95570, 
95537, 95505, 95472, 95439, 95406, 95374, 95340, 95307, 95274, 95241, 95207, 95173, 95140, 95106, 95072, 95038, 95003, 94969, 94934, 94900, 94865, 
94830, 94796, 94760, 94725, 94690, 94655, 94619, 94584, 94548, 94512, 94476, 94440, 94404, 94368, 94331, 94295, 94258, 94221, 94184, 94147, 94110, 
94073, 94036, 93998, 93961, 93923, 93885, 93848, 93810, 93772, 93733, 93695, 93657, 93618, 93579, 93541, 93502, 93463, 93423, 93384, 93345, 93305, 
93266, 93226, 93186, 93146, 93106, 93066, 93026, 92986, 92945, 92905, 92864, 92823, 92782, 92741, 92700, 92659, 92617, 92576, 92534, 92493, 92451, 
92409, 92367, 92325, 92283, 92240, 92198, 92155, 92112, 92070, 92027, 91984, 91940, 91897, 91854, 91810, 91767, 91723, 91679, 91635, 91591, 91547, 
91503, 91458, 91414, 91369, 91325, 91280, 91235, 91190, 91145, 91100, 91054, 91009, 90963, 90918, 90872, 90826, 90780, 90734, 90687, 90641, 90595, 
90548, 90501, 90455, 90408, 90361, 90314, 90266, 90219, 90172, 90124, 90076, 90029, 89981, 89933, 89885, 89837, 89788, 89740, 89691, 89643, 89594, 
89545, 89496, 89447, 89398, 89349, 89299, 89250, 89200, 89150, 89101, 89051, 89001, 88951, 88900, 88850, 88800, 88749, 88698, 88647, 88597, 88546, 
88495, 88443, 88392, 88341, 88289, 88237, 88186, 88134, 88082, 88030, 87978, 87925, 87873, 87820, 87768, 87715, 87662, 87609, 87556, 87503, 87450, 
87397, 87343, 87290, 87236, 87182, 87129, 87075, 87021, 86966, 86912, 86858, 86803, 86749, 86694, 86639, 86584, 86529, 86474, 86419, 86364, 86308, 
86253, 86197, 86141, 86085, 86029, 85973, 85917, 85861, 85805, 85748, 85692, 85635, 85578, 85521, 85464, 85407, 85350, 85293, 85235, 85178, 85120, 
85063, 85005, 84947, 84889, 84831, 84772, 84714, 84656, 84597, 84539, 84480, 84421, 84362, 84303, 84244, 84185, 84125, 84066, 84006, 83947, 83887, 
83827, 83767, 83707, 83647, 83587, 83526, 83466, 83405, 83345, 83284, 83223, 83162, 83101, 83040, 82979, 82917, 82856, 82794, 82733, 82671, 82609, 
82547, 82485, 82423, 82361, 82298, 82236, 82173, 82111, 82048, 81985, 81922, 81859, 81796, 81733, 81669, 81606, 81542, 81479, 81415, 81351, 81287, 
81223, 81159, 81095, 81031, 80966, 80902, 80837, 80772, 80708, 80643, 80578, 80513, 80447, 80382, 80317, 80251, 80186, 80120, 80054, 79988, 79922, 
79856, 79790, 79724, 79657, 79591, 79524, 79458, 79391, 79324, 79257, 79190, 79123, 79056, 78989, 78921, 78854, 78786, 78718, 78651, 78583, 78515, 
78447, 78378, 78310, 78242, 78173, 78105, 78036, 77967, 77899, 77830, 77761, 77692, 77622, 77553, 77484, 77414, 77345, 77275, 77205, 77135, 77065, 
76995, 76925, 76855, 76785, 76714, 76644, 76573, 76502, 76432, 76361, 76290, 76219, 76148, 76076, 76005, 75933, 75862, 75790, 75719, 75647, 75575, 
75503, 75431, 75359, 75286, 75214, 75142, 75069, 74997, 74924, 74851, 74778, 74705, 74632, 74559, 74486, 74412, 74339, 74265, 74192, 74118, 74044, 
73971, 73897, 73822, 73748, 73674, 73600, 73525, 73451, 73376, 73302, 73227, 73152, 73077, 73002, 72927, 72852, 72776, 72701, 72626, 72550, 72474, 
72399, 72323, 72247, 72171, 72095, 72019, 71942, 71866, 71790, 71713, 71637, 71560, 71483, 71406, 71329, 71252, 71175, 71098, 71021, 70943, 70866, 
70788, 70711, 70633, 70555, 70477, 70399, 70321, 70243, 70165, 70087, 70008, 69930, 69851, 69772, 69694, 69615, 69536, 69457, 69378, 69299, 69220, 
69140, 69061, 68981, 68902, 68822, 68742, 68663, 68583, 68503, 68423, 68343, 68262, 68182, 68102, 68021, 67941, 67860, 67779, 67698, 67617, 67537, 
67455, 67374, 67293, 67212, 67130, 67049, 66967, 66886, 66804, 66722, 66641, 66559, 66477, 66394, 66312, 66230, 66148, 66065, 65983, 65900, 65818, 
65735, 65652, 65569, 65486, 65403, 65320, 65237, 65153, 65070, 64987, 64903, 64819, 64736, 64652, 64568, 64484, 64400, 64316, 64232, 64148, 64063, 
63979, 63895, 63810, 63725, 63641, 63556, 63471, 63386, 63301, 63216, 63131, 63046, 62960, 62875, 62790, 62704, 62619, 62533, 62447, 62361, 62275, 
62189, 62103, 62017, 61931, 61845, 61758, 61672, 61585, 61499, 61412, 61325, 61239, 61152, 61065, 60978, 60891, 60803, 60716, 60629, 60542, 60454, 
60367, 60279, 60191, 60103, 60016, 59928, 59840, 59752, 59664, 59575, 59487, 59399, 59310, 59222, 59133, 59045, 58956, 58867, 58779, 58690, 58601, 
58512, 58422, 58333, 58244, 58155, 58065, 57976, 57886, 57797, 57707, 57617, 57527, 57438, 57348, 57258, 57168, 57077, 56987, 56897, 56806, 56716, 
56626, 56535, 56444, 56354, 56263, 56172, 56081, 55990, 55899, 55808, 55717, 55626, 55534, 55443, 55351, 55260, 55168, 55077, 54985, 54893, 54801, 
54709, 54617, 54525, 54433, 54341, 54249, 54156, 54064, 53972, 53879, 53787, 53694, 53601, 53508, 53416, 53323, 53230, 53137, 53044, 52951, 52857, 
52764, 52671, 52577, 52484, 52390, 52297, 52203, 52109, 52016, 51922, 51828, 51734, 51640, 51546, 51451, 51357, 51263, 51169, 51074, 50980, 50885, 
50791, 50696, 50601, 50506, 50412, 50317, 50222, 50127, 50032, 49937, 49841, 49746, 49651, 49555, 49460, 49364, 49269, 49173, 49078, 48982, 48886, 
48790, 48694, 48598, 48502, 48406, 48310, 48214, 48118, 48021, 47925, 47828, 47732, 47635, 47539, 47442, 47345, 47249, 47152, 47055, 46958, 46861, 
46764, 46667, 46570, 46472, 46375, 46278, 46180, 46083, 45985, 45888, 45790, 45692, 45595, 45497, 45399, 45301, 45203, 45105, 45007, 44909, 44811, 
44713, 44614, 44516, 44418, 44319, 44221, 44122, 44024, 43925, 43826, 43727, 43629, 43530, 43431, 43332, 43233, 43134, 43035, 42935, 42836, 42737, 
42638, 42538, 42439, 42339, 42240, 42140, 42040, 41941, 41841, 41741, 41641, 41542, 41442, 41342, 41242, 41141, 41041, 40941, 40841, 40741, 40640, 
40540, 40439, 40339, 40238, 40138, 40037, 39936, 39836, 39735, 39634, 39533, 39432, 39331, 39230, 39129, 39028, 38927, 38826, 38725, 38623, 38522, 
38421, 38319, 38218, 38116, 38014, 37913, 37811, 37709, 37608, 37506, 37404, 37302, 37200, 37098, 36996, 36894, 36792, 36690, 36588, 36485, 36383, 
36281, 36178, 36076, 35973, 35871, 35768, 35666, 35563, 35460, 35358, 35255, 35152, 35049, 34946, 34843, 34740, 34637, 34534, 34431, 34328, 34225, 
34122, 34018, 33915, 33812, 33708, 33605, 33501, 33398, 33294, 33191, 33087, 32983, 32880, 32776, 32672, 32568, 32464, 32361, 32257, 32153, 32049, 
31945, 31840, 31736, 31632, 31528, 31424, 31319, 31215, 31111, 31006, 30902, 30797, 30693, 30588, 30484, 30379, 30274, 30170, 30065, 29960, 29855, 
29750, 29645, 29540, 29436, 29331, 29225, 29120, 29015, 28910, 28805, 28700, 28595, 28489, 28384, 28279, 28173, 28068, 27962, 27857, 27751, 27646, 
27540, 27435, 27329, 27223, 27118, 27012, 26906, 26800, 26694, 26589, 26483, 26377, 26271, 26165, 26059, 25953, 25847, 25740, 25634, 25528, 25422, 
25316, 25209, 25103, 24997, 24890, 24784, 24677, 24571, 24464, 24358, 24251, 24145, 24038, 23932, 23825, 23718, 23611, 23505, 23398, 23291, 23184, 
23077, 22971, 22864, 22757, 22650, 22543, 22436, 22329, 22221, 22114, 22007, 21900, 21793, 21686, 21578, 21471, 21364, 21257, 21149, 21042, 20934, 
20827, 20720, 20612, 20505, 20397, 20289, 20182, 20074, 19967, 19859, 19751, 19644, 19536, 19428, 19320, 19213, 19105, 18997, 18889, 18781, 18673, 
18565, 18458, 18350, 18242, 18134, 18026, 17917, 17809, 17701, 17593, 17485, 17377, 17269, 17160, 17052, 16944, 16836, 16727, 16619, 16511, 16402, 
16294, 16186, 16077, 15969, 15860, 15752, 15643, 15535, 15426, 15318, 15209, 15101, 14992, 14884, 14775, 14666, 14558, 14449, 14340, 14231, 14123, 
14014, 13905, 13796, 13688, 13579, 13470, 13361, 13252, 13143, 13034, 12926, 12817, 12708, 12599, 12490, 12381, 12272, 12163, 12054, 11945, 11836, 
11726, 11617, 11508, 11399, 11290, 11181, 11072, 10963, 10853, 10744, 10635, 10526, 10416, 10307, 10198, 10089, 9979, 9870, 9761, 9651, 9542, 9433, 
9323, 9214, 9105, 8995, 8886, 8776, 8667, 8558, 8448, 8339, 8229, 8120, 8010, 7901, 7791, 7682, 7572, 7463, 7353, 7243, 7134, 7024, 6915, 6805, 6696, 
6586, 6476, 6367, 6257, 6147, 6038, 5928, 5819, 5709, 5599, 5490, 5380, 5270, 5160, 5051, 4941, 4831, 4722, 4612, 4502, 4392, 4283, 4173, 4063, 3953, 
3844, 3734, 3624, 3514, 3405, 3295, 3185, 3075, 2965, 2856, 2746, 2636, 2526, 2416, 2307, 2197, 2087, 1977, 1867, 1757, 1648, 1538, 1428, 1318, 1208, 
1098, 989, 879, 769, 659, 549, 439, 330, 220, 110, 0>>
T3 == <<100000, 100000, 99999, 99997, 99995, 99993, 99990, 99986, 99982, 99977, 99972, 99966, 99959, 99952, 99944, 99936, 99928, 99918, 99908, 99898, 99887, 
99875, 99863, 99850, 99837, 99823, 99809, 99794, 99778, 99762, 99745, 99728, 99710, 99692, 99673, 99653, 99633, 99613, 99591, 99570, 99547, 99524, 
99501, 99477, 99452, 99427, 99401, 99375, 99348, 99321, 99293, 99264, 99235, 99205, 99175, 99144, 99113, 99081, 99049, 99016, 98982, 98948, 98913, 
98878, 98842, 98806, 98769, 98731, 98693, 98655, 98615, 98576, 98535, 98495, 98453, 98411, 98369, 98325, 98282, 98238, 98193, 98148, 98102, 98055, 
98008, 97961, 97913, 97864, 97815, 97765, 97715, 97664, 97612, 97560, 97508, 97455, 97401, 97347, 97292, 97237, 97181, 97125, 97068, 97010, 96952, 
96894, 96835, 96775, 96715, 96654, 96593, 96531, 96468, 96405, 96342, 96278, 96213, 96148, 96082, 96016, 95949, 95882, 95814, 95746, 95677, 95607, 
95537, 95467, 95396, 95324, 95252, 95179, 95106, 95032, 94957, 94883, 94807, 94731, 94655, 94578, 94500, 94422, 94343, 94264, 94184, 94104, 94023, 
93942, 93860, 93778, 93695, 93612, 93528, 93443, 93358, 93272, 93186, 93100, 93013, 92925, 92837, 92748, 92659, 92569, 92479, 92388, 92297, 92205, 
92112, 92019, 91926, 91832, 91738, 91643, 91547, 91451, 91355, 91257, 91160, 91062, 90963, 90864, 90764, 90664, 90564, 90462, 90361, 90259, 90156, 
90053, 89949, 89845, 89740, 89635, 89529, 89423, 89316, 89208, 89101, 88992, 88884, 88774, 88664, 88554, 88443, 88332, 88220, 88108, 87995, 87882, 
87768, 87654, 87539, 87423, 87308, 87191, 87075, 86957, 86840, 86721, 86603, 86483, 86364, 86243, 86123, 86001, 85880, 85758, 85635, 85512, 85388, 
85264, 85139, 85014, 84889, 84763, 84636, 84509, 84382, 84254, 84125, 83996, 83867, 83737, 83607, 83476, 83345, 83213, 83081, 82948, 82815, 82681, 
82547, 82413, 82278, 82142, 82006, 81870, 81733, 81595, 81458, 81319, 81181, 81041, 80902, 80762, 80621, 80480, 80338, 80197, 80054, 79911, 79768, 
79624, 79480, 79335, 79190, 79045, 78899, 78752, 78605, 78458, 78310, 78162, 78013, 77864, 77715, 77565, 77414, 77263, 77112, 76960, 76808, 76655, 
76502, 76349, 76195, 76041, 75886, 75731, 75575, 75419, 75262, 75105, 74948, 74790, 74632, 74474, 74314, 74155, 73995, 73835, 73674, 73513, 73351, 
73189, 73027, 72864, 72701, 72537, 72373, 72209, 72044, 71879, 71713, 71547, 71381, 71214, 71046, 70879, 70711, 70542, 70373, 70204, 70034, 69864, 
69694, 69523, 69352, 69180, 69008, 68835, 68663, 68489, 68316, 68142, 67967, 67793, 67617, 67442, 67266, 67090, 66913, 66736, 66559, 66381, 66203, 
66024, 65845, 65666, 65486, 65306, 65126, 64945, 64764, 64582, 64400, 64218, 64035, 63852, 63669, 63485, 63301, 63117, 62932, 62747, 62561, 62376, 
62189, 62003, 61816, 61629, 61441, 61253, 61065, 60876, 60687, 60498, 60308, 60118, 59928, 59737, 59546, 59355, 59163, 58971, 58779, 58586, 58393, 
58199, 58006, 57812, 57617, 57423, 57228, 57032, 56837, 56641, 56444, 56248, 56051, 55854, 55656, 55458, 55260, 55061, 54862, 54663, 54464, 54264, 
54064, 53864, 53663, 53462, 53261, 53059, 52857, 52655, 52453, 52250, 52047, 51843, 51640, 51436, 51232, 51027, 50822, 50617, 50412, 50206, 50000, 
49794, 49587, 49380, 49173, 48966, 48758, 48550, 48342, 48134, 47925, 47716, 47507, 47297, 47087, 46877, 46667, 46456, 46245, 46034, 45823, 45611, 
45399, 45187, 44974, 44762, 44549, 44336, 44122, 43908, 43694, 43480, 43266, 43051, 42836, 42621, 42406, 42190, 41974, 41758, 41542, 41325, 41108, 
40891, 40674, 40456, 40238, 40020, 39802, 39584, 39365, 39146, 38927, 38708, 38488, 38268, 38048, 37828, 37608, 37387, 37166, 36945, 36724, 36502, 
36281, 36059, 35837, 35615, 35392, 35169, 34946, 34723, 34500, 34277, 34053, 33829, 33605, 33381, 33156, 32932, 32707, 32482, 32257, 32031, 31806, 
31580, 31354, 31128, 30902, 30675, 30449, 30222, 29995, 29768, 29540, 29313, 29085, 28858, 28630, 28402, 28173, 27945, 27716, 27487, 27259, 27029, 
26800, 26571, 26341, 26112, 25882, 25652, 25422, 25192, 24961, 24731, 24500, 24269, 24038, 23807, 23576, 23345, 23113, 22881, 22650, 22418, 22186, 
21954, 21721, 21489, 21257, 21024, 20791, 20558, 20325, 20092, 19859, 19626, 19392, 19159, 18925, 18691, 18458, 18224, 17989, 17755, 17521, 17287, 
17052, 16818, 16583, 16348, 16113, 15878, 15643, 15408, 15173, 14938, 14702, 14467, 14231, 13996, 13760, 13524, 13289, 13053, 12817, 12581, 12344, 
12108, 11872, 11636, 11399, 11163, 10926, 10690, 10453, 10216, 9979, 9742, 9506, 9269, 9032, 8795, 8558, 8320, 8083, 7846, 7609, 7371, 7134, 6897, 
6659, 6422, 6184, 5946, 5709, 5471, 5234, 4996, 4758, 4520, 4283, 4045, 3807, 3569, 3331, 3093, 2856, 2618, 2380, 2142, 1904, 1666, 1428, 1190, 952, 
714, 476, 238, 0>>
Tabulated(D) == 10080 % D = 0 \/ 5720 % D = 0 \/ 2640 % D = 0
Quarter(T, k, D) ==                  \* 0 <= k < D, D the table's steps per turn
  LET h == IF 2 * k <= D THEN k ELSE D - k
  IN  IF 4 * h <= D THEN T[h + 1] ELSE -T[((D \div 2) - h) + 1]
Cos(k, D) ==
  LET j == k % D
  IN  IF 10080 % D = 0 THEN Quarter(T1, j * (10080 \div D), 10080)
      ELSE IF 2640 % D = 0 THEN Quarter(T3, j * (2640 \div D), 2640)
      ELSE Quarter(T2, j * (5720 \div D), 5720)
\* sin x = cos(x - 1/4 turn)
Sin(k, D) == 
  LET j == k % D
      Q(T, B) == Quarter(T, ((j * (B \div D)) + (B - (B \div 4))) % B, B)
  IN  IF 10080 % D = 0 THEN Q(T1, 10080)
      ELSE IF 2640 % D = 0 THEN Q(T3, 2640)
      ELSE Q(T2, 5720)
=============================================================================

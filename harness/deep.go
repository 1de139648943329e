package main

// Names whose private indices under the keys of pool() share long prefixes
// (up to 49 bits), found by searching 4 million names per key.
var deepNames = [][]int{
	{22882, 163603, 165695, 179129, 200865, 231908, 266379, 385078, 385911, 494987, 543696, 549349, 555802, 614692, 640379, 678391, 706602, 728693, 791764, 1014452, 1058225, 1059780, 1059909, 1100315, 1109901, 1140828, 1210625, 1227047, 1288241, 1314779, 1369812, 1473692, 1512717, 1526681, 1530064, 1607293, 1641591, 1735921, 1821377, 1898513, 1898733, 1908504, 1962652, 2014620, 2075210, 2134842, 2214808, 2268958, 2329211, 2340266, 2366140, 2375132, 2375870, 2452838, 2494354, 2494985, 2660622, 2670665, 2914732, 3014758, 3055197, 3076578, 3096310, 3105305, 3187098, 3214615, 3214691, 3234967, 3264524, 3273999, 3360637, 3396839, 3402770, 3402778, 3415270, 3478531, 3491143, 3493279, 3502972, 3522625, 3553207, 3674965, 3717884, 3729464},
	{73038, 82499, 113675, 185849, 193634, 199513, 218061, 221188, 289882, 375953, 426224, 450697, 457847, 505958, 525647, 586226, 620434, 625962, 634160, 642554, 692468, 770499, 808365, 972224, 1014915, 1020264, 1083025, 1153587, 1230105, 1291839, 1401339, 1409678, 1446571, 1555594, 1729281, 1730189, 1731937, 1763269, 1765715, 1781794, 1845183, 1882098, 1931972, 1949746, 1971079, 1971707, 2132783, 2193423, 2199802, 2249518, 2296113, 2340748, 2435952, 2464746, 2485713, 2554598, 2558131, 2575573, 2596676, 2606255, 2687004, 2695530, 2843909, 2845668, 2941225, 2983033, 3067138, 3127049, 3197832, 3275409, 3403231, 3449588, 3535682, 3580098, 3617023, 3617346, 3671946, 3770209, 3801072, 3806136, 3807113, 3815492, 3853101, 3868373},
}

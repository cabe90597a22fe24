// Generated by tools/gen_topo.py: representatives of the isomorphism classes of
// simple graphs; bit k of a mask is the k-th pair (0,1),(0,2),...,(1,2),...
#ifndef TOPO_TABLES_H
#define TOPO_TABLES_H
static const unsigned topo_con_2[] = {1};  // connected
static const unsigned topo_dis_2[] = {0};  // disconnected
static const unsigned topo_con_3[] = {3, 7};  // connected
static const unsigned topo_dis_3[] = {0, 1};  // disconnected
static const unsigned topo_con_4[] = {7, 13, 15, 30, 31, 63};  // connected
static const unsigned topo_dis_4[] = {0, 1, 3, 11, 12};  // disconnected
static const unsigned topo_con_5[] = {15, 29, 31, 58, 59, 62, 63, 126, 127, 185, 187, 191, 207, 220, 221, 223, 254, 255, 495, 511, 1023};  // connected
static const unsigned topo_dis_5[] = {0, 1, 3, 7, 19, 20, 21, 23, 28, 54, 55, 183, 184};  // disconnected
static const unsigned topo_con_6[] = {31, 61, 63, 121, 122, 123, 126, 127, 246, 247, 254, 255, 510, 511, 633, 635, 639, 659, 663, 671, 691, 692, 693, 694, 695, 700, 701, 703, 758, 759, 760, 761, 762, 763, 766, 767, 922, 923, 926, 927, 954, 955, 956, 957, 958, 959, 1022, 1023, 1749, 1751, 1759, 1780, 1781, 1783, 1788, 1789, 1791, 1880, 1881, 1883, 1884, 1885, 1887, 1915, 1916, 1917, 1919, 2012, 2013, 2014, 2015, 2046, 2047, 4060, 4061, 4063, 4095, 5873, 5875, 5879, 5887, 5907, 5911, 5919, 5941, 5943, 5948, 5949, 5950, 5951, 6007, 6010, 6011, 6014, 6015, 6142, 6143, 6654, 6655, 7071, 7100, 7101, 7103, 7166, 7167, 8157, 8159, 8191, 15870, 15871, 16383, 32767};  // connected
static const unsigned topo_dis_6[] = {0, 1, 3, 7, 15, 35, 36, 37, 39, 44, 45, 47, 60, 102, 103, 106, 107, 110, 111, 120, 238, 239, 615, 616, 617, 619, 623, 632, 655, 656, 657, 662, 684, 685, 687, 750, 751, 920, 921, 1743, 1775, 5871, 5872, 5905};  // disconnected
#endif

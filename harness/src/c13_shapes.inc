// generated by tools/gen_hierarchies.py
SHAPE(1, 0, (C<0>))
SHAPE(2, 1, (C<0, C<1>>))
SHAPE(3, 2, (C<0, C<1>, C<2>>))
SHAPE(3, 3, (C<0, C<1, C<2>>>))
SHAPE(4, 4, (C<0, C<1>, C<2>, C<3>>))
SHAPE(4, 5, (C<0, C<1>, C<2, C<3>>>))
SHAPE(4, 6, (C<0, C<1, C<2>>, C<3>>))
SHAPE(4, 7, (C<0, C<1, C<2>, C<3>>>))
SHAPE(4, 8, (C<0, C<1, C<2, C<3>>>>))
SHAPE(5, 9, (C<0, C<1>, C<2>, C<3>, C<4>>))
SHAPE(5, 10, (C<0, C<1>, C<2>, C<3, C<4>>>))
SHAPE(5, 11, (C<0, C<1>, C<2, C<3>>, C<4>>))
SHAPE(5, 12, (C<0, C<1>, C<2, C<3>, C<4>>>))
SHAPE(5, 13, (C<0, C<1>, C<2, C<3, C<4>>>>))
SHAPE(5, 14, (C<0, C<1, C<2>>, C<3>, C<4>>))
SHAPE(5, 15, (C<0, C<1, C<2>>, C<3, C<4>>>))
SHAPE(5, 16, (C<0, C<1, C<2>, C<3>>, C<4>>))
SHAPE(5, 17, (C<0, C<1, C<2, C<3>>>, C<4>>))
SHAPE(5, 18, (C<0, C<1, C<2>, C<3>, C<4>>>))
SHAPE(5, 19, (C<0, C<1, C<2>, C<3, C<4>>>>))
SHAPE(5, 20, (C<0, C<1, C<2, C<3>>, C<4>>>))
SHAPE(5, 21, (C<0, C<1, C<2, C<3>, C<4>>>>))
SHAPE(5, 22, (C<0, C<1, C<2, C<3, C<4>>>>>))
SHAPE(6, 23, (C<0, C<1>, C<2>, C<3>, C<4>, C<5>>))
SHAPE(6, 24, (C<0, C<1>, C<2>, C<3>, C<4, C<5>>>))
SHAPE(6, 25, (C<0, C<1>, C<2>, C<3, C<4>>, C<5>>))
SHAPE(6, 26, (C<0, C<1>, C<2>, C<3, C<4>, C<5>>>))
SHAPE(6, 27, (C<0, C<1>, C<2>, C<3, C<4, C<5>>>>))
SHAPE(6, 28, (C<0, C<1>, C<2, C<3>>, C<4>, C<5>>))
SHAPE(6, 29, (C<0, C<1>, C<2, C<3>>, C<4, C<5>>>))
SHAPE(6, 30, (C<0, C<1>, C<2, C<3>, C<4>>, C<5>>))
SHAPE(6, 31, (C<0, C<1>, C<2, C<3, C<4>>>, C<5>>))
SHAPE(6, 32, (C<0, C<1>, C<2, C<3>, C<4>, C<5>>>))
SHAPE(6, 33, (C<0, C<1>, C<2, C<3>, C<4, C<5>>>>))
SHAPE(6, 34, (C<0, C<1>, C<2, C<3, C<4>>, C<5>>>))
SHAPE(6, 35, (C<0, C<1>, C<2, C<3, C<4>, C<5>>>>))
SHAPE(6, 36, (C<0, C<1>, C<2, C<3, C<4, C<5>>>>>))
SHAPE(6, 37, (C<0, C<1, C<2>>, C<3>, C<4>, C<5>>))
SHAPE(6, 38, (C<0, C<1, C<2>>, C<3>, C<4, C<5>>>))
SHAPE(6, 39, (C<0, C<1, C<2>>, C<3, C<4>>, C<5>>))
SHAPE(6, 40, (C<0, C<1, C<2>>, C<3, C<4>, C<5>>>))
SHAPE(6, 41, (C<0, C<1, C<2>>, C<3, C<4, C<5>>>>))
SHAPE(6, 42, (C<0, C<1, C<2>, C<3>>, C<4>, C<5>>))
SHAPE(6, 43, (C<0, C<1, C<2>, C<3>>, C<4, C<5>>>))
SHAPE(6, 44, (C<0, C<1, C<2, C<3>>>, C<4>, C<5>>))
SHAPE(6, 45, (C<0, C<1, C<2, C<3>>>, C<4, C<5>>>))
SHAPE(6, 46, (C<0, C<1, C<2>, C<3>, C<4>>, C<5>>))
SHAPE(6, 47, (C<0, C<1, C<2>, C<3, C<4>>>, C<5>>))
SHAPE(6, 48, (C<0, C<1, C<2, C<3>>, C<4>>, C<5>>))
SHAPE(6, 49, (C<0, C<1, C<2, C<3>, C<4>>>, C<5>>))
SHAPE(6, 50, (C<0, C<1, C<2, C<3, C<4>>>>, C<5>>))
SHAPE(6, 51, (C<0, C<1, C<2>, C<3>, C<4>, C<5>>>))
SHAPE(6, 52, (C<0, C<1, C<2>, C<3>, C<4, C<5>>>>))
SHAPE(6, 53, (C<0, C<1, C<2>, C<3, C<4>>, C<5>>>))
SHAPE(6, 54, (C<0, C<1, C<2>, C<3, C<4>, C<5>>>>))
SHAPE(6, 55, (C<0, C<1, C<2>, C<3, C<4, C<5>>>>>))
SHAPE(6, 56, (C<0, C<1, C<2, C<3>>, C<4>, C<5>>>))
SHAPE(6, 57, (C<0, C<1, C<2, C<3>>, C<4, C<5>>>>))
SHAPE(6, 58, (C<0, C<1, C<2, C<3>, C<4>>, C<5>>>))
SHAPE(6, 59, (C<0, C<1, C<2, C<3, C<4>>>, C<5>>>))
SHAPE(6, 60, (C<0, C<1, C<2, C<3>, C<4>, C<5>>>>))
SHAPE(6, 61, (C<0, C<1, C<2, C<3>, C<4, C<5>>>>>))
SHAPE(6, 62, (C<0, C<1, C<2, C<3, C<4>>, C<5>>>>))
SHAPE(6, 63, (C<0, C<1, C<2, C<3, C<4>, C<5>>>>>))
SHAPE(6, 64, (C<0, C<1, C<2, C<3, C<4, C<5>>>>>>))
SHAPE(7, 65, (C<0, C<1>, C<2>, C<3>, C<4>, C<5>, C<6>>))
SHAPE(7, 66, (C<0, C<1>, C<2>, C<3>, C<4>, C<5, C<6>>>))
SHAPE(7, 67, (C<0, C<1>, C<2>, C<3>, C<4, C<5>>, C<6>>))
SHAPE(7, 68, (C<0, C<1>, C<2>, C<3>, C<4, C<5>, C<6>>>))
SHAPE(7, 69, (C<0, C<1>, C<2>, C<3>, C<4, C<5, C<6>>>>))
SHAPE(7, 70, (C<0, C<1>, C<2>, C<3, C<4>>, C<5>, C<6>>))
SHAPE(7, 71, (C<0, C<1>, C<2>, C<3, C<4>>, C<5, C<6>>>))
SHAPE(7, 72, (C<0, C<1>, C<2>, C<3, C<4>, C<5>>, C<6>>))
SHAPE(7, 73, (C<0, C<1>, C<2>, C<3, C<4, C<5>>>, C<6>>))
SHAPE(7, 74, (C<0, C<1>, C<2>, C<3, C<4>, C<5>, C<6>>>))
SHAPE(7, 75, (C<0, C<1>, C<2>, C<3, C<4>, C<5, C<6>>>>))
SHAPE(7, 76, (C<0, C<1>, C<2>, C<3, C<4, C<5>>, C<6>>>))
SHAPE(7, 77, (C<0, C<1>, C<2>, C<3, C<4, C<5>, C<6>>>>))
SHAPE(7, 78, (C<0, C<1>, C<2>, C<3, C<4, C<5, C<6>>>>>))
SHAPE(7, 79, (C<0, C<1>, C<2, C<3>>, C<4>, C<5>, C<6>>))
SHAPE(7, 80, (C<0, C<1>, C<2, C<3>>, C<4>, C<5, C<6>>>))
SHAPE(7, 81, (C<0, C<1>, C<2, C<3>>, C<4, C<5>>, C<6>>))
SHAPE(7, 82, (C<0, C<1>, C<2, C<3>>, C<4, C<5>, C<6>>>))
SHAPE(7, 83, (C<0, C<1>, C<2, C<3>>, C<4, C<5, C<6>>>>))
SHAPE(7, 84, (C<0, C<1>, C<2, C<3>, C<4>>, C<5>, C<6>>))
SHAPE(7, 85, (C<0, C<1>, C<2, C<3>, C<4>>, C<5, C<6>>>))
SHAPE(7, 86, (C<0, C<1>, C<2, C<3, C<4>>>, C<5>, C<6>>))
SHAPE(7, 87, (C<0, C<1>, C<2, C<3, C<4>>>, C<5, C<6>>>))
SHAPE(7, 88, (C<0, C<1>, C<2, C<3>, C<4>, C<5>>, C<6>>))
SHAPE(7, 89, (C<0, C<1>, C<2, C<3>, C<4, C<5>>>, C<6>>))
SHAPE(7, 90, (C<0, C<1>, C<2, C<3, C<4>>, C<5>>, C<6>>))
SHAPE(7, 91, (C<0, C<1>, C<2, C<3, C<4>, C<5>>>, C<6>>))
SHAPE(7, 92, (C<0, C<1>, C<2, C<3, C<4, C<5>>>>, C<6>>))
SHAPE(7, 93, (C<0, C<1>, C<2, C<3>, C<4>, C<5>, C<6>>>))
SHAPE(7, 94, (C<0, C<1>, C<2, C<3>, C<4>, C<5, C<6>>>>))
SHAPE(7, 95, (C<0, C<1>, C<2, C<3>, C<4, C<5>>, C<6>>>))
SHAPE(7, 96, (C<0, C<1>, C<2, C<3>, C<4, C<5>, C<6>>>>))
SHAPE(7, 97, (C<0, C<1>, C<2, C<3>, C<4, C<5, C<6>>>>>))
SHAPE(7, 98, (C<0, C<1>, C<2, C<3, C<4>>, C<5>, C<6>>>))
SHAPE(7, 99, (C<0, C<1>, C<2, C<3, C<4>>, C<5, C<6>>>>))
SHAPE(7, 100, (C<0, C<1>, C<2, C<3, C<4>, C<5>>, C<6>>>))
SHAPE(7, 101, (C<0, C<1>, C<2, C<3, C<4, C<5>>>, C<6>>>))
SHAPE(7, 102, (C<0, C<1>, C<2, C<3, C<4>, C<5>, C<6>>>>))
SHAPE(7, 103, (C<0, C<1>, C<2, C<3, C<4>, C<5, C<6>>>>>))
SHAPE(7, 104, (C<0, C<1>, C<2, C<3, C<4, C<5>>, C<6>>>>))
SHAPE(7, 105, (C<0, C<1>, C<2, C<3, C<4, C<5>, C<6>>>>>))
SHAPE(7, 106, (C<0, C<1>, C<2, C<3, C<4, C<5, C<6>>>>>>))
SHAPE(7, 107, (C<0, C<1, C<2>>, C<3>, C<4>, C<5>, C<6>>))
SHAPE(7, 108, (C<0, C<1, C<2>>, C<3>, C<4>, C<5, C<6>>>))
SHAPE(7, 109, (C<0, C<1, C<2>>, C<3>, C<4, C<5>>, C<6>>))
SHAPE(7, 110, (C<0, C<1, C<2>>, C<3>, C<4, C<5>, C<6>>>))
SHAPE(7, 111, (C<0, C<1, C<2>>, C<3>, C<4, C<5, C<6>>>>))
SHAPE(7, 112, (C<0, C<1, C<2>>, C<3, C<4>>, C<5>, C<6>>))
SHAPE(7, 113, (C<0, C<1, C<2>>, C<3, C<4>>, C<5, C<6>>>))
SHAPE(7, 114, (C<0, C<1, C<2>>, C<3, C<4>, C<5>>, C<6>>))
SHAPE(7, 115, (C<0, C<1, C<2>>, C<3, C<4, C<5>>>, C<6>>))
SHAPE(7, 116, (C<0, C<1, C<2>>, C<3, C<4>, C<5>, C<6>>>))
SHAPE(7, 117, (C<0, C<1, C<2>>, C<3, C<4>, C<5, C<6>>>>))
SHAPE(7, 118, (C<0, C<1, C<2>>, C<3, C<4, C<5>>, C<6>>>))
SHAPE(7, 119, (C<0, C<1, C<2>>, C<3, C<4, C<5>, C<6>>>>))
SHAPE(7, 120, (C<0, C<1, C<2>>, C<3, C<4, C<5, C<6>>>>>))
SHAPE(7, 121, (C<0, C<1, C<2>, C<3>>, C<4>, C<5>, C<6>>))
SHAPE(7, 122, (C<0, C<1, C<2>, C<3>>, C<4>, C<5, C<6>>>))
SHAPE(7, 123, (C<0, C<1, C<2>, C<3>>, C<4, C<5>>, C<6>>))
SHAPE(7, 124, (C<0, C<1, C<2>, C<3>>, C<4, C<5>, C<6>>>))
SHAPE(7, 125, (C<0, C<1, C<2>, C<3>>, C<4, C<5, C<6>>>>))
SHAPE(7, 126, (C<0, C<1, C<2, C<3>>>, C<4>, C<5>, C<6>>))
SHAPE(7, 127, (C<0, C<1, C<2, C<3>>>, C<4>, C<5, C<6>>>))
SHAPE(7, 128, (C<0, C<1, C<2, C<3>>>, C<4, C<5>>, C<6>>))
SHAPE(7, 129, (C<0, C<1, C<2, C<3>>>, C<4, C<5>, C<6>>>))
SHAPE(7, 130, (C<0, C<1, C<2, C<3>>>, C<4, C<5, C<6>>>>))
SHAPE(7, 131, (C<0, C<1, C<2>, C<3>, C<4>>, C<5>, C<6>>))
SHAPE(7, 132, (C<0, C<1, C<2>, C<3>, C<4>>, C<5, C<6>>>))
SHAPE(7, 133, (C<0, C<1, C<2>, C<3, C<4>>>, C<5>, C<6>>))
SHAPE(7, 134, (C<0, C<1, C<2>, C<3, C<4>>>, C<5, C<6>>>))
SHAPE(7, 135, (C<0, C<1, C<2, C<3>>, C<4>>, C<5>, C<6>>))
SHAPE(7, 136, (C<0, C<1, C<2, C<3>>, C<4>>, C<5, C<6>>>))
SHAPE(7, 137, (C<0, C<1, C<2, C<3>, C<4>>>, C<5>, C<6>>))
SHAPE(7, 138, (C<0, C<1, C<2, C<3>, C<4>>>, C<5, C<6>>>))
SHAPE(7, 139, (C<0, C<1, C<2, C<3, C<4>>>>, C<5>, C<6>>))
SHAPE(7, 140, (C<0, C<1, C<2, C<3, C<4>>>>, C<5, C<6>>>))
SHAPE(7, 141, (C<0, C<1, C<2>, C<3>, C<4>, C<5>>, C<6>>))
SHAPE(7, 142, (C<0, C<1, C<2>, C<3>, C<4, C<5>>>, C<6>>))
SHAPE(7, 143, (C<0, C<1, C<2>, C<3, C<4>>, C<5>>, C<6>>))
SHAPE(7, 144, (C<0, C<1, C<2>, C<3, C<4>, C<5>>>, C<6>>))
SHAPE(7, 145, (C<0, C<1, C<2>, C<3, C<4, C<5>>>>, C<6>>))
SHAPE(7, 146, (C<0, C<1, C<2, C<3>>, C<4>, C<5>>, C<6>>))
SHAPE(7, 147, (C<0, C<1, C<2, C<3>>, C<4, C<5>>>, C<6>>))
SHAPE(7, 148, (C<0, C<1, C<2, C<3>, C<4>>, C<5>>, C<6>>))
SHAPE(7, 149, (C<0, C<1, C<2, C<3, C<4>>>, C<5>>, C<6>>))
SHAPE(7, 150, (C<0, C<1, C<2, C<3>, C<4>, C<5>>>, C<6>>))
SHAPE(7, 151, (C<0, C<1, C<2, C<3>, C<4, C<5>>>>, C<6>>))
SHAPE(7, 152, (C<0, C<1, C<2, C<3, C<4>>, C<5>>>, C<6>>))
SHAPE(7, 153, (C<0, C<1, C<2, C<3, C<4>, C<5>>>>, C<6>>))
SHAPE(7, 154, (C<0, C<1, C<2, C<3, C<4, C<5>>>>>, C<6>>))
SHAPE(7, 155, (C<0, C<1, C<2>, C<3>, C<4>, C<5>, C<6>>>))
SHAPE(7, 156, (C<0, C<1, C<2>, C<3>, C<4>, C<5, C<6>>>>))
SHAPE(7, 157, (C<0, C<1, C<2>, C<3>, C<4, C<5>>, C<6>>>))
SHAPE(7, 158, (C<0, C<1, C<2>, C<3>, C<4, C<5>, C<6>>>>))
SHAPE(7, 159, (C<0, C<1, C<2>, C<3>, C<4, C<5, C<6>>>>>))
SHAPE(7, 160, (C<0, C<1, C<2>, C<3, C<4>>, C<5>, C<6>>>))
SHAPE(7, 161, (C<0, C<1, C<2>, C<3, C<4>>, C<5, C<6>>>>))
SHAPE(7, 162, (C<0, C<1, C<2>, C<3, C<4>, C<5>>, C<6>>>))
SHAPE(7, 163, (C<0, C<1, C<2>, C<3, C<4, C<5>>>, C<6>>>))
SHAPE(7, 164, (C<0, C<1, C<2>, C<3, C<4>, C<5>, C<6>>>>))
SHAPE(7, 165, (C<0, C<1, C<2>, C<3, C<4>, C<5, C<6>>>>>))
SHAPE(7, 166, (C<0, C<1, C<2>, C<3, C<4, C<5>>, C<6>>>>))
SHAPE(7, 167, (C<0, C<1, C<2>, C<3, C<4, C<5>, C<6>>>>>))
SHAPE(7, 168, (C<0, C<1, C<2>, C<3, C<4, C<5, C<6>>>>>>))
SHAPE(7, 169, (C<0, C<1, C<2, C<3>>, C<4>, C<5>, C<6>>>))
SHAPE(7, 170, (C<0, C<1, C<2, C<3>>, C<4>, C<5, C<6>>>>))
SHAPE(7, 171, (C<0, C<1, C<2, C<3>>, C<4, C<5>>, C<6>>>))
SHAPE(7, 172, (C<0, C<1, C<2, C<3>>, C<4, C<5>, C<6>>>>))
SHAPE(7, 173, (C<0, C<1, C<2, C<3>>, C<4, C<5, C<6>>>>>))
SHAPE(7, 174, (C<0, C<1, C<2, C<3>, C<4>>, C<5>, C<6>>>))
SHAPE(7, 175, (C<0, C<1, C<2, C<3>, C<4>>, C<5, C<6>>>>))
SHAPE(7, 176, (C<0, C<1, C<2, C<3, C<4>>>, C<5>, C<6>>>))
SHAPE(7, 177, (C<0, C<1, C<2, C<3, C<4>>>, C<5, C<6>>>>))
SHAPE(7, 178, (C<0, C<1, C<2, C<3>, C<4>, C<5>>, C<6>>>))
SHAPE(7, 179, (C<0, C<1, C<2, C<3>, C<4, C<5>>>, C<6>>>))
SHAPE(7, 180, (C<0, C<1, C<2, C<3, C<4>>, C<5>>, C<6>>>))
SHAPE(7, 181, (C<0, C<1, C<2, C<3, C<4>, C<5>>>, C<6>>>))
SHAPE(7, 182, (C<0, C<1, C<2, C<3, C<4, C<5>>>>, C<6>>>))
SHAPE(7, 183, (C<0, C<1, C<2, C<3>, C<4>, C<5>, C<6>>>>))
SHAPE(7, 184, (C<0, C<1, C<2, C<3>, C<4>, C<5, C<6>>>>>))
SHAPE(7, 185, (C<0, C<1, C<2, C<3>, C<4, C<5>>, C<6>>>>))
SHAPE(7, 186, (C<0, C<1, C<2, C<3>, C<4, C<5>, C<6>>>>>))
SHAPE(7, 187, (C<0, C<1, C<2, C<3>, C<4, C<5, C<6>>>>>>))
SHAPE(7, 188, (C<0, C<1, C<2, C<3, C<4>>, C<5>, C<6>>>>))
SHAPE(7, 189, (C<0, C<1, C<2, C<3, C<4>>, C<5, C<6>>>>>))
SHAPE(7, 190, (C<0, C<1, C<2, C<3, C<4>, C<5>>, C<6>>>>))
SHAPE(7, 191, (C<0, C<1, C<2, C<3, C<4, C<5>>>, C<6>>>>))
SHAPE(7, 192, (C<0, C<1, C<2, C<3, C<4>, C<5>, C<6>>>>>))
SHAPE(7, 193, (C<0, C<1, C<2, C<3, C<4>, C<5, C<6>>>>>>))
SHAPE(7, 194, (C<0, C<1, C<2, C<3, C<4, C<5>>, C<6>>>>>))
SHAPE(7, 195, (C<0, C<1, C<2, C<3, C<4, C<5>, C<6>>>>>>))
SHAPE(7, 196, (C<0, C<1, C<2, C<3, C<4, C<5, C<6>>>>>>>))

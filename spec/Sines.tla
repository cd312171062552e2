------------------------------- MODULE Sines -------------------------------
(* sines times 10000 of 0 to 90 degrees, in quarter degrees *)
EXTENDS Integers, Sequences
Table == <<
  0, 44, 87, 131, 175, 218, 262, 305, 349, 393, 436, 480, 523, 567, 610, 654, 698, 741, 785, 828, 872, 915, 958, 1002,
  1045, 1089, 1132, 1175, 1219, 1262, 1305, 1349, 1392, 1435, 1478, 1521, 1564, 1607, 1650, 1693, 1736, 1779, 1822, 1865, 1908, 1951, 1994, 2036,
  2079, 2122, 2164, 2207, 2250, 2292, 2334, 2377, 2419, 2462, 2504, 2546, 2588, 2630, 2672, 2714, 2756, 2798, 2840, 2882, 2924, 2965, 3007, 3049,
  3090, 3132, 3173, 3214, 3256, 3297, 3338, 3379, 3420, 3461, 3502, 3543, 3584, 3624, 3665, 3706, 3746, 3786, 3827, 3867, 3907, 3947, 3987, 4027,
  4067, 4107, 4147, 4187, 4226, 4266, 4305, 4344, 4384, 4423, 4462, 4501, 4540, 4579, 4617, 4656, 4695, 4733, 4772, 4810, 4848, 4886, 4924, 4962,
  5000, 5038, 5075, 5113, 5150, 5188, 5225, 5262, 5299, 5336, 5373, 5410, 5446, 5483, 5519, 5556, 5592, 5628, 5664, 5700, 5736, 5771, 5807, 5842,
  5878, 5913, 5948, 5983, 6018, 6053, 6088, 6122, 6157, 6191, 6225, 6259, 6293, 6327, 6361, 6394, 6428, 6461, 6494, 6528, 6561, 6593, 6626, 6659,
  6691, 6724, 6756, 6788, 6820, 6852, 6884, 6915, 6947, 6978, 7009, 7040, 7071, 7102, 7133, 7163, 7193, 7224, 7254, 7284, 7314, 7343, 7373, 7402,
  7431, 7461, 7490, 7518, 7547, 7576, 7604, 7632, 7660, 7688, 7716, 7744, 7771, 7799, 7826, 7853, 7880, 7907, 7934, 7960, 7986, 8013, 8039, 8064,
  8090, 8116, 8141, 8166, 8192, 8216, 8241, 8266, 8290, 8315, 8339, 8363, 8387, 8410, 8434, 8457, 8480, 8504, 8526, 8549, 8572, 8594, 8616, 8638,
  8660, 8682, 8704, 8725, 8746, 8767, 8788, 8809, 8829, 8850, 8870, 8890, 8910, 8930, 8949, 8969, 8988, 9007, 9026, 9045, 9063, 9081, 9100, 9118,
  9135, 9153, 9171, 9188, 9205, 9222, 9239, 9255, 9272, 9288, 9304, 9320, 9336, 9351, 9367, 9382, 9397, 9412, 9426, 9441, 9455, 9469, 9483, 9497,
  9511, 9524, 9537, 9550, 9563, 9576, 9588, 9600, 9613, 9625, 9636, 9648, 9659, 9670, 9681, 9692, 9703, 9713, 9724, 9734, 9744, 9753, 9763, 9772,
  9781, 9790, 9799, 9808, 9816, 9825, 9833, 9840, 9848, 9856, 9863, 9870, 9877, 9884, 9890, 9897, 9903, 9909, 9914, 9920, 9925, 9931, 9936, 9941,
  9945, 9950, 9954, 9958, 9962, 9966, 9969, 9973, 9976, 9979, 9981, 9984, 9986, 9988, 9990, 9992, 9994, 9995, 9997, 9998, 9998, 9999, 10000, 10000,
  10000 >>
(* of half of an angle of 0 to 360 degrees given in half degrees *)
HalfSine(d) == Table[1 + IF d > 360 THEN 720 - d ELSE d]
Cosine(half) == Table[1 + 360 - 2 * (IF half < 0 THEN -half ELSE half)]      \* -90 to 90 degrees in half degrees
=============================================================================

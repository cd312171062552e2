------------------------------ MODULE Mercator ------------------------------
(* the Mercator y of 0 to 75 degrees in quarter degrees on the WGS84 ellipsoid, in 1/100000 of its radius *)
EXTENDS Integers, Sequences
Table == <<
  0, 433, 867, 1300, 1734, 2167, 2601, 3034, 3468, 3902, 4336, 4769, 5203, 5637, 6072, 6506, 6940, 7375, 7810, 8244,
  8679, 9115, 9550, 9985, 10421, 10857, 11293, 11730, 12166, 12603, 13040, 13477, 13915, 14353, 14791, 15229, 15668, 16107, 16547, 16986,
  17426, 17867, 18307, 18748, 19190, 19632, 20074, 20517, 20960, 21403, 21847, 22291, 22736, 23181, 23627, 24073, 24519, 24967, 25414, 25862,
  26311, 26760, 27210, 27660, 28111, 28562, 29014, 29467, 29920, 30374, 30828, 31283, 31739, 32195, 32652, 33110, 33568, 34027, 34487, 34948,
  35409, 35871, 36334, 36797, 37261, 37726, 38192, 38659, 39126, 39595, 40064, 40534, 41005, 41476, 41949, 42423, 42897, 43373, 43849, 44326,
  44805, 45284, 45764, 46245, 46728, 47211, 47695, 48181, 48667, 49155, 49644, 50134, 50625, 51117, 51610, 52105, 52601, 53097, 53596, 54095,
  54596, 55098, 55601, 56105, 56611, 57118, 57627, 58137, 58648, 59161, 59675, 60191, 60708, 61226, 61747, 62268, 62791, 63316, 63842, 64370,
  64899, 65430, 65963, 66498, 67034, 67572, 68111, 68652, 69196, 69741, 70287, 70836, 71386, 71939, 72493, 73049, 73607, 74168, 74730, 75294,
  75860, 76429, 76999, 77572, 78147, 78724, 79303, 79885, 80468, 81054, 81643, 82234, 82827, 83423, 84021, 84622, 85225, 85830, 86439, 87050,
  87663, 88280, 88899, 89521, 90145, 90773, 91403, 92037, 92673, 93312, 93955, 94600, 95249, 95900, 96555, 97213, 97875, 98540, 99208, 99880,
  100555, 101234, 101916, 102602, 103291, 103985, 104682, 105383, 106088, 106797, 107510, 108227, 108948, 109673, 110403, 111137, 111875, 112618, 113366, 114118,
  114874, 115636, 116402, 117173, 117949, 118730, 119517, 120308, 121105, 121907, 122715, 123528, 124347, 125172, 126003, 126839, 127682, 128531, 129386, 130247,
  131115, 131990, 132871, 133759, 134654, 135556, 136466, 137382, 138306, 139238, 140178, 141126, 142081, 143045, 144018, 144998, 145988, 146987, 147994, 149011,
  150038, 151074, 152120, 153176, 154242, 155319, 156407, 157505, 158615, 159736, 160869, 162015, 163172, 164342, 165525, 166721, 167931, 169154, 170392, 171644,
  172911, 174194, 175492, 176806, 178137, 179485, 180850, 182233, 183635, 185056, 186496, 187956, 189437, 190939, 192464, 194011, 195581, 197175, 198794, 200439,
  202111 >>
Y(q) == IF q < 0 THEN -Table[1 - q] ELSE Table[1 + q]
=============================================================================

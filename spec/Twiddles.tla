------------------------------ MODULE Twiddles ------------------------------
(* Quarter of a cosine, in 1/100000, for angles in 1/840 of a turn (840 = lcm(1..8)) *)
EXTENDS Integers, Sequences
Quarter == <<
  100000, 99997, 99989, 99975, 99955, 99930, 99899, 99863, 99821, 99773, 99720, 99662,
  99597, 99528, 99452, 99371, 99285, 99193, 99095, 98992, 98883, 98769, 98649, 98524,
  98393, 98257, 98115, 97968, 97815, 97657, 97493, 97324, 97149, 96969, 96783, 96593,
  96396, 96195, 95988, 95775, 95557, 95334, 95106, 94872, 94633, 94388, 94139, 93884,
  93623, 93358, 93087, 92811, 92530, 92244, 91953, 91656, 91355, 91048, 90736, 90419,
  90097, 89770, 89438, 89101, 88759, 88412, 88060, 87703, 87341, 86974, 86603, 86226,
  85845, 85459, 85068, 84672, 84272, 83867, 83457, 83043, 82624, 82200, 81772, 81339,
  80902, 80460, 80013, 79562, 79107, 78647, 78183, 77715, 77242, 76764, 76283, 75797,
  75307, 74813, 74314, 73812, 73305, 72794, 72279, 71761, 71238, 70711, 70180, 69645,
  69106, 68564, 68017, 67467, 66913, 66355, 65794, 65229, 64660, 64088, 63512, 62932,
  62349, 61762, 61172, 60579, 59982, 59382, 58779, 58172, 57562, 56948, 56332, 55712,
  55090, 54464, 53835, 53203, 52568, 51931, 51290, 50646, 50000, 49351, 48699, 48044,
  47387, 46727, 46064, 45399, 44731, 44061, 43388, 42713, 42036, 41356, 40674, 39989,
  39303, 38614, 37923, 37229, 36534, 35837, 35137, 34436, 33733, 33028, 32321, 31612,
  30902, 30189, 29476, 28760, 28043, 27324, 26604, 25882, 25159, 24434, 23708, 22981,
  22252, 21522, 20791, 20059, 19326, 18591, 17856, 17119, 16382, 15643, 14904, 14164,
  13423, 12682, 11939, 11196, 10453, 9709, 8964, 8219, 7473, 6727, 5980, 5234,
  4486, 3739, 2992, 2244, 1496, 748, 0
>>
Turn == 840
Cos(a) == LET k == a % Turn
          IN CASE k <= 210 -> Quarter[k + 1]
               [] k > 210 /\ k <= 420 -> -Quarter[420 - k + 1]
               [] k > 420 /\ k <= 630 -> -Quarter[k - 420 + 1]
               [] OTHER -> Quarter[840 - k + 1]
Sin(a) == Cos(a - 210)
=============================================================================

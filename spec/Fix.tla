-------------------------------- MODULE Fix --------------------------------
(* Fixed-point arithmetic in millionths, within 32-bit integers.            *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
M == 1000000

\* a*b/10^6 rounded, for 0 <= a,b <= 10^6 (a may reach 2*10^6)
Mul(a, b) == LET a1 == a \div 1000  a0 == a % 1000
             IN ((a1 * b) + ((a0 * b) \div 1000) + 500) \div 1000

\* n/d in millionths, 0 <= n, 0 < d, result < 2^31, by long division
RECURSIVE Digits(_, _, _, _)
Digits(r, d, k, acc) == IF k = 0 THEN acc + (IF 2 * r >= d THEN 1 ELSE 0)
                        ELSE Digits((r * 10) % d, d, k - 1, (acc * 10) + ((r * 10) \div d))
RECURSIVE Frac(_, _)
Frac(n, d) == IF d > 200000000 THEN Frac((n + 8) \div 16, (d + 8) \div 16)
              ELSE Digits(n % d, d, 6, n \div d)

\* e^-x, x in millionths
ETab == << <<367879, 135335, 49787, 18316, 6738, 2479, 912, 335, 123, 45, 17, 6, 2, 1>>,
           <<904837, 818731, 740818, 670320, 606531, 548812, 496585, 449329, 406570>>,
           <<990050, 980199, 970446, 960789, 951229, 941765, 932394, 923116, 913931>>,
           <<999000, 998002, 997004, 996008, 995012, 994018, 993024, 992032, 991040>> >>
EFac(row, k) == IF k = 0 THEN M ELSE ETab[row][k]
ExpNeg(x) ==
  IF x >= 14000000 THEN 0
  ELSE LET i  == x \div M
           d1 == (x \div 100000) % 10
           d2 == (x \div 10000) % 10
           d3 == (x \div 1000) % 10
           r  == x % 1000
       IN Mul(Mul(Mul(EFac(1, i), EFac(2, d1)), EFac(3, d2)), Mul(EFac(4, d3), M - r))

\* integer square root (floor) of 0 <= n < 2^31 by Newton's iteration
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE Newton(n, IF n > 46340 * 4 THEN 46340 ELSE n)

\* the largest j with n * 4^j < 2^31 - 1 (n > 0)
RECURSIVE Shift(_, _)
Shift(n, j) == IF n > 536870911 THEN j ELSE Shift(n * 4, j + 1)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)

(* |n| / sqrt(A*B) in millionths, for A,B > 0 and |n| <= sqrt(A*B)          *)
OverRoot(n, A, B) ==
  LET ja == Shift(A, 0)  Ak == A * Pow(4, ja)  sa == ISqrt(Ak)
      jb == Shift(B, 0)  Bk == B * Pow(4, jb)  sb == ISqrt(Bk)
      \* sqrt(Ak) = sa * (1 + ea), ea in millionths
      ea == ((((Ak - (sa * sa)) * 1000) \div (2 * sa)) * 1000) \div sa
      eb == ((((Bk - (sb * sb)) * 1000) \div (2 * sb)) * 1000) \div sb
      pow == Pow(2, ja + jb)
      h   == IF pow >= 2 THEN 2 ELSE 1
      q   == Frac(Abs(n) * (pow \div h), (sa * sb) \div h)
  IN IF Abs(n) > ((sa * sb) \div pow) + 1 THEN M ELSE Min2(M, q - Mul(q, ea + eb))
=============================================================================

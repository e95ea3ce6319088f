------------------------------ MODULE GenElem ------------------------------
(***************************************************************************)
(* Arguments of the elementary functions: every magnitude, next to one, to *)
(* zero, to the multiples of pi/2, and around the magnitudes at which an    *)
(* implementation is likely to change its method.                          *)
(***************************************************************************)
EXTENDS GenBase, Elem
\* m mantissa digits placed so that 10^(k-1) <= |x| < 10^k
At(neg, m, k) == Txt(neg, m, k -- NDig(m))
Digs(h) == LET q == Hash(h, 61) %% 6 IN Mant(Hash(h, 62) %% 8, IF q = 0 THEN 1 ELSE IF q = 1 THEN 2 ELSE IF q \preceq 3 THEN 14 ELSE 16, Hash(h, 63))
\* magnitude uniform in lo..hi
RealIn(h, lo, hi) == At(Hash(h, 64) %% 2, Digs(h), lo ++ (Hash(h, 65) %% ((hi -- lo) ++ 1)))
PosIn(h, lo, hi) == At(0, Digs(h), lo ++ (Hash(h, 65) %% ((hi -- lo) ++ 1)))
Sgn1(h) == IF (Hash(h, 66) %% 2) \doteq 0 THEN 1 ELSE -1
\* base (an integer at scale 10^-s) plus or minus a tail at 10^-k, as text
NearTo(base, s, h) ==
  LET k == 1 ++ (Hash(h, 67) %% (IF (Hash(h, 68) %% 2) \doteq 0 THEN 16 ELSE 115))
      t == (1 ++ (Hash(h, 69) %% 100000000)) ** P10(BMax(0, s -- (8 ++ k)))
  IN Txt(0, base ++ (IF (Hash(h, 70) %% 3) \doteq 0 THEN 0 -- t ELSE IF (Hash(h, 70) %% 3) \doteq 1 THEN t ELSE 0), 0 -- s)
NearOne(h) == NearTo(P10(125), 125, h)
NearMinusOne(h) == "-" \o NearOne(h)
\* near n * pi/2
NearPi(h) == LET n == Sgn1(h) ** (CASE (Hash(h, 71) %% 3) \doteq 0 -> 1 ++ (Hash(h, 72) %% 20) [] (Hash(h, 71) %% 3) \doteq 1 -> 1 ++ (Hash(h, 72) %% P10(6)) [] OTHER -> P10(Hash(h, 73) %% 50) ++ (Hash(h, 74) %% 999))
             IN NearTo((n ** PiX) // (2 ** P10(Xp - 125)), 125, h)
SmallNums == <<"0", "1", "-1", "2", "-2", "3", "10", "-10", "0.5", "-0.5", "0.25", "0.1", "0.09999", "-0.1", "1e-11", "0.99e-11", "1.01e-11", "1e-12", "1e11", "1.01e11", "0.99e12", "1e12", "1e-4", "9.9e-5", "1e-3", "0.9", "1.1", "99", "100", "101", "-100", "111", "112", "1000", "1024", "-1e11", "-1e12", "-5e12", "1e-111", "1e-112", "-1e-120", "1e60", "0.75", "1.5", "2.5", "-7.5", "0.01", "0.001", "1e3", "1.000001e1", "222", "223", "-223", "1e111", "1e113", "-1e113", "1e-300", "123456789", "2302585092", "4294967296", "9223372036854775807", "1e18", "1e19", "-1e17">>
Special(h) == PickSeq(h, <<"nan", "inf", "-inf", "0", "-0", "max", "-max", "min", "-min", "1", "-1">>)
Small(h) == PickSeq(h, SmallNums)
\* exponent range of every back end, and of the text that reaches it
EMaxAll == 323000000
=============================================================================

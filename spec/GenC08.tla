------------------------------- MODULE GenC08 -------------------------------
EXTENDS GenTypes
NF == IF Thorough THEN 90000 ELSE 9000
CaseF(i) == LET t == TypeN(i) IN CaseLine("F", i, "from_" \o t) \o EArg("0") \o SArg(Num(t, Hash(Seed, i)))
\* values to be converted: limits of every type and one below, at and above it, with fractions; ties between doubles
NO == IF Thorough THEN 90000 ELSE 9000
CaseO(i) ==
  LET h == Hash(Seed, 1000000 + i)
      t == IntTypes[1 + (i % 12)]
      c == Hash(h, 1) %% 8
      k == PickSeq(Hash(h, 6), <<1, 8, 20, 60, 80, 90>>) -- (Hash(h, 7) %% 2)
      d == PickSeq(Hash(h, 8), <<0, 1, -1, 5, -5>>)
      ft == FltTypes[1 + (Hash(h, 9) %% 3)]
      p == Prec(ft)
      m == (2 ^^ (p - 1)) ++ ((Hash(h, 10) ** Hash(h, 11)) %% (2 ^^ (p - 1)))
      x == CASE c \in {0, 1} -> LET v == IntNum(t, Hash(h, 2)) ++ ((Hash(h, 3) %% 5) -- 2) IN Txt(0, (v ** P10(k)) ++ d, 0 -- k)
             [] c = 2 -> LET v == IntNum(t, Hash(h, 2)) IN Txt(0, (v ** P10(k)) ++ (PickSeq(Hash(h, 4), <<P10(k) // 2, P10(k) -- 1, (P10(k) // 2) -- 1>>) ** BSgn(v)), 0 -- k)
             [] c = 3 -> Txt(Hash(h, 4) %% 2, Mant(Hash(h, 5) %% 8, 1 + (Hash(h, 12) %% 16), Hash(h, 13)), (0 -- (8 * (Hash(h, 12) %% 16))) ++ (Hash(h, 14) %% 24) -- 4)
             [] c = 4 -> AnyOp(Hash(h, 15), 16)
             \* halfway between two binary numbers, and one digit off
             [] c = 5 -> Txt(Hash(h, 4) %% 2, (((2 ** m) ++ 1) ** (2 ^^ (Hash(h, 16) %% 60)) ** P10(20)) ++ d, -20)
             [] c = 6 -> LET e == PickSeq(Hash(h, 17), <<308, 309, 307, -307, -308, -309, 4932, 4933, -4931, -4932, 38, 39, -38, -37>>)
                         IN Txt(Hash(h, 4) %% 2, Mant(Hash(h, 5) %% 8, 3, Hash(h, 13)), e -- 23 ++ (Hash(h, 18) %% 3) -- 1)
             [] c = 7 -> Txt(Hash(h, 4) %% 2, Mant(Hash(h, 5) %% 8, 1 + (Hash(h, 12) %% 16), Hash(h, 13)), (0 -- (Hash(h, 14) %% 700)) ++ 250)
  IN CaseLine("O", i, "out") \o EArg(x)
\* the exact limits
Lims == <<"max", "-max", "min", "-min", "inf", "-inf", "0", "-0", "1", "-1",
  "179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347747978e0",
  "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "9223372036854775807.5", "-9223372036854775808.5", "18446744073709551615", "18446744073709551616", "18446744073709551615.5",
  "2147483647", "2147483648", "2147483647.9", "-2147483648", "-2147483648.9", "-2147483649", "9223372036854775806.99999999999999999999999999999999999999999999999999999999999999999999", "0.99999999999999999999999999999999999999999999999999999999999999999999999999999999999999",
  "18446744073709551614.9999999999999999999999999999999999999999999999999999999999", "-9223372036854775807.99999999999999999999999999999999999999999999999999999", "99999999.9999999999999999999999999999999999999999999999999999999999999999999999999", "1e19", "-1e19", "1e20", "1e100", "-1e1000"
  >>
NL == Len(Lims)
\* mantissa and exponent
NM == 500
MLits == <<"0", "0.1", "1", "-2.5", "9.999", "1e10", "-1e-5", "123.456", "1e-300", "1e300", "0.75">>
CaseM(i) == LET h == Hash(Seed, 2000000 + i) IN CaseLine("M", i, "frommexp") \o SArg(PickSeq(Hash(h, 1), MLits)) \o IArg(PickSeq(Hash(h, 2), <<0, 1, -1, 7, 8, -8, 100, -1000, 123456, -9, 300>>))
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..(NF + NO + NL + NM) |-> IF i <= NF THEN CaseF(i) ELSE IF i <= NF + NO THEN CaseO(i)
   ELSE IF i <= NF + NO + NL THEN CaseLine("L", i, "out") \o EArg(Lims[i - NF - NO]) ELSE CaseM(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================

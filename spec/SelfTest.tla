------------------------------ MODULE SelfTest ------------------------------
(* Known values of the number, hash and matrix modules, checked by TLC       *)
(* before anything is judged with them.                                      *)
EXTENDS Murmur, Mat
VARIABLE done

ASSUME Arithmetic ==
  /\ NAdd("1/3", "1/6") = "1/2" /\ NSub("1/2", "1/2") = "0" /\ NMul("-2/3", "3/2") = "-1" /\ NDiv("1", "-4") = "-1/4"
  /\ NDiv("1", "0") = "inf" /\ NDiv("-1", "0") = "-inf" /\ NIsNan(NDiv("0", "0")) /\ NIsNan(NSub("inf", "inf"))
  /\ NOfInt(-17) = "-17" /\ NNeg("5/2") = "-5/2" /\ NAbs("-inf") = "inf"
  /\ NSum(<<"1/2", "1/3", "1/6">>) = "1" /\ NDot(<<"1", "2">>, <<"3", "-1/2">>) = "2" /\ NSum(<<>>) = "0"
ASSUME Orders ==
  /\ NLe("1/3", "1/3") /\ ~NLt("1/3", "1/3") /\ NLt("-inf", "-5") /\ NLt("1/3", "1/2") /\ NEq("2", "2")
  /\ ~NLe("nan", "0") /\ ~NLe("0", "nan") /\ ~NEq("nan", "nan")
  /\ NClose("nan", "nan", "0", "0") /\ ~NClose("nan", "0", "1", "1") /\ NClose("inf", "inf", "0", "0") /\ ~NClose("inf", "5", "1", "1")
  /\ NClose("100", "101", "1/100", "0") /\ ~NClose("100", "102", "1/100", "0") /\ NClose("1", "2", "0", "1")
Tiny == "1/1000000000000000000000000000000"
ASSUME Functions ==
  /\ NExp("0") = "1" /\ NExp("-inf") = "0" /\ NExp("inf") = "inf" /\ NExp("1000") = "inf" /\ NExp("-1000") = "0"
  /\ NLog("1") = "0" /\ NLog("0") = "-inf" /\ NIsNan(NLog("-1"))
  /\ NClose(NExp("1"), "2718281828459045235360287471352662497757/1000000000000000000000000000000000000000", Tiny, "0")
  /\ NClose(NLog("2"), "693147180559945309417232121458176568/1000000000000000000000000000000000000", Tiny, "0")
  /\ NClose(NLog(NExp("355/113")), "355/113", Tiny, "0")
  /\ NClose(NExp("-700"), NDiv("1", NExp("700")), Tiny, "0")
  /\ NEq(NSqrt("9/4"), "3/2") /\ NClose(NMul(NSqrt("2"), NSqrt("2")), "2", Tiny, "0") /\ NEq(NSqrt("0"), "0")
  /\ NClose(NPi, "3141592653589793238462643383279502884/1000000000000000000000000000000000000", Tiny, "0")
(* reference values of MurmurHash3_x86_32, seed 0, as signed integers         *)
Signed(h) == LET v == NAdd(NAdd(NOfInt(h[1]), NMul("256", NOfInt(h[2]))), NAdd(NMul("65536", NOfInt(h[3])), NMul("16777216", NOfInt(h[4]))))
             IN IF IsNegative(h) THEN NSub(v, "4294967296") ELSE v
ASSUME Hashes ==
  /\ Signed(Hash32(<<>>)) = "0" /\ Signed(Hash32(<<97>>)) = "1009084850" /\ Signed(Hash32(<<97, 98>>)) = "-1681926305"
  /\ Signed(Hash32(<<97, 98, 99>>)) = "-1277324294" /\ Signed(Hash32(<<97, 98, 99, 100>>)) = "1139631978"
  /\ Signed(Hash32(<<104, 101, 108, 108, 111>>)) = "613153351"
  /\ Signed(Hash32(<<195, 169, 226, 130, 172, 240, 157, 132, 158>>)) = "-375015769"
ASSUME Matrices ==
  LET d == Dense(3, <<<<"0", "1", "-1/2">>, <<"0", "0", "0">>>>)
      s == Sparse(3, <<[c |-> <<1, 2>>, v |-> <<"1", "-1/2">>], [c |-> <<>>, v |-> <<>>]>>)
  IN  /\ ToSparse(d) = s /\ ToDense(s) = d /\ WellFormed(d) /\ WellFormed(s)
      /\ MatClose(d, s, "0", "0") /\ ~WellFormed(Sparse(2, s.rows)) /\ ArgMaxFirst(<<"1", "3", "3">>) = 2
      /\ DotRow(s, 1, <<"5", "6", "8">>) = "2" /\ DotRow(d, 1, <<"5", "6", "8">>) = "2"
Init == done = TRUE
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================

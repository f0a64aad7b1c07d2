------------------------------ MODULE NumCheck ------------------------------
(* TLC compares the accelerated operators of Num with their NumPure          *)
(* definitions on a grid of operands (each state is one operand pair).       *)
EXTENDS Num, TLC, Naturals
P == INSTANCE NumPure
Vals == { <<0>>, <<2>>, <<3>>, <<-3>>, <<1,1>>, <<-1,1>>, <<1,0,0,0,0,0,1>>, <<-1,0,0,0,0,0,3>>,
          <<1,9999,9999,9999,9999,9999>>, <<1,0,0,0,0,5000>>, <<-1,0,0,0,0,2500,7>>,
          <<1,1234,5678,9012,3456,7890,1234,56>>, <<-1,1,0,0,0,0,0,1>>, <<1,4567,0,1>>,
          <<1,3333,3333,3333,3333,3333,33>>, <<-1,7,0,9999,1,20,45>>, <<1,0,0,0,0,0,0,0,12>> }
VARIABLES a, b
Init == a \in Vals /\ b \in Vals
Next == UNCHANGED <<a, b>>
Same ==
  /\ NAdd(a,b) = P!NAdd(a,b)
  /\ NSub(a,b) = P!NSub(a,b)
  /\ NMul(a,b) = P!NMul(a,b)
  /\ NDiv(a,b) = P!NDiv(a,b)
  /\ NCmp(a,b) = P!NCmp(a,b)
  /\ NClose(a,b,<<1,0,0,0,0,5000>>) = P!NClose(a,b,<<1,0,0,0,0,5000>>)
  /\ NSum(<<a,b,a>>) = P!NSum(<<a,b,a>>)
  /\ DropNaN(<<a,b,a>>) = P!DropNaN(<<a,b,a>>)
  /\ (b = <<0>>) => /\ NNeg(a) = P!NNeg(a)
                    /\ NAbs(a) = P!NAbs(a)
                    /\ NSqrt(a) = P!NSqrt(a)
                    /\ (IsNaN(a) \/ IsInf(a) \/ NCmp(NAbs(a), NInt(60)) < 0) => NExp(a) = P!NExp(a)
                    /\ NLn(a) = P!NLn(a)
                    /\ IsFin(a) /\ Len(a) < 9 => NTrunc(a) = P!NTrunc(a)
  /\ \A n \in {-20001, -1, 0, 7, 9999, 10000, 123456789} : NInt(n) = P!NInt(n)
=============================================================================

------------------------------ MODULE MC_Rat ------------------------------
EXTENDS Rat, TLC, FiniteSets
VARIABLE done
Nums == { BMk(s, m) : s \in {1,-1}, m \in { <<>>, <<7>>, <<9999>>, <<0,1>>, <<123,0,45>>, <<4321,8765,2109>> } }
Dens == { BMk(1, m) : m \in { <<1>>, <<3>>, <<0,1>>, <<9999,9999>> } }
RR == { RMk(n, d) : n \in Nums, d \in Dens }
Ops(a, b) == <<RAdd(a,b), RSub(a,b), RMul(a,b), RCmp(a,b), RMax(a,b), RMin(a,b),
               IF RSgn(b) # 0 THEN RDiv(a,b) ELSE R0>>
Un(a) == <<RNeg(a), RAbs(a), RFloor(a), RTrunc(a, I(97)), RPow(a, 3), RSq(a),
           IF RSgn(a) # 0 THEN RPow(a, -2) ELSE R0, BQuo(a[1], a[2])>>
Out == << [a \in RR |-> [b \in RR |-> Ops(a, b)]], [a \in RR |-> Un(a)],
          [n \in {-20000, -1, 0, 1, 9999, 10000, 2147483647} |-> I(n)],
          [n \in {-20000, -1, 0, 7, 10000} |-> RToInt(I(n))],
          RSumR(LAMBDA i : Q(i, i+1), 1, 20), RMaxR(LAMBDA i : Q(i % 7, i), 1, 20), RMinR(LAMBDA i : Q(i % 7, i), 1, 20),
          RScan([i \in 1..12 |-> Q(((i*i) % 11) - 5, i)]), RScan(<<>>) >>
Init == done = FALSE /\ PrintT(<<"OUT", Out>>)
Next == UNCHANGED done
=============================================================================

----------------------------- MODULE MCRollover -----------------------------
(* Emits the complete one-byte operation tables, and checks the word arithmetic itself:
   the limb operations agree with TLC's integers, and with the laws of the ring. *)
EXTENDS Rollover, Json
Fs == {"add", "sub", "mul", "div", "mod", "less", "eq", "neg"}
Next == \/ n = 0 /\ Act("new", <<1>>)
        \/ n # 0 /\ \E f \in Fs, x \in 0..255 : Act("row", <<f, x>>)
Spec == Init /\ [][Next]_vars
View == <<n, reg>>
Emit == PrintT(ToJson([s |-> View, e |-> ev', t |-> View']))
S8 == {0, 1, 2, 3, 127, 128, 129, 200, 254, 255}
S16 == {SmallW(2, v) : v \in {0, 1, 2, 255, 256, 257, 511, 1000, 32767, 32768, 32769, 40000, 65279, 65534, 65535}}
V16(w) == w[1] + 256 * w[2]
ASSUME \A x, y \in S16 : /\ V16(AddW(x, y)) = (V16(x) + V16(y)) % 65536
                         /\ V16(SubW(x, y)) = (V16(x) - V16(y) + 65536) % 65536
                         /\ LessW(x, y) = (V16(x) < V16(y))
                         /\ (~IsZero(y) => /\ V16(DivW(x, y)) = V16(x) \div V16(y)
                                           /\ V16(ModW(x, y)) = V16(x) % V16(y))
                         /\ Before(x, y) = ((V16(y) - V16(x) + 65536) % 65536 \in 1..32768)
W8 == {<<a, b, b, a, 255, a, b, c>> : a \in {1, 255}, b \in {0, 255}, c \in {0, 128, 255}}
ASSUME \A x, y \in W8 : /\ AddW(SubW(x, y), y) = x
                        /\ MulW(x, AddW(y, One(8))) = AddW(MulW(x, y), x)
                        /\ (~IsZero(y) => AddW(MulW(DivW(x, y), y), ModW(x, y)) = x /\ LessW(ModW(x, y), y))
                        /\ (x # y => Before(x, y) \/ Before(y, x))
ASSUME \A x \in W8, d \in {1, 2, 3, 7, 16} : DivSmall(x, d) = DivW(x, SmallW(8, d))
ASSUME \A f \in Fs \ {"less", "eq", "neg"}, x \in S8, y \in S8 :
          (y = 0 /\ f \in {"div", "mod"}) \/ Row(f, x)[y + 1] = Bin(f, <<x>>, <<y>>)[1]
===========================================================================

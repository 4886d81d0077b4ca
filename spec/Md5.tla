-------------------------------- MODULE Md5 --------------------------------
(* RFC 1321 over bytes. A word of 32 bits is <<high 16 bits, low 16 bits>>. *)
EXTENDS Bytes, Bitwise
SE == INSTANCE SequencesExt

LOCAL M16 == 65536
LOCAL Md(a, n) == a - n * (a \div n)
Add(x, y) == LET l == x[2] + y[2] h == x[1] + y[1] + l \div M16 IN <<Md(h, M16), Md(l, M16)>>
And2(x, y) == <<x[1] & y[1], x[2] & y[2]>>
Or2(x, y) == <<x[1] | y[1], x[2] | y[2]>>
Xor2(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
Not1(x) == <<65535 - x[1], 65535 - x[2]>>
LOCAL P2 == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Rot(x, n) == IF n = 16 THEN <<x[2], x[1]>>
             ELSE LET y == IF n > 16 THEN <<x[2], x[1]>> ELSE x
                      p == P2[IF n > 16 THEN n - 16 ELSE n]
                  IN <<Md(y[1] * p, M16) + (y[2] * p) \div M16, Md(y[2] * p, M16) + (y[1] * p) \div M16>>
Shifts == <<7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21>>
K == <<<<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>, <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>, <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>, <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>, <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>, <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>, <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>, <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>, <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>, <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>, <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>, <<1160, 7429>>, <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>, <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>, <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>, <<28584, 32335>>, <<65068, 59104>>, <<41729, 17172>>, <<19976, 4513>>, <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>>>>

(* The message with its padding *)
Padded(s) == LET n == Len(s)
                 z == Md(64 + 55 - Md(n, 64), 64)
                 bits == n * 8
             IN s \o <<128>> \o [i \in 1..z |-> 0]
                \o <<Md(bits, 256), Md(bits \div 256, 256), Md(bits \div 65536, 256), bits \div 16777216, 0, 0, 0, 0>>
WordAt(m, i) == <<m[i + 3] * 256 + m[i + 2], m[i + 1] * 256 + m[i]>>

Start == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>>>
Block(m, at, h) ==
  LET w == [g \in 0..15 |-> WordAt(m, at + 4 * g)]
      Round(v, i) ==
        LET f == CASE i < 16 -> Or2(And2(v[2], v[3]), And2(Not1(v[2]), v[4]))
                   [] i < 32 -> Or2(And2(v[4], v[2]), And2(Not1(v[4]), v[3]))
                   [] i < 48 -> Xor2(Xor2(v[2], v[3]), v[4])
                   [] OTHER -> Xor2(v[3], Or2(v[2], Not1(v[4])))
            g == CASE i < 16 -> i [] i < 32 -> Md(5 * i + 1, 16) [] i < 48 -> Md(3 * i + 5, 16) [] OTHER -> Md(7 * i, 16)
            x == Add(Add(f, v[1]), Add(K[i + 1], w[g]))
        IN <<v[4], Add(v[2], Rot(x, Shifts[4 * (i \div 16) + Md(i, 4) + 1])), v[2], v[3]>>
      r == SE!FoldLeft(Round, h, [i \in 1..64 |-> i - 1])
  IN <<Add(h[1], r[1]), Add(h[2], r[2]), Add(h[3], r[3]), Add(h[4], r[4])>>

HexD == B("0123456789abcdef")
HexB(b) == <<HexD[b \div 16 + 1], HexD[Md(b, 16) + 1]>>
HexW(x) == HexB(Md(x[2], 256)) \o HexB(x[2] \div 256) \o HexB(Md(x[1], 256)) \o HexB(x[1] \div 256)
MD5(s) == LET m == Padded(s)
              h == SE!FoldLeft(LAMBDA a, k : Block(m, 64 * k + 1, a), Start, [k \in 1..(Len(m) \div 64) |-> k - 1])
          IN HexW(h[1]) \o HexW(h[2]) \o HexW(h[3]) \o HexW(h[4])
=============================================================================

------------------------------- MODULE GenKeysBad ------------------------------
(* Key files and committee files that are damaged, each in one way, and such   *)
(* that are not.                                                               *)
EXTENDS KeyBase
Hex(x) == ZHex(x, (ZBitLen(x) + 7) \div 8)
Bytes(x) == (ZBitLen(x) + 7) \div 8
Le(l) == ZHex(ZInt(l % 256), 1) \o ZHex(ZInt(l \div 256), 1)
Field(x) == Le(Bytes(x)) \o Hex(x)
Blob(k) == Field(k[1]) \o Field(k[2]) \o Field(k[3])
Cut(h, b) == SubSeq(h, 1, 2 * b)
Size(h) == Len(h) \div 2
Mine == Key("mine", 33, 32, 33)
Short == Key("short", 3, 2, 2)
Big == Key("big", 256, 255, 256)
Pub(k) == Hex(Sized("pub" \o Str(k), 33))
Com(n) == [k \in 1..n |-> [key |-> Pub(k), addr |-> Local(k), raw |-> ""]]
File(blob, pid) == [blob |-> blob, pid |-> pid, raw |-> "", absent |-> FALSE, empty |-> FALSE]
Scen(pk, pidn, com) == [kind |-> "refuse", n |-> Len(com), pk |-> pk @@ [pidn |-> pidn], com |-> com, nocom |-> FALSE]
NaN == -1000
Out(x) == PrintT(ToJson(x))
\* as they should be
ASSUME \A n \in 2..6 : \A p \in 0..(n - 1) : Out(Scen(File(Blob(Mine), Str(p)), p, Com(n)))
ASSUME \A k \in {Short, Big} : Out(Scen(File(Blob(k), "1"), 1, Com(3)))
\* identifiers
ASSUME \A n \in {2, 3} : \A p \in {-2, -1, n, n + 1, 255, 256, 65535, 65536, 65537, 131072} : Out(Scen(File(Blob(Mine), Str(p)), p, Com(n)))
ASSUME \A p \in {"", "x", "1x", "0x1", "1.0", "99999999999999999999", "one"} : Out(Scen(File(Blob(Mine), p), NaN, Com(3)))
\* the private key: an end is missing, something follows, a field is missing or empty, a length lies
ASSUME \A m \in 0..(Size(Blob(Short)) - 1) : Out(Scen(File(Cut(Blob(Short), m), "1"), 1, Com(3)))
ASSUME \A m \in {0, 1, 2, 3, 34, 35, 36, 37, 38, 66, 68, 69, 70, 71, 72, 103} : Out(Scen(File(Cut(Blob(Mine), m), "0"), 0, Com(2)))
ASSUME \A m \in {1, 2, 255, 256, 257, 258, 259, 511, 514, 516, 517, 772} : Out(Scen(File(Cut(Blob(Big), m), "0"), 0, Com(2)))
ASSUME \A e \in {"00", "01", "0000", "000000", "ff"} : Out(Scen(File(Blob(Mine) \o e, "1"), 1, Com(2)))
ASSUME \A z \in {"0000", "010000", "02000000"} : /\ Out(Scen(File(z \o Field(Mine[2]) \o Field(Mine[3]), "1"), 1, Com(2)))
                                                /\ Out(Scen(File(Field(Mine[1]) \o z \o Field(Mine[3]), "1"), 1, Com(2)))
                                                /\ Out(Scen(File(Field(Mine[1]) \o Field(Mine[2]) \o z, "1"), 1, Com(2)))
                                                /\ Out(Scen(File(z \o z \o z, "1"), 1, Com(2)))
ASSUME Out(Scen(File(Field(Mine[1]) \o Field(Mine[2]), "1"), 1, Com(2)))
ASSUME Out(Scen(File(Blob(Mine) \o Field(Mine[2]), "1"), 1, Com(2)))
ASSUME \A l \in {0, 1, 31, 34, 35, 256, 65535, 33 + 256} : /\ Out(Scen(File(Le(l) \o Hex(Mine[1]) \o Field(Mine[2]) \o Field(Mine[3]), "1"), 1, Com(2)))
                                                    /\ Out(Scen(File(Field(Mine[1]) \o Le(l) \o Hex(Mine[2]) \o Field(Mine[3]), "1"), 1, Com(2)))
                                                    /\ Out(Scen(File(Field(Mine[1]) \o Field(Mine[2]) \o Le(l) \o Hex(Mine[3]), "1"), 1, Com(2)))
ASSUME \A r \in {"@@@@", "AAA", "AAAAA", "====", "QUJD*EFG", "x"} : Out(Scen([File("", "1") EXCEPT !.raw = r], 1, Com(2)))
ASSUME Out(Scen([File("", "1") EXCEPT !.absent = TRUE], 1, Com(2)))
ASSUME Out(Scen([File("", "1") EXCEPT !.empty = TRUE], 1, Com(2)))
\* the committee
Bad == {"nothing", "|", "|a:1", "QUJD|", "QUJD", "QUJD|noport", "QUJD a:1", "@@@@|a:1", "QUJ|a:1", "a:1|QUJD", "|||"}
ASSUME \A n \in {2, 3} : \A k \in 1..n : \A b \in Bad : Out(Scen(File(Blob(Mine), "0"), 0, [Com(n) EXCEPT ![k].raw = b]))
ASSUME \A n \in {0, 1} : Out(Scen(File(Blob(Mine), "0"), 0, Com(n)))
ASSUME Out([Scen(File(Blob(Mine), "0"), 0, Com(2)) EXCEPT !.nocom = TRUE])
\* encoded keys that are damaged somewhere: an end that does not belong there, a character that is not of the alphabet
Text == "AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8g"
MyText == "BAABAgMEAwABAgMCAAkI"
CutAt(t) == {SubSeq(t, 1, k) : k \in {j \in 1..Len(t) : j % 4 # 0}}
Hurt(t, c) == {SubSeq(t, 1, k - 1) \o c \o SubSeq(t, k + 1, Len(t)) : k \in 1..Len(t)}
Signs(t) == CutAt(t) \cup UNION {Hurt(t, c) : c \in IF Tier = "thorough" THEN {"!", "-", "_", ".", ",", "*"} ELSE {"!", "_"}} \cup {SubSeq(t, 1, k) \o "=" \o SubSeq(t, k + 1, Len(t)) : k \in 1..(Len(t) - 1)} \cup {t \o "=", t \o "====", t \o "A", t \o "AA"}
ASSUME \A r \in Signs(Text) : Out(Scen(File(Blob(Mine), "0"), 0, [Com(3) EXCEPT ![2].raw = r \o "|a:1"]))
ASSUME \A r \in Signs(MyText) : Out(Scen([File("", "1") EXCEPT !.raw = r], 1, Com(2)))
\* committees that were shortened: the last ones are outside now
ASSUME \A n \in 2..5 : Out(Scen(File(Blob(Mine), Str(n)), n, Com(n)))
=============================================================================

----------------------------- MODULE MC_Locale -----------------------------
(* Names grow part by part: language, territory, charset, modifier.         *)
EXTENDS Locale, TLC
VARIABLES name, part, ctype, rw
vars == <<name, part, ctype, rw>>
Langs == {<<106, 97>>, <<122, 104>>, <<107, 111>>, <<101, 110>>, <<106, 112, 110>>, <<67>>, <<80, 79, 83, 73, 88>>, <<74, 65>>, <<>>}
Terrs == {<<>>, <<95, 74, 80>>, <<95, 106, 112>>, <<45, 120>>}
Sets  == {<<>>, <<46, 117, 116, 102, 56>>, <<46, 85, 84, 70, 45, 56>>, <<46, 115, 106, 105, 115>>, <<46, 83, 74, 73, 83>>, <<46, 107, 111, 105, 56>>, <<46>>, <<46, 46, 103, 98, 107>>}
Mods  == {<<>>, sNarrow, <<64, 120>>, <<64>>, <<64, 67, 74, 75, 95, 110, 97, 114, 114, 111, 119>>}
Others == {<<>>, <<67>>, <<106, 97, 46, 117, 116, 102, 56>>}
Init == name = <<>> /\ part = 0 /\ ctype \in Others /\ rw \in {<<>>, <<48>>, <<49>>, <<49, 49>>}
Pieces(n) == CASE n = 0 -> Langs [] n = 1 -> Terrs [] n = 2 -> Sets [] n = 3 -> Mods
Next == part < 4 /\ \E x \in Pieces(part) : name' = name \o x /\ part' = part + 1 /\ UNCHANGED <<ctype, rw>>
Spec == Init /\ [][Next]_vars
NeverC == CLocale(name) => ~EastAsianLocale(name)
NarrowWins == Ends(ToLower(name), sNarrow) => ~EastAsianLocale(name)
Utf8OnlyCJK == EastAsianLocale(name) /\ BeforeAt(RawCharset(name)) \in sUtf8 => CJK(name)
(* Without a modifier the answer is that of the name with an unknown one. *)
ModifierIgnored == ~Ends(ToLower(name), sNarrow) => EastAsianName(name) = EastAsianName(name \o <<64, 113>>)
CaseOfCharset == LET n == HeadLen(name) IN n > 0 => EastAsianName(name) = EastAsianName(SubSeq(name, 1, n) \o ToLower(SubSeq(name, n + 1, Len(name))))
FirstWins == name # <<>> => FromEnv(name, ctype, <<>>) = EastAsianLocale(name) /\ FromEnv(<<>>, name, ctype) = EastAsianLocale(name)
EmptyIsUnset == FromEnv(<<>>, <<>>, name) = EastAsianLocale(name)
Override == rw # <<>> => (AtStart(rw, name, ctype, <<>>) <=> rw = <<49>>)
NoOverride == rw = <<>> => (AtStart(rw, name, ctype, <<>>) <=> FromEnv(name, ctype, <<>>))
=============================================================================

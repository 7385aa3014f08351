------------------------------- MODULE CodesMC -------------------------------
EXTENDS Codes, TLC, Json
CONSTANTS Scope, Deep, Depth
VARIABLE hist

TextAlpha == {67, 76, 68, 83, 73, 88, 63, 99, 48, 49, 57, 47, 58, 65, 32, 45}
             \cup (IF Deep THEN {0 + k : k \in {43, 46, 53, 80, 87, 127, 128, 178, 177, 255}} ELSE {177})
Texts == {<<>>} \cup [1..1 -> TextAlpha] \cup [1..2 -> TextAlpha] \cup [1..3 -> TextAlpha]
         \cup {<<67, 49, 67>> \o t : t \in [1..1 -> {32, 65, 49}] \cup [1..3 -> {32, 49}]}
Codes0 == {<<67, 49, 67>>, <<67, 49>>, <<76, 49, 67>>, <<67, 53, 67>>, <<67, 49, 88>>}
Parts == {<<0, 0, 1, 67, 8, 0>>, <<0, 0, 1, 67, 8, 1>>, <<3, 1, 5, 88, -4, 0>>}
         \cup (IF Deep THEN {<<1, 0, 1, 67, 8, 0>>, <<4, 0, 3, 73, 12, 0>>} ELSE {<<4, 0, 3, 73, 12, 0>>})
R2 == {1, 2}
Calls ==
  CASE Scope = "letters" ->
         {<<"char2sys", <<c>>>> : c \in 0..255} \cup {<<"sys2char", <<s>>>> : s \in Systems}
    [] Scope = "texts" ->
         {<<"cparse", <<1, t>>>> : t \in Texts}
         \cup {<<"char2typ", <<c>>>> : c \in 0..255} \cup {<<"typ2char", <<t>>>> : t \in 0..6}
    [] Scope = "codes" ->
         {<<"cparse", <<r, t>>>> : r \in R2, t \in Codes0} \cup {<<"cdefault", <<1>>>>}
         \cup {<<"cmake", <<1, t, b, x>>>> : t \in {0, 6}, b \in {1, 5}, x \in {67, 63}}
         \cup {<<"cband", <<r, b>>>> : r \in R2, b \in {1, 7}} \cup {<<"cattr", <<2, 88>>>>, <<"ctype", <<2, 1>>>>}
         \cup {<<"ccopy", <<1, 2>>>>, <<"ccopy", <<2, 1>>>>}
         \cup {<<"csee", <<r>>>> : r \in R2}
         \cup {<<"ceq", <<1, 2>>>>, <<"ceq", <<2, 1>>>>, <<"ceq", <<1, 1>>>>}
         \cup {<<"cbind", <<r, how>>>> : r \in R2, how \in {0, 1}}
         \cup {<<"cwrite", <<1, 1, 1>>>>, <<"cwrite", <<1, 2, 9>>>>, <<"cwrite", <<1, 3, 67>>>>}
         \cup {<<"ateq", <<x, y>>>> : x \in {67, 63, 32}, y \in {67, 63, 32}}
         \cup {<<"rbind", <<s, 1, z, how>>>> : s \in {0, 5}, z \in {3, 5}, how \in {0, 1}}
         \cup {<<"rstr", <<s, 1>>>> : s \in {0, 5}}
         \cup {<<"req", <<s, 1, z, 2>>>> : s \in {0, 3}, z \in {0, 3}}
    [] Scope = "freq" ->
         {<<"fpart", <<s, b, c>>>> : s \in Systems, b \in -1..11, c \in {8, -8, 4, 20}}
         \cup {<<"fband", <<s, b>>>> : s \in Systems, b \in -1..11}
         \cup {<<"ftable", <<s, b>>>> : s \in Systems, b \in -1..11}
         \cup {<<"fattr", <<s, b>>>> : s \in Systems, b \in -1..11}
         \cup {<<"fconst", <<s>>>> : s \in {0, 3, 4}}
         \cup {<<"onew", <<1, <<s, 0, b, 67, c, 0>>, 0>>>> : s \in Systems, b \in 0..9, c \in {8}}
         \cup {<<"ofreq", <<1>>>>}
    [] Scope = "combos" ->
         {<<"onew", <<r, p, 0>>>> : r \in R2, p \in Parts}
         \cup {<<"oadd", <<r, p, 1>>>> : r \in R2, p \in Parts}
         \cup {<<"onew", <<1, p, how>>>> : p \in {<<3, 1, 5, 88, 4, 1>>}, how \in {2, 3}}
         \cup {<<"oadd", <<1, p, how>>>> : p \in {<<0, 0, 1, 67, 8, 0>>}, how \in {2, 3}}
         \cup {<<"opart", <<r, k>>>> : r \in R2, k \in {1, 2}} \cup {<<"odrop", <<r, k>>>> : r \in R2, k \in {1, 2}}
         \cup {<<"oset", <<2, k, <<0, 0, 1, 67, 8, 1>>>>>> : k \in {1, 2}}
         \cup {<<"peq", <<1, j, 2, k>>>> : j \in {1, 2}, k \in {1, 2}} \cup {<<"hollow", <<r>>>> : r \in R2}
         \cup {<<"ocopy", <<1, 2>>>>, <<"ocopy", <<2, 1>>>>}
         \cup {<<op, <<r>>>> : op \in {"osee", "ofreq"}, r \in R2}
         \cup {<<"oeq", <<r, q>>>> : r \in R2, q \in R2}

MaxParts == IF Deep THEN 3 ELSE 2
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Calls : /\ Do(c[1], c[2])
                           /\ \A r \in Regs : Len(obs'[r]) <= MaxParts
                           /\ hist' = Append(hist, [op |-> c[1], a |-> c[2]])
Emit == PrintT("HIST:" \o ToJson(hist'))
View == <<code, obs>>
=============================================================================

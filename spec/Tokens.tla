------------------------------- MODULE Tokens -------------------------------
(* Splitting a text into tokens.  NextToken(text, ignoreDot) gives the type  *)
(* and the length of the first token of a text.                              *)
EXTENDS Chars

TOK_NONE == 0  TOK_WORD == 1  TOK_PUNCT == 2  TOK_WHITE == 3  TOK_UNKNOWN == 4

HTTP  == <<104,116,116,112,58,47,47>>
HTTPS == <<104,116,116,112,115,58,47,47>>

\* characters allowed in an address besides letters, digits, '@' and '.'
AddrUnknown == {35, 36, 37, 42, 43, 61, 94, 95, 96, 124, 126}      \* # $ % * + = ^ _ ` | ~
AddrPunct   == {33, 38, 39, 45, 47, 63, 123, 125, 46}              \* ! & ' - / ? { } .

(* Is the dot at index i the end of a sentence rather than part of an address? *)
FinalDot(t, i) == t[i] = DOT /\ (i = Len(t) \/ IsWhite(t[i + 1]))

(* Length of the URL at the start of t (0 if there is none).  A URL extends  *)
(* to white space, to a character that cannot be part of it, or to a final   *)
(* dot.  Texts shorter than 12 characters hold no URL.                       *)
IsUrl(t) == Len(t) >= 12 /\ (StartsWith(t, HTTP) \/ StartsWith(t, HTTPS))
UrlLength(t) ==
    LET body == IF t[5] = 115 THEN 9 ELSE 8
        stop(i) == \/ IsWhite(t[i])
                   \/ CharType(t[i]) = "unknown" /\ t[i] \notin {61, 35, 37}
                   \/ FinalDot(t, i)
    IN First(body, Len(t), Len(t) + 1, stop) - 1

(* Length of the email address at the start of t (0 if there is none): a run *)
(* of address characters holding exactly one '@' and, after it, a dot that   *)
(* is not final.                                                             *)
EmailLength(t) ==
    IF Len(t) < 6 THEN 0 ELSE
    LET n == Len(t)
        E[i \in Nat] ==   \* i: first index which is not an address character
            IF i > n THEN i
            ELSE CASE CharType(t[i]) \in {"letter", "digit"} -> E[i + 1]
                   [] t[i] = AT -> E[i + 1]
                   [] t[i] \in AddrUnknown -> E[i + 1]
                   [] t[i] \in AddrPunct -> E[i + 1]
                   [] OTHER -> i
        run == E[1] - 1
        at == IndexOf(Upto(t, run), AT)
    IN IF at = 0 THEN 0
       ELSE LET second == First(at + 1, run, run + 1, LAMBDA i : t[i] = AT)
                \* a final dot after the '@' ends the address
                fin == First(at + 1, run, run + 1, LAMBDA i : FinalDot(t, i))
                end == Lesser(second, fin)
                dot == \E i \in (at + 1)..(end - 1) : t[i] = DOT
            IN IF end = second /\ second <= run THEN 0      \* two '@'
               ELSE IF dot THEN end - 1 ELSE 0

AddressLength(t) == IF IsUrl(t) THEN UrlLength(t) ELSE EmailLength(t)

(* Length of the word at the start of t, possibly 0.                         *)
WordLength(t, ignoreDot) ==
    LET addr == AddressLength(t)
        n == Len(t)
        next(i) == IF i = n THEN "end" ELSE CharType(t[i + 1])
        withDot == IF ignoreDot THEN 1 ELSE 0
        \* W[<<i, num, let>>]: length of the word given that the first i-1 characters belong to
        \* it; num: the last letter or digit was a digit; let: letters have been seen
        W[i \in Nat, num \in BOOLEAN, let \in BOOLEAN] ==
          IF i > n THEN n
          ELSE LET c == t[i]  ty == CharType(c) IN
          CASE ty = "letter" -> W[i + 1, FALSE, TRUE]
            [] ty = "digit" -> W[i + 1, TRUE, let]
            [] ty \in {"white", "unknown"} -> i - 1
            [] c \in {APOS, RSQUO, COLON} ->
                 IF next(i) = "letter" THEN W[i + 1, num, let] ELSE i - 1
            [] c \in {HYPHEN, SOFT, UHYPH, NBHYPH} ->
                 IF next(i) \in {"end", "white", "unknown"} THEN i
                 ELSE IF IsQuote(t[i + 1]) THEN i
                 ELSE IF next(i) \in {"letter", "digit"} THEN W[i + 1, num, let]
                 ELSE IF t[i + 1] = COMMA THEN i
                 ELSE i - 1
            [] c = DOT ->
                 IF next(i) = "letter" \/ (next(i) = "digit" /\ ~let) THEN W[i + 1, num, let]
                 ELSE i - 1 + withDot
            [] c = COMMA ->
                 IF num /\ next(i) = "digit" THEN W[i + 1, num, let] ELSE i - 1
            [] OTHER -> i - 1
    IN IF addr # 0 THEN addr ELSE W[1, FALSE, FALSE]

NextToken(t, ignoreDot) ==
    IF t = <<>> THEN <<TOK_NONE, 0>>
    ELSE LET ty == CharType(t[1]) IN
    CASE ty \in {"letter", "digit"} -> <<TOK_WORD, WordLength(t, ignoreDot)>>
      [] ty = "white" -> <<TOK_WHITE, First(2, Len(t), Len(t) + 1, LAMBDA i : ~IsWhite(t[i])) - 1>>
      [] ty = "unknown" -> <<TOK_UNKNOWN, 1>>
      [] t[1] \in {HYPHEN, UHYPH, NBHYPH} ->
           LET w == IF Len(t) = 1 THEN 0 ELSE WordLength(Tail(t), ignoreDot) IN
           IF w = 0 THEN <<TOK_PUNCT, 1>> ELSE <<TOK_WORD, w + 1>>
      [] StartsWith(t, <<DOT, DOT, DOT>>) -> <<TOK_PUNCT, 3>>
      [] OTHER -> <<TOK_PUNCT, 1>>

(* The whole tokenisation: the successive results of NextToken, ending with  *)
(* TOK_NONE at the end of the text.                                          *)
Tokenise(t, ignoreDot) ==
    LET K[p \in Nat] == LET x == NextToken(From(t, p), ignoreDot) IN
                        IF x[1] = TOK_NONE THEN <<x>> ELSE <<x>> \o K[p + x[2]]
    IN K[1]

(* What users rely on: the tokens partition the text, and the class of a     *)
(* token follows from its characters.                                        *)
RECURSIVE SumLen(_)
SumLen(toks) == IF toks = <<>> THEN 0 ELSE toks[1][2] + SumLen(Tail(toks))
TokenLaws(t, ignoreDot) ==
    LET toks == Tokenise(t, ignoreDot) IN
    /\ SumLen(toks) = Len(t)
    /\ \A i \in 1..(Len(toks) - 1) : toks[i][1] # TOK_NONE /\ toks[i][2] >= 1
    /\ toks[Len(toks)] = <<TOK_NONE, 0>>
    /\ LET Pos[i \in Nat] == IF i = 1 THEN 1 ELSE Pos[i - 1] + toks[i - 1][2] IN
       \A i \in 1..(Len(toks) - 1) :
         LET tok == Sub(t, Pos[i], Pos[i] + toks[i][2] - 1) IN
         /\ toks[i][1] = TOK_WHITE <=> \A k \in 1..Len(tok) : IsWhite(tok[k])
         /\ toks[i][1] = TOK_UNKNOWN => Len(tok) = 1 /\ CharType(tok[1]) = "unknown"
         /\ toks[i][1] = TOK_PUNCT => Len(tok) \in {1, 3} /\ \A k \in 1..Len(tok) : IsPunct(tok[k])
         /\ toks[i][1] = TOK_WORD => ~(\E k \in 1..Len(tok) : IsWhite(tok[k]))
         \* neighbouring white space is one token
         /\ i > 1 => ~(toks[i][1] = TOK_WHITE /\ toks[i - 1][1] = TOK_WHITE)
=============================================================================

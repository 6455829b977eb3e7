------------------------------- MODULE Select -------------------------------
(* Which dictionaries there are, in which order they are listed, and which   *)
(* of them a language tag selects.  Paths, tags and the lines of index files *)
(* are sequences of code points.                                             *)
EXTENDS Chars

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == Once([c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |-> 31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c])
Text(s) == Eager([i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]])

----------------------------------------------------------------------------
(* Language tags: language, optional script of four letters, optional        *)
(* private use part; hyphens and letter case of the last do not matter, nor  *)
(* does a geographical area.                                                 *)
LowerAscii(s) == MapSeq(s, LAMBDA c : IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c)
PrivateUse(s) == LowerAscii(Without(s, HYPHEN))
IndexOfSub(s, p) == First(1, Len(s), 0, LAMBDA i : OccursAt(s, p, i))
PRIVATE == Text("-x-")
Tag(s) == LET k == IndexOfSub(s, PRIVATE)
              ls == IF k = 0 THEN s ELSE Upto(s, k - 1)
              j == IndexOf(ls, HYPHEN)
              l == IF j = 0 THEN ls ELSE Upto(ls, j - 1)
              sc == IF j = 0 THEN <<>> ELSE From(ls, j + 1)
              u == IndexOf(l, 95)
          IN [lang |-> LowerAscii(IF u = 0 THEN l ELSE Upto(l, u - 1)),
              script |-> IF Len(sc) = 4 THEN sc ELSE <<>>,
              use |-> IF k = 0 THEN <<>> ELSE PrivateUse(From(s, k + 3))]
Key(t) == t.lang \o (IF t.script = <<>> THEN <<>> ELSE <<HYPHEN>> \o t.script)
                 \o (IF t.use = <<>> THEN <<>> ELSE PRIVATE \o t.use)
STANDARD == Text("standard")
DEFAULT == Text("default")

Fits(req, t) == /\ req.lang = t.lang /\ req.script = t.script
                /\ req.use = <<>> \/ req.use = t.use \/ (req.use = STANDARD /\ t.use = <<>>)

----------------------------------------------------------------------------
(* Index files *)
FORMAT == Text("Voikko-Dictionary-Format: 5")
MOR == Text("mor-")
Field(lines, name, dflt) ==
    LET I == {i \in 2..Len(lines) : StartsWith(lines[i], name)}
    IN IF I = {} THEN dflt ELSE From(lines[CHOOSE i \in I : \A j \in I : j <= i], Len(name) + 1)
FINNISH == Text("fi")
\* spellers in archives have their tag and title with them
IsArchive(e) == "zhfst" \in DOMAIN e
TagOf(e) == IF IsArchive(e) THEN Tag(e.tag) ELSE Tag(Field(e.lines, Text("Language: "), FINNISH))
DescriptionOf(e) == IF IsArchive(e) THEN e.title ELSE Field(e.lines, Text("Description: "), <<>>)
ValidEntry(e) == /\ IF IsArchive(e) THEN e.zhfst = 1 /\ EndsWith(e.dir, Text(".zhfst"))
                    ELSE /\ StartsWith(e.dir, MOR) /\ Len(e.dir) > 4
                         /\ Len(e.lines) > 0 /\ e.lines[1] = FORMAT
                 /\ TagOf(e).lang # <<>>

----------------------------------------------------------------------------
(* The search: places in order, first the one given by the caller, then those *)
(* of the environment, the user's, those fixed when the library was built.   *)
RECURSIVE SplitPath(_)
SplitPath(s) == LET k == IndexOf(s, COLON) IN
                IF s = <<>> THEN <<>> ELSE IF k = 0 THEN <<s>> ELSE <<Upto(s, k - 1)>> \o SplitPath(From(s, k + 1))
Places(W, path, envp) == (IF path = <<>> THEN <<>> ELSE <<path>>) \o SplitPath(envp)
                         \o <<W.home \o Text("/.voikko"), Text("/etc/voikko")>> \o SplitPath(W.sys)
EntriesAt(W, p) == LET I == SelectSeq(Eager([i \in 1..Len(W.locs) |-> i]), LAMBDA i : W.locs[i].p = p)
                   IN IF I = <<>> THEN <<>> ELSE LET v == SelectSeq(W.locs[I[1]].e, ValidEntry)       \* archives come after the others
                                              IN SelectSeq(v, LAMBDA e : ~IsArchive(e)) \o SelectSeq(v, IsArchive)
\* everything found, in search order
FoundAll(W, path, envp) == LET pl == Places(W, path, envp) IN FoldLeft(LAMBDA acc, p : acc \o EntriesAt(W, p), <<>>, pl)
\* of several dictionaries with the same tag, the first found hides the others
Visible(fs) == FoldLeft(LAMBDA acc, e : IF \E i \in 1..Len(acc) : Key(TagOf(acc[i])) = Key(TagOf(e)) THEN acc ELSE Append(acc, e), <<>>, fs)
\* the default dictionary of a language: the first one found whose private use part is "default"
DefaultOf(fs, lang) == First(1, Len(fs), 0, LAMBDA i : TagOf(fs[i]).lang = lang /\ TagOf(fs[i]).use = DEFAULT)
\* it comes before the others; where there is none, the standard dictionaries do
Preferred(vs, e) == LET t == TagOf(e)  d == DefaultOf(vs, t.lang) IN
                    IF d # 0 THEN vs[d] = e ELSE EndsWith(Key(t), PRIVATE \o STANDARD)
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
ByKey(vs) == SortSeq(vs, LAMBDA a, b : Less(Key(TagOf(a)), Key(TagOf(b))))
\* preferred ones in descending order of their tags, the others ascending
Listing(W, path, envp) ==
    LET vs == Visible(FoundAll(W, path, envp))
        s == ByKey(vs)
    IN Reverse(SelectSeq(s, LAMBDA e : Preferred(vs, e))) \o SelectSeq(s, LAMBDA e : ~Preferred(vs, e))

\* the environment may name the variant to use where the caller does not
Requested(lang, envd) == LET t == Tag(lang) IN
    IF t.use \in {<<>>, DEFAULT} /\ envd.set = 1 THEN [t EXCEPT !.use = PrivateUse(envd.v)] ELSE t
NOTHING == [dir |-> <<>>, lines |-> <<>>, d |-> ""]
Chosen(W, lang, path, envp, envd) ==
    LET l == Listing(W, path, envp)
        r == Requested(lang, envd)
        k == First(1, Len(l), 0, LAMBDA i : Fits(r, TagOf(l[i])))
    IN IF k = 0 THEN NOTHING ELSE l[k]

----------------------------------------------------------------------------
(* What the listings show *)
Shown(e) == LET t == TagOf(e) IN
    [lang |-> t.lang, script |-> t.script, variant |-> IF t.use = <<>> THEN STANDARD ELSE t.use, desc |-> DescriptionOf(e)]
ShortTags(l) == {Key([TagOf(l[i]) EXCEPT !.use = <<>>]) : i \in 1..Len(l)}
Sorted(S) == SetToSortSeq(S, Less)

----------------------------------------------------------------------------
(* Variants of the deprecated interface *)
RECURSIVE Chopped(_)
Chopped(s) == IF s = <<>> THEN <<>> ELSE <<HYPHEN>> \o Upto(s, Lesser(8, Len(s))) \o Chopped(From(s, 9))
VariantTag(v) == IF v \in {<<>>, DEFAULT, Text("fi_FI")} THEN FINNISH ELSE Text("fi-x") \o Chopped(v)
=============================================================================

------------------------------ MODULE LiveDoc ------------------------------
(* The server-side copy of a document that an editor is changing.

   Two descriptions of the same history are kept side by side:
     client  - what the editor has: one flat sequence of characters, edited by
               offset (this is the meaning the LSP gives to an edit);
     lines   - what the server has: a sequence of lines, each remembering which
               line of the last saved text it is (or that it is not one), edited
               by (line, column) exactly as the implementation does it.

   Characters are small numbers: 0,1 plain letters, 2 = LF, 3 = CRLF,
   4 = a letter outside ASCII (1 UTF-16 unit), 5 = outside the BMP (2 UTF-16
   units).  LSP columns count UTF-16 units. *)
EXTENDS MBV

CONSTANTS Chars, MaxIns, MaxLen, Depth, MaxJoin, Emitting, Pick(_)

VARIABLES client, lines, savedLines, live, saved, hist,
          open,   \* whether the editor has the document open
          joined  \* how many edits the last change notification has (0: it was another one)
vars == <<client, lines, savedLines, live, saved, hist, open, joined>>

IsNL(c) == c \in {2, 3}
Width(c) == IF c = 5 THEN 2 ELSE 1
None == -1

RECURSIVE SplitR(_, _)
SplitR(t, cur) ==
  IF t = <<>> THEN << cur >>
  ELSE IF IsNL(Head(t)) THEN << cur >> \o SplitR(Tail(t), <<>>)
  ELSE SplitR(Tail(t), Append(cur, Head(t)))
Split(t) == SplitR(t, <<>>)

Numbered(t) == LET s == Split(t) IN [i \in 1..Len(s) |-> [text |-> s[i], saved |-> i - 1]]
Fresh(t)    == LET s == Split(t) IN [i \in 1..Len(s) |-> [text |-> s[i], saved |-> None]]
Texts(ls)   == [i \in 1..Len(ls) |-> ls[i].text]

RECURSIVE W(_)
W(t) == IF t = <<>> THEN 0 ELSE Width(Head(t)) + W(Tail(t))

\* number of characters of t that lie in its first k UTF-16 units
CharsWithin(t, k) ==
  LET ok == {n \in 0..Len(t) : W(SubSeq(t, 1, n)) <= k}
  IN CHOOSE n \in ok : \A m \in ok : m <= n
PrefixU(t, k) == SubSeq(t, 1, CharsWithin(t, k))
SuffixU(t, k) == SubSeq(t, CharsWithin(t, k) + 1, Len(t))

\* offset in the client's flat text of character index n (0-based) of line l (0-based)
RECURSIVE OffR(_, _, _)
OffR(t, l, pos) == IF l = 0 THEN pos
                   ELSE IF IsNL(t[pos + 1]) THEN OffR(t, l - 1, pos + 1)
                   ELSE OffR(t, l, pos + 1)
LineOff(t, l) == OffR(t, l, 0)

InsTexts == SeqsUpTo(Chars, MaxIns)

Obs(ls, sv) ==
  [ lines |-> Texts(ls),
    changed |-> [i \in 1..Len(ls) |-> ls[i].saved = None],
    saved |-> sv,
    env |-> [i \in 1..Len(ls) |->
               LET below == {j \in 1..(IF i <= Len(ls) THEN i ELSE Len(ls)) : ls[j].saved # None}
               IN IF below = {} THEN 0
                  ELSE ls[CHOOSE j \in below : \A k \in below : k <= j].saved] ]

Log(a) == hist' = IF Emitting THEN Append(hist, a @@ [obs |-> Obs(lines', saved')]) ELSE hist

Init == /\ client = << >> /\ lines = << >> /\ savedLines = << >> /\ live = -1 /\ saved = 0
        /\ hist = << >> /\ open = FALSE /\ joined = 0

\* One notification can carry several edits, applied one after the other; they share its version.
Notify == \/ /\ live' = live + 1 /\ joined' = 1
             \/ /\ joined \in 1..MaxJoin-1 /\ live' = live /\ joined' = joined + 1

Open ==
  /\ ~open /\ live < Depth /\ open' = TRUE /\ joined' = 0
  /\ \E t \in Pick(InsTexts) :
    /\ client' = t /\ lines' = Numbered(t) /\ savedLines' = Split(t)
    /\ live' = live + 1 /\ saved' = live + 1
    /\ Log([op |-> "open", text |-> t, version |-> live'])

\* Closing forgets the document: unsaved text is gone, and it may be opened with any other.
Close ==
  /\ open' = FALSE /\ joined' = 0 /\ client' = << >> /\ lines' = << >> /\ savedLines' = << >>
  /\ UNCHANGED <<live, saved>>
  /\ Log([op |-> "close", version |-> live])

\* A ranged edit. The client names characters; on the wire they are UTF-16 columns.
Change ==
  \E l1 \in Pick(0..Len(lines) - 1) : \E l2 \in Pick(l1..Len(lines) - 1) :
  LET t1 == lines[l1 + 1].text
      t2 == lines[l2 + 1].text IN
  \E c1 \in Pick(0..Len(t1)) : \E c2 \in Pick((IF l1 = l2 THEN c1 ELSE 0)..Len(t2)) :
  \E ins \in Pick(InsTexts) : \E over \in Pick({0, 3}) :
  LET w1 == W(SubSeq(t1, 1, c1))
      \* a column past the end of the line means the end of the line
      w2 == W(SubSeq(t2, 1, c2)) + (IF c2 = Len(t2) THEN over ELSE 0)
      new == Fresh(PrefixU(t1, w1) \o ins \o SuffixU(t2, w2))
      from == LineOff(client, l1) + c1
      upto == LineOff(client, l2) + c2 IN
    /\ (over = 0 \/ c2 = Len(t2))
    /\ Len(client) - (upto - from) + Len(ins) <= MaxLen
    /\ Notify
    /\ lines' = SubSeq(lines, 1, l1) \o new \o SubSeq(lines, l2 + 2, Len(lines))
    /\ client' = SubSeq(client, 1, from) \o ins \o SubSeq(client, upto + 1, Len(client))
    /\ UNCHANGED <<savedLines, saved, open>>
    /\ Log([op |-> "change", version |-> live', text |-> ins,
            range |-> <<l1, w1, l2, w2>>])

\* An edit that names a line the document does not have: the document is unchanged.
BadChange ==
  \E l1 \in Pick(0..Len(lines)) : \E ins \in Pick(InsTexts) :
    /\ Notify
    /\ UNCHANGED <<client, lines, savedLines, saved, open>>
    /\ Log([op |-> "change", version |-> live', text |-> ins,
            range |-> <<l1, 0, Len(lines), 0>>])

ChangeAll ==
  \E t \in Pick(InsTexts) :
    /\ Notify /\ client' = t /\ lines' = Fresh(t)
    /\ UNCHANGED <<savedLines, saved, open>>
    /\ Log([op |-> "changeall", version |-> live', text |-> t])

Save ==
    /\ lines' = Numbered(client) /\ savedLines' = Split(client) /\ saved' = live
    /\ UNCHANGED <<client, live, open>> /\ joined' = 0
    /\ Log([op |-> "save", version |-> live, text |-> client])

Next == \/ Open
        \/ /\ open /\ live < Depth
           /\ (Change \/ BadChange \/ ChangeAll \/ Save)
        \/ /\ open /\ live < Depth /\ live % 4 = 3
           /\ Close
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* What the property says.
SameText == open => Texts(lines) = Split(client)
SavedLineIsUnchanged ==
  \A i \in 1..Len(lines) : lines[i].saved # None =>
      /\ lines[i].saved + 1 \in 1..Len(savedLines)
      /\ savedLines[lines[i].saved + 1] = lines[i].text
SavedOrder == \A i, j \in 1..Len(lines) :
  (i < j /\ lines[i].saved # None /\ lines[j].saved # None) => lines[i].saved < lines[j].saved
SavedNotAhead == open => saved <= live

\* Behaviours for replay: when the walk is long enough, its history is printed once.
Finish == /\ Emitting /\ live = Depth /\ Len(hist) > 0
          /\ Say("TRACE", hist) /\ hist' = << >>
          /\ UNCHANGED <<client, lines, savedLines, live, saved, open, joined>>
GenNext == Next \/ Finish
GenSpec == Init /\ [][GenNext]_vars
=============================================================================

------------------------------- MODULE MCLogs -------------------------------
(* All histories of two loggers and two files, and all layouts of small    *)
(* messages: the lines of messages one after another tell the messages.    *)
EXTENDS Logs, TLC
Texts == {"", "a"}
D == {[pad |-> p, text |-> t] : p \in {0, 1}, t \in Texts}
Ms == [level : {"info"}, func : {"f"}, line : {1}, pad : 0..1, text : {"a", "b"}, kind : {"", "list"}, details : {<<>>} \cup {<<d>> : d \in D} \cup {<<d, e>> : d \in D, e \in D}]
Proper == {m \in Ms : m.kind # "" \/ m.details = <<>>}
\* one head each; below it only lines further to the right
ASSUME \A m \in Proper : LET L == Lines(m, TRUE) IN
         L[1].head = 1 /\ \A i \in 2..Len(L) : L[i].head = 0 /\ L[i].pad >= m.pad + 2
\* messages with a text can be told from their lines, but for having details or an empty list of them
ASSUME \A m \in Proper, o \in Proper : Lines(m, TRUE) = Lines(o, TRUE) => [m EXCEPT !.kind = ""] = [o EXCEPT !.kind = ""]
ASSUME \A m \in Proper, o \in Proper : Lines(m, FALSE) = Lines(o, FALSE) => m = o
=============================================================================

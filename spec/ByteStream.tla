------------------------------ MODULE ByteStream ------------------------------
(* A byte stream (MemoryStream, SecureStream, FileStream): contents and a      *)
(* position.  The contents are runs (source i: what step i wrote).  Whatever   *)
(* the stream does inside (encrypt its contents, buffer them, keep them in a   *)
(* file) must not show: a read returns the bytes last written at each place,   *)
(* a write changes just the bytes it covers and extends the stream with zeros  *)
(* if it begins beyond the end, position and length are those of the model.   *)
(* Files also have a life outside the stream: disk is what a reader of the     *)
(* file finds once the stream is closed.  flat follows the contents byte by    *)
(* byte in the small model: the runs denote it (Denotes).                      *)
EXTENDS Runs, FiniteSets, TLC, Json

CONSTANTS Kinds, Lens, Seeks, Offs, Steps, Gen, Flat
VARIABLES k, data, pos, open, disk, hist, flat, done
vars == <<k, data, pos, open, disk, hist, flat, done>>

Left == IF pos < Total(data) THEN Total(data) - pos ELSE 0
File == k.kind = "file"

Init == /\ k \in Kinds /\ pos = 0 /\ done = FALSE /\ hist = <<>>
        /\ data = Run(1000, IF k.kind # "file" /\ k.off > 0 THEN k.off ELSE 0, k.n)
        /\ disk = (IF k.kind = "file" THEN data ELSE <<>>)
        /\ open = (IF k.kind = "file" THEN "no" ELSE "rw")
        /\ flat = (IF Flat THEN [i \in 1 .. k.n |-> <<1000, (IF k.kind # "file" /\ k.off > 0 THEN k.off ELSE 0) + i - 1>>] ELSE <<>>)
Log(e) == hist' = IF Gen = "no" THEN hist \o <<0>> ELSE Append(hist, e @@ [pos |-> pos', len |-> Total(data')])
Id == Len(hist) + 1
FlatPut(p, id, o, n) == IF ~Flat THEN <<>> ELSE
    [i \in 1 .. (IF n > 0 /\ p + n > Len(flat) THEN p + n ELSE Len(flat)) |->
        IF i > p /\ i <= p + n THEN <<id, o + i - 1 - p>> ELSE IF i <= Len(flat) THEN flat[i] ELSE <<0, 0>>]
CanRead == open \in {"r", "rw"}
CanWrite == open \in {"w", "rw"}

Write(o, n) == /\ CanWrite /\ (n = 0 => pos <= Total(data))
               /\ data' = (IF n = 0 THEN data ELSE Overlay(data, pos, Run(Id, o, n))) /\ pos' = pos + n
               /\ flat' = FlatPut(pos, Id, o, n)
               /\ Log([op |-> "write", o |-> o, n |-> n]) /\ UNCHANGED <<k, open, disk>>
WriteByte == /\ CanWrite /\ data' = Overlay(data, pos, Run(Id, 0, 1)) /\ pos' = pos + 1 /\ flat' = FlatPut(pos, Id, 0, 1)
             /\ Log([op |-> "writebyte"]) /\ UNCHANGED <<k, open, disk>>
Read(o, n) == /\ CanRead /\ UNCHANGED <<k, data, open, disk, flat>> /\ pos' = pos + Min(n, Left)
              /\ Log([op |-> "read", o |-> o, n |-> n, runs |-> Slice(data, pos, Min(n, Left))])
ReadByte == IF CanRead /\ Left = 0 THEN UNCHANGED <<k, data, pos, open, disk, flat>> /\ Log([op |-> "readend"]) ELSE
            /\ CanRead /\ UNCHANGED <<k, data, open, disk, flat>> /\ pos' = pos + 1
            /\ Log([op |-> "readbyte", runs |-> Slice(data, pos, 1)])
\* from the end: backwards in memory; a file just goes to its end
Seek(org, n) == /\ open # "no" /\ UNCHANGED <<k, data, open, disk, flat>>
                /\ (org = "end" => (IF File THEN n = 0 ELSE n <= Total(data)))
                /\ pos' = (CASE org = "begin" -> n [] org = "current" -> pos + n [] org = "end" -> Total(data) - n)
                /\ Log([op |-> "seek", org |-> org, n |-> n])
\* memory: room is made, nothing else happens; file: cut or extended
SetLength(n) == /\ CanWrite /\ UNCHANGED <<k, open, disk, pos>>
                /\ data' = (IF File THEN Upto(data, n) ELSE data)
                /\ flat' = (IF ~Flat \/ ~File THEN flat ELSE [i \in 1 .. n |-> IF i <= Len(flat) THEN flat[i] ELSE <<0, 0>>])
                /\ Log([op |-> "setlength", n |-> n])
\* into a memory stream of m bytes, positioned at p: at its position; a file at its beginning
CopyTo(m, p) == /\ CanRead /\ (File => data # <<>>) /\ (data = <<>> => p <= m) /\ UNCHANGED <<k, data, pos, open, disk, flat>>
                /\ LET at == IF File THEN 0 ELSE p IN
                   Log([op |-> "copyto", m |-> m, p |-> p, at |-> at + Total(data),
                        runs |-> IF data = <<>> THEN Run(Id, 0, m) ELSE Overlay(Run(Id, 0, m), at, data)])
ToArray == /\ ~File /\ UNCHANGED <<k, data, pos, open, disk, flat>> /\ Log([op |-> "toarray", runs |-> data])
Copy == /\ k.kind = "mem" /\ UNCHANGED <<k, data, open, disk, flat>> /\ pos' = 0 /\ Log([op |-> "copy"])      \* the original is then changed and dropped
Reset == /\ open # "no" /\ pos' = 0 /\ data' = (IF File THEN data ELSE <<>>) /\ flat' = (IF File THEN flat ELSE <<>>)
         /\ Log([op |-> "reset"]) /\ UNCHANGED <<k, open, disk>>
Close == /\ open # "no" /\ pos' = 0 /\ data' = <<>> /\ disk' = (IF ~File THEN disk ELSE IF CanWrite THEN data ELSE disk)
         /\ open' = (IF File THEN "no" ELSE open) /\ flat' = <<>>
         /\ Log([op |-> "close", runs |-> IF File THEN disk' ELSE <<>>]) /\ UNCHANGED k
\* opening: to write (or truncated) starts empty; at the end: positioned there
Open(acc, mode) ==
    /\ File /\ open = "no" /\ open' = acc
    /\ (mode = "truncate" => acc # "r")
    /\ data' = (IF acc = "w" \/ mode = "truncate" THEN <<>> ELSE disk)
    /\ pos' = (IF mode = "atend" THEN Total(data') ELSE 0)
    /\ flat' = (IF ~Flat THEN <<>> ELSE IF data' = <<>> THEN <<>> ELSE
                LET D == data' IN [i \in 1 .. Total(D) |-> LET b == Slice(D, i - 1, 1)[1] IN <<b.s, IF b.s = 0 THEN 0 ELSE b.o>>])
    /\ Log([op |-> "open", acc |-> acc, mode |-> mode]) /\ UNCHANGED <<k, disk>>
Opens == \E acc \in {"r", "w", "rw"}, mode \in {"binary", "atend", "truncate"} : Open(acc, mode)

\* the operations of a random walk (RF: chosen so that the fan-out stays small)
Do(org, p, n, m, o) ==
    \/ Write(o, n) \/ Write(0, n) \/ Write(0, m) \/ WriteByte \/ Read(o, n) \/ Read(0, m) \/ ReadByte
    \/ Seek(org, p) \/ Seek("begin", p) \/ Seek("begin", IF Total(data) > 0 THEN Total(data) - 1 ELSE 0) \/ Seek("begin", n) \/ Seek("end", 0)
    \/ SetLength(n) \/ SetLength(Total(data)) \/ CopyTo(m, 0) \/ CopyTo(5, 3) \/ ToArray \/ Copy \/ Reset \/ Close \/ Opens
Rand(S) == IF Gen = "walk" THEN {RandomElement(S)} ELSE S
Step == /\ Len(hist) < Steps /\ done' = FALSE
        /\ \E org \in Rand({"begin", "current", "end"}), p \in Rand(Seeks), n \in Rand(Lens), m \in Rand(Lens), o \in Rand(Offs) : Do(org, p, n, m, o)
Stop == done' = TRUE /\ UNCHANGED <<k, data, pos, open, disk, hist, flat>>
Next == Step \/ (Gen # "no" /\ Len(hist) = Steps /\ ~done /\ Stop)
MCNext == /\ done' = FALSE
          /\ \/ \E n \in Lens, o \in Offs : Write(o, n) \/ Read(o, n)
             \/ WriteByte \/ ReadByte \/ (\E p \in Seeks : Seek("begin", p) \/ Seek("current", p) \/ Seek("end", p))
             \/ (\E n \in Lens : SetLength(n)) \/ CopyTo(2, 1) \/ ToArray \/ Copy \/ Reset \/ Close \/ Opens
MCSpec == Init /\ [][MCNext]_vars
\* write, seek, one more operation, the rest of the contents
H == Len(hist) - (IF File THEN 1 ELSE 0)
SweepNext ==
    \/ /\ done' = FALSE
       /\ \/ H = -1 /\ Open("rw", "binary")
          \/ H = 0 /\ (\E n \in Lens : Write(0, n))
          \/ H = 1 /\ (\E p \in Seeks : Seek("begin", p))
          \/ H = 2 /\ \/ \E n \in Lens : Write(3, n) \/ Read(3, n) \/ SetLength(n)
                      \/ WriteByte \/ ReadByte \/ CopyTo(5, 3) \/ (\E p \in Seeks : Seek("current", p) \/ Seek("end", p))
                      \/ Reset \/ ToArray \/ Copy
    \/ H = 3 /\ ~done /\ Stop
-------------------------------------------------------------------------------
TypeOK == /\ pos >= 0 /\ open \in {"no", "r", "w", "rw"}
          /\ \A i \in 1 .. Len(data) : data[i].n > 0
\* the runs denote the contents kept byte by byte
Denotes == /\ Len(flat) = Total(data)
           /\ \A i \in 1 .. Len(flat) : LET b == Slice(data, i - 1, 1)[1] IN flat[i] = <<b.s, IF b.s = 0 THEN 0 ELSE b.o>>
\* a write moves the position by what it wrote, and reading it back returns it
ReadBack == [][(\E n \in Lens, o \in Offs : n > 0 /\ Write(o, n)) => \E n \in Lens, o \in Offs : Slice(data', pos, pos' - pos) = Run(Id, o, n)]_vars
\* a write leaves all other bytes as they were
Frame == [][(\E n \in Lens, o \in Offs : n > 0 /\ Write(o, n)) =>
              /\ Slice(data', 0, Min(pos, Total(data))) = Slice(data, 0, pos)
              /\ Slice(data', pos', Total(data')) = Slice(data, pos', Total(data))]_vars
ReaderOnly == [][open = "r" => (disk' = disk /\ (data' = data \/ open' = "no"))]_vars
MCBound == Total(data) <= 6 /\ pos <= 6 /\ Len(hist) <= 3
\* the sources are numbered by step: states that differ in it only are one
MCView == <<k, data, pos, open, disk, Len(hist)>>
K(kind, n, o) == [kind |-> kind, n |-> n, off |-> o]
MCKinds == {K("mem", 0, 0), K("sec", 2, 1), K("file", 0, 0), K("file", 3, 0)}
\* off: -1 made with the whole array, >= 0 with a part of it (mem, sec); -2 made with a capacity
WalkKinds == {K(t, n, o) : t \in {"mem", "sec"}, n \in {0, 5, 100}, o \in {-1, 3}} \cup {K("mem", 0, -2), K("sec", 0, -2)} \cup {K("file", n, 0) : n \in {0, 7, 4096, 5000}}
SweepKinds == {K("mem", 0, -3), K("sec", 0, -3), K("file", 0, 0), K("mem", 40, -1), K("sec", 40, -1), K("file", 40, 0)}
Emit == done => PrintT(<<"BEH", ToJson([k |-> k, h |-> hist, runs |-> data, open |-> open, disk |-> disk])>>)
=============================================================================

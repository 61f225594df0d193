-------------------------------- MODULE Backend --------------------------------
(* The metadata backend: tables of graphs, snapshots, tags, partitions per     *)
(* storage and partitions per snapshot. Several backends share nothing; every  *)
(* connection to (and copy of) a backend sees the same tables.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Backends, Names, Tags, Ids, Keys, Parts, Arts, Groups, Filters

\* Arts: artifact -> storage, as a set of pairs [a, s]; Parts: [k, ifp, v]
StorageOf(a) == (CHOOSE x \in Arts : x.a = a).s
ArtNames == {x.a : x \in Arts}
Storages == {x.s : x \in Arts}

VARIABLES b, disk
vars == <<b, disk>>
State == [b |-> b, disk |-> disk]
Nothing == [graphs |-> {}, snaps |-> {}, tags |-> {}, links |-> {}, seen |-> {}, known |-> {}, open |-> {}]

Init == b = [x \in Backends |-> Nothing] /\ disk = {}

Edge(a, nb, nd) == /\ PrintT("@E" \o ToJson([s |-> State, a |-> a, t |-> [b |-> nb, disk |-> nd]]))
                   /\ b' = nb /\ disk' = nd
Do(x, a, t) == Edge(a, [b EXCEPT ![x] = t], disk)
Look(a) == Edge(a, b, disk)

(* ---- graphs and snapshots ---- *)
WriteGraph(x, n, v) == Do(x, [op |-> "write_graph", b |-> x, n |-> n, v |-> v, res |-> TRUE], [b[x] EXCEPT !.graphs = @ \cup {<<n, v>>}])
ReadGraph(x, n, v, m) ==      \* looked up under name n by the fingerprint of graph (m, v)
  Look([op |-> "read_graph", b |-> x, n |-> n, v |-> v, of |-> m,
        res |-> IF n = m /\ <<n, v>> \in b[x].graphs THEN "it" ELSE "error"])
WriteSnap(x, n, i) == Do(x, [op |-> "write_snapshot", b |-> x, n |-> n, i |-> i, res |-> TRUE], [b[x] EXCEPT !.snaps = @ \cup {<<n, i>>}])
ReadSnap(x, n, i, m) ==
  Look([op |-> "read_snapshot", b |-> x, n |-> n, i |-> i, of |-> m,
        res |-> IF n = m /\ <<n, i>> \in b[x].snaps THEN "it" ELSE "error"])

(* ---- tags ---- *)
Tagged(x, n, t) == {y \in b[x].tags : y[1] = n /\ y[2] = t}
Tag(x, n, t, i, over) ==
  LET old == Tagged(x, n, t)
      ok == old = {} \/ over
  IN Do(x, [op |-> "tag", b |-> x, n |-> n, t |-> t, i |-> i, over |-> over, res |-> ok],
        IF ok THEN [b[x] EXCEPT !.tags = (@ \ old) \cup {<<n, t, i>>}] ELSE b[x])
ReadTag(x, n, t) ==
  LET old == Tagged(x, n, t) IN
  Look([op |-> "read_tag", b |-> x, n |-> n, t |-> t, res |-> IF old = {} THEN 0 ELSE (CHOOSE y \in old : TRUE)[3]])

(* ---- partitions of a snapshot ---- *)
LinkParts(x, n, i, k, P) ==
  Do(x, [op |-> "link", b |-> x, n |-> n, i |-> i, k |-> k, parts |-> P, res |-> TRUE],
     [b[x] EXCEPT !.links = @ \cup {<<n, i, k, [s |-> "s", p |-> p]>> : p \in P}])
ReadLinks(x, n, i, k) ==
  Look([op |-> "read_links", b |-> x, n |-> n, i |-> i, k |-> k,
        res |-> {y[4] : y \in {z \in b[x].links : z[1] = n /\ z[2] = i /\ z[3] = k}}])

(* ---- partitions of a storage ---- *)
Known(x, s) == {y[2] : y \in {z \in b[x].known : z[1] = s}}
Open(x, s) == {y[2] : y \in {z \in b[x].open : z[1] = s}}
OnDisk(s) == {y[2] : y \in {z \in disk : z[1] = s}}
\* A filter maps keys to input fingerprints; the empty one asks for everything.
Match(f, p) == f = {} \/ \E m \in f : m[1] = p.k /\ m[2] = p.ifp
Fits(s, p) == (s = "q") = (p.ifp = 0)
Store(s, p) == p.v = 1 /\ Fits(s, p) /\ <<s, p>> \notin disk /\ Edge([op |-> "store", s |-> s, p |-> p, res |-> TRUE], b, disk \cup {<<s, p>>})
Unstore(s, p) == <<s, p>> \in disk /\ Edge([op |-> "unstore", s |-> s, p |-> p, res |-> TRUE], b, disk \ {<<s, p>>})
WriteParts(x, a, P, how) ==
  LET s == StorageOf(a) IN
  /\ \A p \in P : Fits(s, p)
  /\ Do(x, [op |-> "write_parts", b |-> x, a |-> a, parts |-> P, how |-> how, res |-> TRUE],
     \* (what else exists in a storage first heard of by a write is left open)
     [b[x] EXCEPT !.seen = @ \cup {s}, !.known = @ \cup {<<s, p>> : p \in P},
                  !.open = (@ \cup IF s \in b[x].seen THEN {} ELSE {<<s, p>> : p \in OnDisk(s)}) \ {<<s, p>> : p \in P},
                  !.links = @ \cup (IF how = "both" THEN {<<CHOOSE n \in Names : TRUE, CHOOSE i \in Ids : TRUE, CHOOSE k \in Keys : TRUE, [s |-> s, p |-> p]>> : p \in P} ELSE {})])
CanRead(x, s, f) == /\ ~\E p \in Open(x, s) : Match(f, p)
                    \* (what a first look at produced data finds is left open unless it asks for certain inputs)
                    /\ f = {} => (s \in b[x].seen \/ \A p \in OnDisk(s) : p.ifp = 0)
ReadParts(x, a, f) ==
  LET s == StorageOf(a)
      new == IF s \in b[x].seen THEN {} ELSE {p \in OnDisk(s) : Match(f, p)}
      \* (a filtered first look may or may not notice the rest)
      rest == IF s \in b[x].seen THEN {} ELSE OnDisk(s) \ new
      all == Known(x, s) \cup new
  IN /\ CanRead(x, s, f)
     /\ Do(x, [op |-> "read_parts", b |-> x, a |-> a, filter |-> f, res |-> {p \in all : Match(f, p)}],
           [b[x] EXCEPT !.seen = @ \cup {s}, !.known = @ \cup {<<s, p>> : p \in new},
                        !.open = @ \cup {<<s, p>> : p \in rest}])

(* ---- a backend made from a serialized other one has its records, but is its own ---- *)
Clone(x, y) == x # y /\ b[x] # b[y] /\ Edge([op |-> "clone", b |-> x, to |-> y, res |-> TRUE], [b EXCEPT ![y] = b[x]], disk)

Next ==
  \/ "graphs" \in Groups /\ \E x \in Backends, n \in Names, v \in 1..2 :
       WriteGraph(x, n, v) \/ \E m \in Names : ReadGraph(x, n, v, m)
  \/ "snaps" \in Groups /\ \E x \in Backends, n \in Names, i \in Ids : WriteSnap(x, n, i) \/ \E m \in Names : ReadSnap(x, n, i, m)
  \/ "tags" \in Groups /\ \E x \in Backends, n \in Names, t \in Tags :
       ReadTag(x, n, t) \/ \E i \in Ids, over \in BOOLEAN : Tag(x, n, t, i, over)
  \/ "links" \in Groups /\ \E x \in Backends, n \in Names, i \in Ids, k \in Keys :
       ReadLinks(x, n, i, k) \/ \E P \in SUBSET Parts : LinkParts(x, n, i, k, P)
  \/ "parts" \in Groups /\ \/ \E s \in Storages, p \in Parts : Store(s, p) \/ Unstore(s, p)
                           \/ \E x \in Backends, a \in ArtNames : \/ \E P \in SUBSET Parts : WriteParts(x, a, P, "parts")
                                                                   \/ \E f \in Filters : ReadParts(x, a, f)
  \/ "both" \in Groups /\ \E x \in Backends, a \in ArtNames : \E P \in SUBSET Parts : WriteParts(x, a, P, "both")
  \/ "clone" \in Groups /\ \E x \in Backends, y \in Backends : Clone(x, y)

\* At most one snapshot per name and tag; nothing is both known and open.
Laws == \A x \in Backends :
          /\ \A y \in b[x].tags, z \in b[x].tags : (y[1] = z[1] /\ y[2] = z[2]) => y = z
          /\ b[x].known \cap b[x].open = {}
          /\ \A y \in b[x].known \cup b[x].open : y[1] \in b[x].seen
\* Only its own operations change a backend's records, and only a tag is ever replaced.
Isolated == [][\A x \in Backends : b'[x] = b[x] \/ \A y \in Backends \ {x} : b'[y] = b[y]]_vars
Keeps == [][("clone" \notin Groups) => \A x \in Backends :
              /\ b[x].links \subseteq b'[x].links /\ b[x].known \subseteq b'[x].known
              /\ b[x].graphs \subseteq b'[x].graphs /\ b[x].snaps \subseteq b'[x].snaps
              /\ \A n \in Names, t \in Tags : Tagged(x, n, t) # {} => \E y \in b'[x].tags : y[1] = n /\ y[2] = t]_vars

\* Parameters used
P1 == {[k |-> 1, ifp |-> 1, v |-> 1], [k |-> 1, ifp |-> 2, v |-> 1], [k |-> 2, ifp |-> 1, v |-> 1]}
P5 == P1 \cup {[k |-> 2, ifp |-> 2, v |-> 1]}
P2 == {[k |-> 1, ifp |-> 1, v |-> 1], [k |-> 1, ifp |-> 1, v |-> 2]}
P0 == {[k |-> 1, ifp |-> 0, v |-> 1], [k |-> 2, ifp |-> 0, v |-> 1], [k |-> 2, ifp |-> 0, v |-> 2]}
P3 == P1 \cup P2
P4 == P3 \cup P5 \cup P0
RawStorage == {[a |-> "q", s |-> "q"], [a |-> "q2", s |-> "q"]}
ThreeStorages == {[a |-> "a", s |-> "s"], [a |-> "a2", s |-> "s"], [a |-> "c", s |-> "r"], [a |-> "q", s |-> "q"]}
OneArtifact == {[a |-> "a", s |-> "s"]}
OneStorage == {[a |-> "a", s |-> "s"], [a |-> "a2", s |-> "s"]}
TwoStorages == {[a |-> "a", s |-> "s"], [a |-> "a2", s |-> "s"], [a |-> "c", s |-> "r"]}
F1 == {{}, {<<1, 1>>}, {<<1, 2>>}, {<<2, 1>>, <<1, 1>>}, {<<2, 2>>}, {<<3, 1>>}}
F2 == F1 \cup {{<<1, 1>>, <<2, 2>>}, {<<1, 2>>, <<2, 1>>}, {<<1, 2>>, <<2, 2>>}}
F0 == {{}}
\* For simulation: hardly ever a clone, one random operation
SimNext == /\ Cardinality(disk) >= 0
           /\ \E x \in {RandomElement(Backends)}, n \in {RandomElement(Names)}, m \in {RandomElement(Names)},
                 i \in {RandomElement(Ids)}, t \in {RandomElement(Tags)}, k \in {RandomElement(Keys)},
                 P \in {{p \in RandomElement(SUBSET Parts) : p.ifp # 0}}, Q \in {{p \in RandomElement(SUBSET Parts) : p.ifp = 0}}, p \in {RandomElement(Parts)}, a \in {RandomElement(ArtNames)}, v \in {RandomElement(1..2)},
                 f \in {RandomElement(Filters)}, o \in {RandomElement(1..24)}, s \in {RandomElement(Storages)} :
              LET g == IF StorageOf(a) = "q" THEN {} ELSE f IN
              CASE o = 1 -> WriteGraph(x, n, v) [] o = 2 -> ReadGraph(x, n, v, m) [] o = 3 -> WriteSnap(x, n, i)
                [] o = 4 -> ReadSnap(x, n, i, m) [] o \in {5, 6} -> Tag(x, n, t, i, v = 1)
                [] o \in {9, 10} -> LinkParts(x, n, i, k, P) [] o \in {11, 12, 13} -> ReadLinks(x, n, i, k)
                [] o \in {14, 15} /\ p.v = 1 /\ Fits(s, p) /\ <<s, p>> \notin disk -> Store(s, p)
                [] o = 16 /\ <<s, p>> \in disk -> Unstore(s, p)
                [] o \in {17, 18} -> WriteParts(x, a, IF StorageOf(a) = "q" THEN Q ELSE P, IF v = 1 THEN "parts" ELSE "both")
                [] o = 19 /\ (\E y \in Backends : x # y /\ b[x] # b[y]) -> (\E y \in Backends : Clone(x, y))
                [] o > 19 /\ CanRead(x, StorageOf(a), g) -> ReadParts(x, a, g)
                [] OTHER -> ReadTag(x, n, t)
=============================================================================

------------------------------ MODULE JTables -------------------------------
(* Events: "summary" - the summary table; "matrix" - a covariance or       *)
(* correlation table.                                                      *)
EXTENDS Tables, Text, Clause, TraceRun
Start(tr) == "none"
Step(s, e) == s

(* A printed cell c = [raw, k, bounds...] states the bounds of the chain.  *)
CellSays(c, bs) ==
  LET want == Shown(bs) single == Len(bs) = 1 IN
  IF want = <<>> THEN c.raw = ""
  ELSE /\ c.p.junk = "" /\ c.p.wrapped /\ c.p.label = "none" /\ Len(c.p.entries) = Len(want)
       /\ \A i \in DOMAIN want : Entry(c.p.entries[i], want[i], single)
Bounds(e, cell) == LET c == SelectSeq(e.in.bounds, LAMBDA b : b.chain = cell[1] /\ b.param = cell[2]) IN c[1].b

Summary(e) ==
  LET d == e.in.d  o == e.out  g == Grid(d)
      shape == o.ok /\ Len(o.rows) = Len(g) /\ \A r \in DOMAIN g : Len(o.rows[r]) = Len(g[r]) + 1
  IN <<Ob("table-given", o.ok),
       Cl("header", o.ok, o.header = Header(d)),
       Cl("rows-and-columns", o.ok, shape),
       Cl("row-names", shape, \A r \in DOMAIN g : o.rows[r][1].raw = First(d)[r]),
       Cl("as-many-cells-as-specified", o.ok, Len(o.header) = o.colspec /\ \A r \in DOMAIN o.rows : Len(o.rows[r]) = o.colspec),
       Cl("blank-exactly-where-lacking", shape, \A r \in DOMAIN g : \A k \in DOMAIN g[r] : 
            IF g[r][k] = <<>> THEN o.rows[r][k + 1].raw = e.in.blank ELSE e.in.blank = "" \/ o.rows[r][k + 1].raw # e.in.blank),
       Cl("cells-state-the-bounds", shape, \A r \in DOMAIN g : \A k \in DOMAIN g[r] :
            g[r][k] # <<>> => CellSays(o.rows[r][k + 1], Bounds(e, g[r][k]))),
       Cl("caption", o.ok, o.caption = e.in.caption),
       Cl("label", o.ok, o.label = e.in.label),
       Cl("lines", o.ok, o.hlines = IF e.in.hlines THEN 3 ELSE 0),
       Cl("file-is-the-text", o.ok, o.file = (IF e.in.filed THEN "same" ELSE "none"))>>

(* Printed to two decimals: within half a hundredth of the entry.          *)
TwoDecimals(t, v) == t.dec = 2 /\ v.k = "num" /\ QNear(t.v, v.v, "1e-12", "0.005000001")
Matrix(e) ==
  LET o == e.out  n == Len(e.in.params)
      shape == o.ok /\ Len(o.rows) = n /\ \A r \in 1..n : Len(o.rows[r].cells) = n
  IN <<Ob("table-given", o.ok),
       Cl("header", o.ok, o.header = <<"">> \o e.in.params),
       Cl("rows-and-columns", o.ok, shape),
       Cl("row-names", shape, \A r \in 1..n : o.rows[r].name = e.in.params[r]),
       Cl("as-many-cells-as-specified", shape, o.colspec = n + 1),
       Cl("entries-to-two-decimals", shape, \A r, k \in 1..n : TwoDecimals(o.rows[r].cells[k], e.in.matrix[r][k])),
       Cl("caption", o.ok, o.caption = e.in.caption),
       Cl("label", o.ok, o.label = e.in.label)>>
Clauses(s, e) == IF e.op = "summary" THEN Summary(e) ELSE Matrix(e)
=============================================================================

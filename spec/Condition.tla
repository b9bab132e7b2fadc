----------------------------- MODULE Condition -----------------------------
(***************************************************************************)
(* Width conditions: options, and optionally a lookup table that holds the *)
(* widths for the options at the time it was built.                        *)
(* A condition is [opt, tab]: the configuration its options say, and the   *)
(* configuration of its table, or NoTab.                                   *)
(* State: [cs, def, flags]: the conditions there are, which of them is the *)
(* default one, and the package-wide flags (which only matter for          *)
(* conditions made later).                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences
NoTab == [none |-> TRUE]
Conf(ea, strict) == [ea |-> ea, strict |-> strict]
Confs == {Conf(a, b) : a, b \in BOOLEAN}
Make(opt) == [opt |-> opt, tab |-> NoTab]
(* The configuration its widths follow. *)
Eff(c) == IF c.tab = NoTab THEN c.opt ELSE c.tab
Stale(c) == c.tab # NoTab /\ c.tab # c.opt

CStart(opt)         == [cs |-> <<Make(opt)>>, def |-> 1, flags |-> opt]
CNew(st, opt)       == [st EXCEPT !.cs = Append(@, Make(opt))]
CNewFlags(st)       == [st EXCEPT !.cs = Append(@, Make(st.flags))]
CSet(st, i, opt)    == [st EXCEPT !.cs[i].opt = opt]
CLut(st, i)         == [st EXCEPT !.cs[i].tab = st.cs[i].opt]
CCopy(st, i)        == [st EXCEPT !.cs = Append(@, st.cs[i])]
CAssign(st, i, j)   == [st EXCEPT !.cs[i] = st.cs[j]]
CFlags(st, opt)     == [st EXCEPT !.flags = opt]
(* Another condition becomes the default one. *)
CReplace(st, i)     == [st EXCEPT !.def = i]
(* The package-level function builds the default condition's table if it has none. *)
CPkgLut(st)         == IF st.cs[st.def].tab = NoTab THEN CLut(st, st.def) ELSE st
Default(st)         == st.cs[st.def]
=============================================================================

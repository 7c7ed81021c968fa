\* from m_refuse.qnt, digest da95b22db24476b7
-------------------------------- MODULE refuse5 --------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants
VARIABLE
    panels
VARIABLE
    causes
AREAS ==
  { "fine",
    "at the limit",
    "just below",
    "zero",
    "negative",
    "not a number",
    "infinite" }
FLOWS ==
  { "none",
    "at the limit",
    "at minus the limit",
    "just over",
    "just under minus",
    "big",
    "infinite",
    "minus infinite",
    "not a number" }
MOST == 5
plain(p_96) ==
  p_96["area"] = "fine"
    /\ p_96["flow"] = "none"
badArea(a_43) ==
  a_43 \in { "just below", "zero", "negative", "not a number" }
badFlow(f_57) ==
  f_57
    \in { "just over",
      "just under minus",
      "big",
      "infinite",
      "minus infinite",
      "not a number" }
init ==
  panels = <<>> /\ causes = {}
odd(l_113) ==
  Cardinality({
    k_110 \in
      (LET       __quint_var0 == DOMAIN l_113
      IN
      IF __quint_var0 = {}
      THEN {}
      ELSE (__quint_var0 \union {0}) \ {(Len(l_113))}):
      ~(plain(l_113[
        (k_110 + 1)
      ]))
  })
causesOf(p_80) ==
  (IF badArea(p_80["area"])
  THEN {"area"}
  ELSE {})
    \union (IF badFlow(p_80["flow"])
    THEN {"flow"}
    ELSE {})
q_init == init
step ==
  \E a \in AREAS:
    \E f \in FLOWS:
      LET       p ==
        [area |-> a, flow |-> f]
      IN
      LET       l ==
        Append(panels, (p))
      IN
      Len((l)) <= MOST
        /\ (Len((l)) <= 2
          \/ odd((l)) <= 1)
        /\ panels' := (l)
        /\ causes'
          := (causes
            \union causesOf((p)))
monotone ==
  \A k_176 \in LET   __quint_var1 == DOMAIN panels
  IN
  IF __quint_var1 = {}
  THEN {}
  ELSE (__quint_var1 \union {0}) \ {(Len(panels))}:
    causesOf(panels[
      (k_176 + 1)
    ])
      \subseteq causes
justified ==
  \A c_192 \in causes:
    \E k_190 \in LET     __quint_var2 == DOMAIN panels
    IN
    IF __quint_var2 = {}
    THEN {}
    ELSE (__quint_var2 \union {0}) \ {(Len(panels))}:
      c_192
        \in causesOf(panels[
          (k_190 + 1)
        ])
q_step == step
inv == monotone /\ justified
q_inv == inv
================================================================================

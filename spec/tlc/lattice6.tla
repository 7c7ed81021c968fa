\* from m_lattice.qnt, digest 2feeb3c8b5a2d73a
------------------------------- MODULE lattice6 -------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants
MOST == 6
VARIABLE
    sails
VARIABLE
    nc
VARIABLE
    ns
VARIABLE
    cur
VARIABLE
    cells
cellAt(c_485, nc_485) ==
  LET   v(i_423, j_423) ==
    [half |-> c_485["half"],
      sail |-> c_485["sail"],
      i |-> i_423,
      j |-> j_423]
  IN
  [se |->
      v((c_485["row"] + 1), c_485[
        "col"
      ]),
    sw |->
      v(c_485["row"], c_485[
        "col"
      ]),
    nw |->
      v(c_485["row"], (c_485[
        "col"
      ]
        + 1)),
    ne |->
      v((c_485["row"] + 1), (c_485[
        "col"
      ]
        + 1)),
    first |->
      nc_485 > 1 /\ c_485["row"] = 0,
    last |-> c_485["row"] = nc_485 - 1]
following(c_584, sails_584,
nc_584, ns_584) ==
  IF c_584["col"] + 1 < ns_584
  THEN [half |-> c_584["half"],
    sail |-> c_584["sail"],
    row |-> c_584["row"],
    col |-> c_584["col"] + 1]
  ELSE IF c_584["row"] + 1 < nc_584
  THEN [half |-> c_584["half"],
    sail |-> c_584["sail"],
    row |-> c_584["row"] + 1,
    col |-> 0]
  ELSE IF c_584["sail"] + 1 < sails_584
  THEN [half |-> c_584["half"],
    sail |-> c_584["sail"] + 1,
    row |-> 0,
    col |-> 0]
  ELSE [half |-> c_584["half"] + 1,
    sail |-> 0,
    row |-> 0,
    col |-> 0]
rim(a_204, b_204, m_204,
n_204) ==
  (a_204["i"] = b_204["i"]
      /\ (a_204["i"] = 0
        \/ a_204["i"] = m_204))
    \/ (a_204["j"] = b_204["j"]
      /\ (a_204["j"] = 0
        \/ a_204["j"] = n_204))
init ==
  (\E s \in 1 .. 2:
      \E a \in 1 .. MOST:
        \E b \in 1 .. MOST:
          sails = s
            /\ nc = a
            /\ ns = b
            /\ cur
              = [half |-> 0, sail |-> 0, row |-> 0, col |-> 0]
            /\ cells = <<>>)
step ==
  IF cur["half"] = 2
  THEN sails' := sails
    /\ nc' := nc
    /\ ns' := ns
    /\ cur' := cur
    /\ cells' := cells
  ELSE sails' := sails
    /\ nc' := nc
    /\ ns' := ns
    /\ cells'
      := (Append(cells, (cellAt(cur,
      nc))))
    /\ cur'
      := (following(cur, sails,
      nc, ns))
done == cur["half"] = 2
all_ ==
  {
    cells[(k_118 + 1)]:
      k_118 \in
        (LET         __quint_var0 == DOMAIN cells
        IN
        IF __quint_var0 = {}
        THEN {}
        ELSE (__quint_var0 \union {0}) \ {(Len(cells))})
  }
cellsOf(sails_641, nc_641,
ns_641) ==
  LET   __QUINT_LAMBDA1(s_637, k_637) ==
    [c |->
        following(s_637["c"], sails_641,
        nc_641, ns_641),
      l |->
        Append(s_637["l"], (cellAt(s_637[
          "c"
        ], nc_641)))]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, [c |->
      [half |-> 0, sail |-> 0, row |-> 0, col |-> 0],
    l |-> <<>>], (LET   __QUINT_LAMBDA0(__quint_var1) == (0 + __quint_var1) - 1
  IN
  MkSeq((((2 * sails_641) * nc_641)
    * ns_641
    - 0), __QUINT_LAMBDA0)))[
    "l"
  ]
q_init == init
q_step == step
sides ==
  UNION ({
    { <<c_152["se"], c_152["sw"]>>,
      <<c_152["sw"], c_152["nw"]>>,
      <<c_152["nw"], c_152["ne"]>>,
      <<c_152["ne"], c_152["se"]>> }:
      c_152 \in all_
  })
insideOneSail ==
  \A c_353 \in all_:
    \A v_351 \in { c_353["se"],
      c_353["sw"],
      c_353["nw"],
      c_353["ne"] }:
      v_351["half"] = c_353["se"]["half"]
        /\ v_351["sail"]
          = c_353["se"]["sail"]
        /\ 0 <= v_351["i"]
        /\ v_351["i"] <= nc
        /\ 0 <= v_351["j"]
        /\ v_351["j"] <= ns
closedForm ==
  cells
    = SubSeq((cellsOf(sails, nc,
    ns)), (0 + 1), (Len(cells)))
complete ==
  done
    => Len(cells)
        = ((2 * sails) * nc)
          * ns
      /\ Cardinality((all_)) = Len(cells)
      /\ Cardinality((sides))
        = 4 * Len(cells)
      /\ (\A s_250 \in sides:
        rim(s_250[1], s_250[
            2
          ], nc, ns)
          \/ <<s_250[2], s_250[1]>>
            \in sides)
      /\ Cardinality({
        c_257 \in all_:
          c_257["last"]
      })
        = (2 * sails) * ns
      /\ Cardinality({
        c_271 \in all_:
          c_271["first"]
      })
        = (IF nc > 1
        THEN (2 * sails) * ns
        ELSE 0)
noSideTwice ==
  Cardinality((sides)) = 4 * Len(cells)
inv ==
  ((complete /\ noSideTwice)
      /\ insideOneSail)
    /\ closedForm
q_inv == inv
================================================================================

\* from m_input.qnt, digest ef14e0f2ad80ad6c
-------------------------------- MODULE input2 --------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants
DECLARED ==
  { "jib", "main", "jib_and_main", "", "Jib", "main_and_jib", "none" }
ARRAYS ==
  { "girths",
    "chords",
    "centerline_twist_deg",
    "camber",
    "camber_distance_from_luff" }
whole == [absent |-> FALSE, missing |-> {}, longer |-> {}]
VARIABLE
    sails
VARIABLE
    jib
VARIABLE
    mainsail
VARIABLE
    common
VARIABLE
    spoilt
VARIABLE
    verdict
declared(d_82) ==
  IF d_82 = "jib"
  THEN <<"jib">>
  ELSE IF d_82 = "main"
  THEN <<"main_sail">>
  ELSE IF d_82 = "jib_and_main"
  THEN <<"jib", "main_sail">>
  ELSE <<>>
VARIABLE
    names
MOST == 2
DIMS ==
  [jib |-> { "foretriangle_base", "foretriangle_height", "jib_luff" },
    mainsail |-> {"main_sail_luff"}]
without(s_335, what_335) ==
  [
    s_335 EXCEPT
      !["missing"] =
        s_335["missing"] \union {what_335}
  ]
stretched(s_363, what_363) ==
  [
    s_363 EXCEPT
      !["longer"] =
        IF what_363 \in s_363["longer"]
        THEN s_363["longer"] \ {what_363}
        ELSE s_363["longer"] \union {what_363}
  ]
COMMON ==
  { "rake_deg", "sheer_above_waterline", "boom_above_sheer", "mast_LOA" }
uses(d_100, s_100) ==
  Len(LET   __QUINT_LAMBDA2(__quint_var0, __QUINT_LAMBDA1) ==
    IF LET     __QUINT_LAMBDA0(x_95) ==
      x_95 = s_100
    IN
    __QUINT_LAMBDA0(__QUINT_LAMBDA1)
    THEN Append(__quint_var0, __QUINT_LAMBDA1)
    ELSE __quint_var0
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA2, <<>>, (declared(d_100))))
    > 0
complete(s_127) ==
  (~(s_127["absent"]) /\ s_127["missing"] = {})
    /\ (s_127["longer"] = {}
      \/ s_127["longer"] = ARRAYS)
exact ==
  IF verdict = "accepted"
  THEN names = declared(sails)
    /\ names /= <<>>
  ELSE names = <<>>
needed(d_152) ==
  ({ "rake_deg", "sheer_above_waterline" }
    \union (IF uses(d_152, "jib")
    THEN {"mast_LOA"}
    ELSE {}))
    \union (IF uses(d_152, "main_sail")
    THEN {"boom_above_sheer"}
    ELSE {})
judge(d_195, j_195, m_195,
c_195) ==
  IF (declared(d_195) = <<>>
      \/ (uses(d_195, "jib")
        /\ ~(complete(j_195))))
    \/ (uses(d_195, "main_sail")
      /\ ~(complete(m_195)))
  THEN "refused"
  ELSE IF c_195
    \intersect needed(d_195)
    /= {}
  THEN "fails"
  ELSE "accepted"
init ==
  \E d \in DECLARED:
    \E lj \in { {}, (ARRAYS) }:
      \E lm \in { {}, (ARRAYS) }:
        LET         j ==
          [ (whole) EXCEPT !["longer"] = lj ]
        IN
        LET         m ==
          [ (whole) EXCEPT !["longer"] = lm ]
        IN
        sails = d
          /\ jib = j
          /\ mainsail = m
          /\ common = {}
          /\ spoilt = 0
          /\ verdict
            = judge(d, (j), (m),
            {})
          /\ names
            = (IF judge(d, (j), (m),
            {})
              = "accepted"
            THEN declared(d)
            ELSE <<>>)
settle(d_254, j_254, m_254,
c_254, n_254) ==
  sails' := d_254
    /\ jib' := j_254
    /\ mainsail' := m_254
    /\ common' := c_254
    /\ spoilt' := n_254
    /\ verdict'
      := (judge(d_254, j_254, m_254,
      c_254))
    /\ names'
      := (IF judge(d_254, j_254, m_254,
      c_254)
        = "accepted"
      THEN declared(d_254)
      ELSE <<>>)
unusedIgnored ==
  (uses(sails, "jib")
      \/ judge(sails, (whole), mainsail,
      common)
        = verdict)
    /\ (uses(sails, "main_sail")
      \/ judge(sails, jib, (whole),
      common)
        = verdict)
q_init == init
step ==
  spoilt < MOST
    /\ (settle(sails, [
        jib EXCEPT
          !["absent"] = TRUE
      ], mainsail, common, (spoilt
        + 1))
      \/ settle(sails, jib, [
        mainsail EXCEPT
          !["absent"] = TRUE
      ], common, (spoilt + 1))
      \/ (\E k \in (DIMS)["jib"]
        \union ARRAYS:
        settle(sails, (without(jib,
        k)), mainsail, common, (spoilt
          + 1)))
      \/ (\E k \in (DIMS)["mainsail"]
        \union ARRAYS:
        settle(sails, jib, (without(mainsail,
        k)), common, (spoilt + 1)))
      \/ (\E k \in ARRAYS:
        settle(sails, (stretched(jib,
        k)), mainsail, common, (spoilt
          + 1)))
      \/ (\E k \in ARRAYS:
        settle(sails, jib, (stretched(mainsail,
        k)), common, (spoilt + 1)))
      \/ (\E k \in COMMON:
        settle(sails, jib, mainsail,
        (common \union {k}), (spoilt
          + 1))))
inv == unusedIgnored /\ exact
q_step == step
q_inv == inv
================================================================================

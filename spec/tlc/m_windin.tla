\* from m_input.qnt, digest ef14e0f2ad80ad6c
------------------------------- MODULE m_windin -------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants
PROFILES ==
  { "exponential", "flat", "logarithmic", "exp", "Flat", "log", "none", "" }
PARAMS == { "wind_exp_coeff", "wind_reference_measurment_height", "roughness" }
VARIABLE
    profile
VARIABLE
    missing
VARIABLE
    zero
VARIABLE
    accepted
needs(p_568) ==
  IF p_568 = "exponential"
  THEN { "wind_exp_coeff", "wind_reference_measurment_height" }
  ELSE IF p_568 = "logarithmic"
  THEN { "roughness", "wind_reference_measurment_height" }
  ELSE {}
good(p_589, m_589) ==
  p_589 \in { "exponential", "flat", "logarithmic" }
    /\ m_589 \intersect needs(p_589) = {}
inv == accepted => missing \intersect needs(profile) = {}
init ==
  \E p \in PROFILES:
    \E z \in { TRUE, FALSE }:
      profile = p
        /\ missing = {}
        /\ zero = z
        /\ accepted = good(p, {})
step ==
  \E k \in PARAMS:
    LET  m == missing \union {k} IN
    profile' := profile
      /\ missing' := (m)
      /\ zero' := zero
      /\ accepted' := (good(profile, (m)))
q_inv == inv
q_init == init
q_step == step
================================================================================

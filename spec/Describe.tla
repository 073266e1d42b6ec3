------------------------------ MODULE Describe ------------------------------
(***************************************************************************)
(* Descriptions of heat exchangers and of simulation parameters (C33).     *)
(*                                                                         *)
(* The state is what is known about the thing described: par maps the name *)
(* of a figure to its values.  Figures change one at a time (a parameter   *)
(* is set, or a result is computed anew); describing writes the lines of   *)
(* the template of its kind, with the figures of that moment.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES kind, par, doc
dvars == <<kind, par, doc>>

\* a line: label, unit, figure, and whether it is rounded to four decimals
Ln(label, unit, src) == <<label, unit, src, TRUE>>
Ex(label, unit, src) == <<label, unit, src, FALSE>>
Title(name) == <<name, "", "nothing", FALSE>>

Material(name, k, rc, kx) ==
    <<Title(name),
      IF kx THEN Ex("Thermal conductivity", "W/m.K", k)
      ELSE Ln("Thermal conductivity", "W/m.K", k),
      Ln("Volumetric heat capacity", "J/K.m3", rc)>>
Ground == Material("Soil", "k_s", "rc_s", FALSE) \o
    <<Ln("Undisturbed ground temperature", "degrees Celsius", "ugt")>>
Filling == Material("Grout", "k_g", "rc_g", FALSE)
Pipes(x) == Material("Pipe", "k_p", "rc_p", x) \o
    <<Ex("Pipe Positions (Center of pipes)", "", "pos")>> \o
    (IF x THEN <<Ex("Pipe inner radii", "m", "r_in"), Ex("Pipe outer radii", "m", "r_out")>>
     ELSE <<Ln("Pipe inner radius", "m", "r_in"), Ln("Pipe outer radius", "m", "r_out")>>) \o
    <<Ln("Shank spacing (pipe to pipe)", "m", "s"), Ex("Pipe roughness", "m", "eps"),
      Ex("Number of pipes", "", "n_pipes")>>
Liquid == <<Title("Fluid"), Ex("cp", "", "cp"), Ex("k", "", "k_f"), Ex("mu", "", "mu"),
            Ex("rho", "", "rho")>>
Heading(name) == <<Title(name), Ln("Mass flow borehole", "kg/s", "m_borehole"),
                Ln("Mass flow pipe", "kg/s", "m_pipe"), Ex("Borehole", "", "borehole")>>
Resistance == <<Ln("Effective borehole resistance", "m.K/W", "R_b")>>
UTube(name) == Heading(name) \o Ground \o Filling \o Pipes(FALSE) \o Liquid \o
    <<Ln("Reynolds number", "", "Re"), Ln("Convection coefficient", "W/m2.K", "h"),
      Ln("Pipe resistance", "m.K/W", "R_p"), Ln("Fluid resistance", "m.K/W", "R_f")>>
    \o Resistance
Template(k) ==
    CASE k = "single" -> UTube("SingleUTube")
      [] k = "double" -> UTube("MultipleUTube") \o <<Ex("Config", "", "config")>>
      [] k = "coaxial" -> Heading("CoaxialPipe") \o Ground \o Filling \o Pipes(TRUE) \o Liquid \o
            <<Ln("Inner pipe resistance", "m.K/W", "R_p_in"),
              Ln("Outer pipe resistance", "m.K/W", "R_p_out"),
              Ln("Grout resistance", "m.K/W", "R_grout"),
              Ln("Reynolds annulus", "", "Re_annulus"),
              Ln("Inner annulus convection coef", "W/m2.K", "h_a_in"),
              Ln("Outer annulus convection coef", "W/m2.K", "h_a_out"),
              Ln("Inner annulus resistance", "m.K/W", "R_a_in"),
              Ln("Outer annulus resistance", "m.K/W", "R_a_out"),
              Ln("Reynolds inner", "", "Re"),
              Ln("Inner Convection coefficient", "W/m2.K", "h"),
              Ln("Fluid-to-fluid resistance", "m.K/W", "R_ff"),
              Ln("Fluid-to-pipe resistance", "m.K/W", "R_fp")>> \o Resistance
      [] k = "simulation" ->
            <<Title("SimulationParameters"), Ex("Start month", "months", "start"),
              Ex("End month", "months", "end"),
              Ex("Max EFT Allowable", "degrees Celsius", "max_EFT"),
              Ex("Min EFT Allowable", "degrees Celsius", "min_EFT"),
              Ex("Maximum height", "m", "max_H"), Ex("Minimum height", "m", "min_H")>>
Kinds == {"single", "double", "coaxial", "simulation"}
Figures(k) == {Template(k)[i][3] : i \in DOMAIN Template(k)} \ {"nothing"}

DInit(k, p) == kind = k /\ par = p /\ doc = <<>>
Change(p) == /\ par' = p /\ UNCHANGED <<kind, doc>>
Describe == /\ doc' = [i \in DOMAIN Template(kind) |->
                         LET l == Template(kind)[i] IN
                         [label |-> l[1], unit |-> l[2], rounded |-> l[4],
                          shown |-> IF l[3] = "nothing" THEN <<>> ELSE par[l[3]]]]
            /\ UNCHANGED <<kind, par>>

(* Pipes of n U-tubes: 2n centres on a circle round the middle of the      *)
(* borehole, half the shank spacing and a radius away from it, one after   *)
(* the other at equal angles; the legs of a U-tube are neighbours.         *)
\* twice the cosine of the angle between neighbours
TwiceCos(n) == CASE n = 1 -> -2 [] n = 2 -> 0 [] n = 3 -> 1
=============================================================================

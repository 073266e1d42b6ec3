SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2}
  Live = {"k_s", "k_p", "m_pipe", "R_b", "max_H", "borehole", "config", "Re", "start", "pos"}
INVARIANTS Once Complete
PROPERTIES Fresh Local
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Values = {0, 1}
  Live = {"k_s", "k_p", "m_pipe", "R_b", "max_H"}
INVARIANTS Once Complete
PROPERTIES Fresh Local
CHECK_DEADLOCK FALSE

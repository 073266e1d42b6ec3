SPECIFICATION Spec
CONSTANTS Caps = {0, 1, 4} Conds = {1, 2, 7} Size = {1, 2, 4} Steps = 5
INVARIANTS InBalance Outward Rises Conserves Bounded
CHECK_DEADLOCK FALSE

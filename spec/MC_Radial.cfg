SPECIFICATION Spec
CONSTANTS Caps = {1, 3} Conds = {1, 2} Size = {3, 4} Steps = 4
INVARIANTS InBalance Outward Rises Conserves Bounded
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Ests = {1, 2}
          Good = {"a", "b"}
          Configs = {0, 1, 2, 3}
INVARIANT Report
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Doms = {1, 2}
          Ptrs = {1, 2, 3, 4, 5}
INVARIANTS UniqueIds Inverse
PROPERTIES Compact Stable
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3, 4, 5, 6, 7, 8, 9}
          Extra = {0, 1, 3}
INVARIANTS Orthogonal RootOK Symmetric LeadingOnly
CHECK_DEADLOCK FALSE

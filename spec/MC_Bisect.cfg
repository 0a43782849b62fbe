SPECIFICATION Spec
CONSTANTS Mem = {m1, m2}
          V = 3
INVARIANTS FoundIsGood NoneIsBad ForbiddenIsBad

SPECIFICATION Spec
CONSTANTS Judge <- J
          M0 <- MInit

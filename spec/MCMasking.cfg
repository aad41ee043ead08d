SPECIFICATION NoStep
CONSTANT Q = 7

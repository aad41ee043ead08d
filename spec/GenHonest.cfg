SPECIFICATION NoStep

SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  Rich = FALSE
INVARIANTS TypeOK DescriptionsAreLossless NullabilityOK EquivalenceIsReflexive EquivalenceDiscriminates Emit
CHECK_DEADLOCK FALSE

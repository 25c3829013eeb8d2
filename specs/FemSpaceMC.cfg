SPECIFICATION SpSpec
INVARIANT BasisIndependent
INVARIANT CurlFreeAreGradients
PROPERTY NothingLost
VIEW View
CHECK_DEADLOCK FALSE

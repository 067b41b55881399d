SPECIFICATION Spec
CONSTANTS
  Source = "enum"
  Ops = {"pre", "prepair", "presingle", "const", "constpair", "feed"}
  MaxN = 2
INVARIANTS ElementLaw ShapeLaw ConstLaw FeedLaw Emit
CHECK_DEADLOCK FALSE

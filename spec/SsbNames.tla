------------------------------ MODULE SsbNames ------------------------------
(* opcode names with a meaning of their own *)
CtxOps == {"lives", "object", "performer"}
FlowEnd == {"Return", "End", "Hold", "JumpCommon", "Destroy"}
JumpOps == {"Jump", "Call", "Case", "CaseMenu", "CaseMenu2", "CaseScenario",
  "CaseValue", "CaseVariable", "Branch", "BranchBit", "BranchDebug",
  "BranchEdit", "BranchExecuteSub", "BranchPerformance", "BranchScenarioNow",
  "BranchScenarioNowAfter", "BranchScenarioNowBefore", "BranchScenarioAfter",
  "BranchScenarioBefore", "BranchSum", "BranchValue", "BranchVariable",
  "BranchVariation"}
\* operations only the converters know
InternalOps == {"ES_LABEL", "ES_JUMP", "ES_OR_MULTI_IF", "ES_CASES"}
=============================================================================

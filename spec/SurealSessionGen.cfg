SPECIFICATION GenSpec
CONSTANTS
  Depth = 10
  Models = {"MOS", "DMOS", "SR_MOS", "BR_SR_MOS", "ZS_SR_DMOS", "LIVE_DMOS", "SR_MOS_PCC", "P910", "MLE_CO", "PERSUBJECT", "LS"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE

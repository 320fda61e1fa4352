SPECIFICATION TSpec
CONSTANT Mods <- TMods
INVARIANT MachineInv
CHECK_DEADLOCK FALSE

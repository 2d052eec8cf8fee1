SPECIFICATION Spec
CONSTANTS
 N = 3
 L = 3
 MaxV = 1
 FailMods = {3}
 RefitKinds = {1}
INVARIANTS SplitKeepsAll OnlyRepresentatives TrainNonInterference WholeNonInterference ErrorNonInterference SettingsKept ClusterWide FailureContained

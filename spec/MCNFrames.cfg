CONSTANTS Obj = {0, 1}
          RigCams <- Rigs
          LikeCam <- Cams
          LikeRig <- Class
          MaxFrames = 3
          MaxTime = 1
          MaxSteps = 6
SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANTS CopyEqual Owned Separate Equivalence TimesOrdered
PROPERTY Local
CHECK_DEADLOCK FALSE

CONSTANTS Obj = {0, 1, 2}
          RigCams <- Rigs
          LikeCam <- Cams
          LikeRig <- RigClass
SPECIFICATION TraceSpec
INVARIANT Accepted
CHECK_DEADLOCK FALSE

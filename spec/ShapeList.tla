------------------------------ MODULE ShapeList ------------------------------
(* The shapes of all productions, and a contract around each *)
EXTENDS Shapes, Json, IOUtils

All == ShapesUpTo(atoi(IOEnv.SHAPEDEPTH))
ASSUME \A N \in DOMAIN All : \A w \in All[N] :
         PrintT("SHP " \o ToJson(<<N, w, Around[N]>>))

VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================

-------------------------------- MODULE PipelineMC --------------------------------
\* prints every call of the model of Pipeline as a plan for the driver
EXTENDS Pipeline, Json
Announce == Init /\ PrintT("PLAN " \o ToJson(cfg))
Stay == UNCHANGED vars
================================================================================

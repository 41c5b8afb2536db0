---------------------------- MODULE MC_PoolImpl ----------------------------
EXTENDS PoolImpl
MCPlan == [s \in Submitters |-> IF s = 1 THEN <<1, 2>> ELSE <<3>>]
MCPlanBig == [s \in Submitters |-> IF s = 1 THEN <<1, 2>> ELSE <<3, 4>>]
MCNested == [k \in Tasks |-> IF k = 1 THEN 5 ELSE IF k = 3 THEN 6 ELSE 0]
MCNeeds == [k \in Tasks |-> IF k = 2 THEN 3 ELSE 0]
=============================================================================

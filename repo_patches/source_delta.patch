From ac1553341ae31ef9257a4677253aa35bfe8baaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 01/33] fix: keep minimum waiting times above 32767 s from
 wrapping around

The minimum waiting time of a request is an int; storing it in a short made
large values negative (boarding before arriving at the stop, endless scans).
---
 connection_scan_algorithm/src/forward_calculation.cpp | 4 ++--
 connection_scan_algorithm/src/reverse_calculation.cpp | 8 ++++----
 include/connection.hpp                                | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index 2251bc8..5a5b4a2 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -18,7 +18,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    short connectionMinWaitingTimeSeconds {-1};
+    int   connectionMinWaitingTimeSeconds {-1};
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
@@ -209,7 +209,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    short connectionMinWaitingTimeSeconds {-1};
+    int   connectionMinWaitingTimeSeconds {-1};
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 8a1d20c..e99f5fb 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -19,8 +19,8 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    short connectionMinWaitingTimeSeconds {-1};
-    short journeyConnectionMinWaitingTimeSeconds {-1};
+    int  connectionMinWaitingTimeSeconds {-1};
+    int  journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
@@ -228,8 +228,8 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    short connectionMinWaitingTimeSeconds {-1};
-    short journeyConnectionMinWaitingTimeSeconds {-1};
+    int  connectionMinWaitingTimeSeconds {-1};
+    int  journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
diff --git a/include/connection.hpp b/include/connection.hpp
index 1c6adde..53fb85c 100644
--- a/include/connection.hpp
+++ b/include/connection.hpp
@@ -42,7 +42,7 @@ namespace TrRouting
     int getSequenceInTrip() const {return sequenceInTrip;}
     bool canTransferSameLine() const {return canTransferSameLineValue;}
     short getMinWaitingTime() const {return minWaitingTimeSeconds;}
-    short getMinWaitingTimeOrDefault(short defaultMinWaitingTime) const {
+    int getMinWaitingTimeOrDefault(int defaultMinWaitingTime) const {
       if (minWaitingTimeSeconds >= 0) {
         return minWaitingTimeSeconds;
       } else {
-- 
2.43.0


From f2095ab1a9ab117115571f38913a6f150f281a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 02/33] fix: keep legs and transfer walks consistent when
 optimizing a journey

The transfer of a journey step is the walk after it. Cutting superfluous lines
left the wrong transfer walk in place (or zeroed the one of the next
connection) and kept the legs between the two joined ones.
---
 .../src/optimize_journey.cpp                  | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/connection_scan_algorithm/src/optimize_journey.cpp b/connection_scan_algorithm/src/optimize_journey.cpp
index ff60bc9..f6ac8b0 100644
--- a/connection_scan_algorithm/src/optimize_journey.cpp
+++ b/connection_scan_algorithm/src/optimize_journey.cpp
@@ -209,15 +209,10 @@ namespace TrRouting
             else
             {
               usedOptimizationCases.push_back(1);
-              if (toJourneyStepIdx - fromJourneyStepIdx == 1)
-              {
-                journey.erase(journey.begin() + toJourneyStepIdx);
-              }
-              else if (toJourneyStepIdx - fromJourneyStepIdx > 1) // could not split correctly...
-              {
-                journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
-              }
+              // the walk after the unboarding is now the one that followed the last cut line:
+              journey[fromJourneyStepIdx].copyTransferTimeDistance(journey[toJourneyStepIdx]);
               journey[fromJourneyStepIdx].setFinalExitConnection(connection);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx + 1);
 
               break;
             }
@@ -246,7 +241,9 @@ namespace TrRouting
             {
               usedOptimizationCases.push_back(2);
               journey[toJourneyStepIdx].setFinalEnterConnection(connection);
-              journey[toJourneyStepIdx].setTransferTimeDistance(0,0);
+              // same stop transfer between both lines, without the lines in between:
+              journey[fromJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
               break;
             }
           }
@@ -275,7 +272,9 @@ namespace TrRouting
             {
               usedOptimizationCases.push_back(3);
               journey[fromJourneyStepIdx].setFinalExitConnection(connection);
-              journey[toJourneyStepIdx].setTransferTimeDistance(0,0);
+              // same stop transfer between both lines, without the lines in between:
+              journey[fromJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
               break;
             }
           }
@@ -321,6 +320,10 @@ namespace TrRouting
                 usedOptimizationCases.push_back(4);
                 journey[fromJourneyStepIdx].setFinalExitConnection(exitConnection.value());
                 journey[toJourneyStepIdx].setFinalEnterConnection(connection);
+                // same stop transfer between both lines, without the lines in between:
+                journey[fromJourneyStepIdx].setTransferTimeDistance(0,0);
+                journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
+                break;
               }
               else
               {
-- 
2.43.0


From 0dd33c59652f28bbb52c17a8e6064e3eb5d6ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 03/33] fix: apply the minimum waiting time in arrival
 accessibility answers

Connections inheriting the minimum waiting time of the request hold -1, so the
latest time to reach a stop was reported one second after the departure.
---
 connection_scan_algorithm/src/reverse_journey.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 218a32f..32ad0f6 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -322,9 +322,8 @@ namespace TrRouting
       }
 
       if (reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().has_value()) {
-        //TODO Should check taht MinWaiting is not -1 or use OrDefault(0)
         //TODO Could move this operation into a function of class Connection
-        int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTime();
+        int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
         if (arrivalTimeSeconds - departureTimeD <=  parameters.getMaxTotalTravelTimeSeconds()) {
           reachableNodesCount++;
 
-- 
2.43.0


From 8baa2dd2cd5ad31bfc7e3e6464584bd3c3925e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 04/33] fix: start the total transfer walking distance at 0

It started at -1, so every reported transferWalkingDistance was one meter short.
---
 connection_scan_algorithm/src/reverse_journey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 32ad0f6..86bb2d9 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -31,7 +31,7 @@ namespace TrRouting
     int totalTransferWaitingTime { 0}; int inVehicleTime          {-1};
     int totalDistance            { 0}; int distance               {-1};
     int inVehicleDistance        {-1}; int totalInVehicleDistance { 0}; int totalWalkingDistance { 0};
-    int totalTransferDistance    {-1}; int accessDistance         { 0}; int egressDistance       { 0};
+    int totalTransferDistance    { 0}; int accessDistance         { 0}; int egressDistance       { 0};
     int accessWalkingTime      {-1};
     int transferTime             {-1}; int egressWalkingTime      {-1};
     int waitingTime              {-1}; int accessWaitingTime      {-1};
-- 
2.43.0


From 164c82151c870f970a1b4332be70e05044c2dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 05/33] fix: keep the latest boarding at each stop in the
 reverse calculation

The boarding kept so far was compared without its own minimum waiting time: a
boarding later by less than the minimum waiting time did not replace it.
---
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index e99f5fb..47b969e 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -149,7 +149,7 @@ namespace TrRouting
                      //TODO Really not sure this is equivalent
                      reverseAccessJourneysSteps.count(transferableNode.node.uid) == 0
                      || 
-                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() <= connectionDepartureTime - connectionMinWaitingTimeSeconds
+                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds()) <= connectionDepartureTime - connectionMinWaitingTimeSeconds
                     )
                   )
                   {                    
@@ -346,7 +346,7 @@ namespace TrRouting
                      //TODO Really not sure this is equivalent
                      reverseAccessJourneysSteps.count(transferableNode.node.uid) == 0
                      ||
-                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() <= connectionDepartureTime - connectionMinWaitingTimeSeconds
+                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds()) <= connectionDepartureTime - connectionMinWaitingTimeSeconds
                     )
                   )
                   {
-- 
2.43.0


From aef8c2c499b28d11e3d1592bb88d42f9d1faae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 06/33] fix: count the time on transferable lines once in the
 route totals

Rides on transferable lines were added to both the in-vehicle and the walking
totals (to the latter only when the path distances are known), so the parts
did not add up to the total travel time. As for their distance, they are walks.
---
 connection_scan_algorithm/src/reverse_journey.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 86bb2d9..d7bddb0 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -106,12 +106,17 @@ namespace TrRouting
                   transferReadyTime += journey[i+1].getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
                 }
 
-              totalInVehicleTime         += inVehicleTime;
               totalWaitingTime           += waitingTime;
               if (!journeyStepTrip.line.mode.isTransferable())
                 {
+                  totalInVehicleTime       += inVehicleTime;
                   numberOfTransfers += 1;
                 }
+              else // transferable lines are walks
+                {
+                  totalWalkingTime         += inVehicleTime;
+                  totalTransferWalkingTime += inVehicleTime;
+                }
 
               legs.push_back(std::make_tuple(std::ref(journeyStepTrip), boardingSequence - 1, unboardingSequence - 1));
 
@@ -125,9 +130,7 @@ namespace TrRouting
                   if (journeyStepTrip.line.mode.isTransferable())
                     {
                       totalWalkingDistance     += inVehicleDistance;
-                      totalWalkingTime         += inVehicleTime;
                       totalTransferDistance    += inVehicleDistance;
-                      totalTransferWalkingTime += inVehicleTime;
                     }
                   else
                     {
-- 
2.43.0


From be619952c8164a518ac9992fe9d186b0eb58c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 07/33] fix: do not stop the reverse calculation before lines
 with shorter waiting

The scan stopped at the departure of the first access boarding found, without
its minimum waiting time; boarding a transferable line (no minimum waiting time)
a bit earlier can still be the latest departure.
---
 connection_scan_algorithm/src/reverse_calculation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 47b969e..6b27a46 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -117,7 +117,7 @@ namespace TrRouting
               if (!reachedAtLeastOneAccessNode &&  nodeDepartureInNodesAccessIte != nodesAccess.end() &&  nodeDepartureInNodesAccessIte->second.time != -1) // check if the departure node is accessable
               {
                 reachedAtLeastOneAccessNode      = true;
-                tentativeAccessNodeDepartureTime = connectionDepartureTime;
+                tentativeAccessNodeDepartureTime = connectionDepartureTime - connectionMinWaitingTimeSeconds; // another line may need a shorter minimum waiting time
 
               }
               footpathIndex = 0;
-- 
2.43.0


From 8145ee7e11f2db712a3a9b6d2d9e292fa85f38ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:39 +0000
Subject: [PATCH 08/33] fix: apply a first waiting limit shorter than the
 minimum waiting time

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 6b27a46..16a6744 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -163,7 +163,7 @@ namespace TrRouting
                       if (
                         departureTimeSeconds == -1
                         ||
-                        parameters.getMaxFirstWaitingTimeSeconds() < connectionMinWaitingTimeSeconds
+                        parameters.getMaxFirstWaitingTimeSeconds() <= 0 // no limit
                         ||
                         connectionDepartureTime - departureTimeSeconds - nodeDepartureInNodesAccessIte->second.time <= parameters.getMaxFirstWaitingTimeSeconds()
                       )
@@ -360,7 +360,7 @@ namespace TrRouting
                       if (
                         departureTimeSeconds == -1
                         ||
-                        parameters.getMaxFirstWaitingTimeSeconds() < connectionMinWaitingTimeSeconds
+                        parameters.getMaxFirstWaitingTimeSeconds() <= 0 // no limit
                         ||
                         connectionDepartureTime - departureTimeSeconds - nodeDepartureInNodesAccessIte->second.time <= parameters.getMaxFirstWaitingTimeSeconds()
                       )
-- 
2.43.0


From ff7fffd76e77d318e8d3284ba8fa2ecf8515dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 09/33] fix: do not let zero-length rides form a cycle in the
 reverse calculation

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 16a6744..f560845 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -135,7 +135,7 @@ namespace TrRouting
 
                 if (footpathTravelTime <= parameters.getMaxTransferWalkingTravelTimeSeconds())
                 {                  
-                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds >= nodesReverseTentativeTime.at(transferableNode.node.uid))
+                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds > nodesReverseTentativeTime.at(transferableNode.node.uid))
                   {
                     footpathDistance = nodeDeparture.reverseTransferableNodes.at(footpathIndex).distance;
                     nodesReverseTentativeTime[transferableNode.node.uid] = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
@@ -332,7 +332,7 @@ namespace TrRouting
 
                 if (footpathTravelTime <= parameters.getMaxTransferWalkingTravelTimeSeconds())
                 {
-                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds >= nodesReverseTentativeTime.at(transferableNode.node.uid))
+                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds > nodesReverseTentativeTime.at(transferableNode.node.uid))
                   {
                     footpathDistance = nodeDeparture.reverseTransferableNodes.at(footpathIndex).distance;
                     nodesReverseTentativeTime[transferableNode.node.uid] = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
-- 
2.43.0


From ca969f02b5bbf146d0b4f5c28e88763455787fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:39 +0000
Subject: [PATCH 10/33] fix: do not count vehicles that cannot be boarded or
 alighted as a service

---
 connection_scan_algorithm/src/forward_calculation.cpp | 10 ++++++++--
 connection_scan_algorithm/src/reverse_calculation.cpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index 5a5b4a2..caf9f26 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -155,7 +155,10 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            if (currentTripQueryOverlay.enterConnection.has_value()) // passing by a stop without being able to board is not a service
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
@@ -331,7 +334,10 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            if (currentTripQueryOverlay.enterConnection.has_value()) // passing by a stop without being able to board is not a service
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index f560845..dc5d075 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -176,7 +176,10 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            if (currentTripQueryOverlay.exitConnection.has_value()) // passing by a stop without being able to alight is not a service
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
@@ -373,7 +376,10 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            if (currentTripQueryOverlay.exitConnection.has_value()) // passing by a stop without being able to alight is not a service
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
-- 
2.43.0


From 1264a3d6e47460222f63963ea6a8f16ad3df64ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 11/33] fix: do not apply the first waiting limit to travellers
 already aboard

---
 .../src/forward_calculation.cpp               | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index caf9f26..f4794ea 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -76,16 +76,16 @@ namespace TrRouting
 
           // reachable connections only here:
           if (
+            tripEnterConnection.has_value() // already aboard: the limits on boarding do not apply
+            ||
             (
-             tripEnterConnection.has_value()
-              || 
               nodeDepartureTentativeTime <= connectionDepartureTime - connectionMinWaitingTimeSeconds
-            )
-            &&
-            (
-              !nodeWasAccessedFromOrigin
-              ||
-              connectionDepartureTime - nodeDepartureTentativeTime <= parameters.getMaxFirstWaitingTimeSeconds()
+              &&
+              (
+                !nodeWasAccessedFromOrigin
+                ||
+                connectionDepartureTime - nodeDepartureTentativeTime <= parameters.getMaxFirstWaitingTimeSeconds()
+              )
             )
           )
           {
@@ -262,16 +262,16 @@ namespace TrRouting
 
           // reachable connections only here:
           if (
+            tripEnterConnection.has_value() // already aboard: the limits on boarding do not apply
+            ||
             (
-             tripEnterConnection.has_value()
-              ||
               nodeDepartureTentativeTime <= connectionDepartureTime - connectionMinWaitingTimeSeconds
-            )
-            &&
-            (
-              !nodeWasAccessedFromOrigin
-              ||
-              connectionDepartureTime - nodeDepartureTentativeTime <= parameters.getMaxFirstWaitingTimeSeconds()
+              &&
+              (
+                !nodeWasAccessedFromOrigin
+                ||
+                connectionDepartureTime - nodeDepartureTentativeTime <= parameters.getMaxFirstWaitingTimeSeconds()
+              )
             )
           )
           {
-- 
2.43.0


From 051c20ee05e0eddc24703bfedd3ecd1a83d6d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:37 +0000
Subject: [PATCH 12/33] fix: let travellers under way board after the first
 waiting limit at accessible stops

---
 .../src/forward_calculation.cpp                      | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index f4794ea..274f94c 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -28,6 +28,9 @@ namespace TrRouting
     bool  reachedAtLeastOneEgressNode     {false};
     bool  nodeWasAccessedFromOrigin       {false};
     int   bestArrivalTime                 {MAX_INT};
+    // with a first waiting limit, also keep the arrival times by vehicle: travellers already under way may wait longer at stops that can be accessed directly
+    const bool limitFirstWaiting          {parameters.getMaxFirstWaitingTimeSeconds() > 0};
+    std::vector<int> nodesTentativeTimeByVehicle(limitFirstWaiting ? nodesTentativeTime.size() : 0, MAX_INT);
     
     int  connectionsCount  = connectionSet.get()->getForwardConnections().size();
     int  departureTimeHour = departureTimeSeconds / 3600;
@@ -85,6 +88,8 @@ namespace TrRouting
                 !nodeWasAccessedFromOrigin
                 ||
                 connectionDepartureTime - nodeDepartureTentativeTime <= parameters.getMaxFirstWaitingTimeSeconds()
+                ||
+                nodesTentativeTimeByVehicle.at(nodeDeparture.uid) <= connectionDepartureTime - connectionMinWaitingTimeSeconds
               )
             )
           )
@@ -117,7 +122,8 @@ namespace TrRouting
                 int currentTransferablenNodesTentativeTime = nodesTentativeTime.at(transferableNode.node.uid);
 
                 if (nodeArrival != transferableNode.node &&
-                    currentTransferablenNodesTentativeTime < connectionArrivalTime)
+                    currentTransferablenNodesTentativeTime < connectionArrivalTime &&
+                    (!limitFirstWaiting || nodesTentativeTimeByVehicle.at(transferableNode.node.uid) < connectionArrivalTime))
                 {
                   footpathIndex++;
                   continue;
@@ -128,6 +134,10 @@ namespace TrRouting
 
                 if (footpathTravelTime <= parameters.getMaxTransferWalkingTravelTimeSeconds())
                 {
+                  if (limitFirstWaiting && footpathTravelTime + connectionArrivalTime < nodesTentativeTimeByVehicle.at(transferableNode.node.uid))
+                  {
+                    nodesTentativeTimeByVehicle[transferableNode.node.uid] = footpathTravelTime + connectionArrivalTime;
+                  }
                   if (footpathTravelTime + connectionArrivalTime < currentTransferablenNodesTentativeTime)
                   {
                     footpathDistance = nodeArrival.transferableNodes[footpathIndex].distance;
-- 
2.43.0


From a59f2f08c272706fc24f4f4a910d0f62fca2861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:37 +0000
Subject: [PATCH 13/33] fix: do not stop the reverse calculation on a boarding
 that is not allowed

---
 .../src/reverse_calculation.cpp                     | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index dc5d075..6a2fbb4 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -114,12 +114,6 @@ namespace TrRouting
               connectionMinWaitingTimeSeconds = (*connection).get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
 
               auto nodeDepartureInNodesAccessIte = nodesAccess.find(nodeDeparture.uid);
-              if (!reachedAtLeastOneAccessNode &&  nodeDepartureInNodesAccessIte != nodesAccess.end() &&  nodeDepartureInNodesAccessIte->second.time != -1) // check if the departure node is accessable
-              {
-                reachedAtLeastOneAccessNode      = true;
-                tentativeAccessNodeDepartureTime = connectionDepartureTime - connectionMinWaitingTimeSeconds; // another line may need a shorter minimum waiting time
-
-              }
               footpathIndex = 0;
               for (const NodeTimeDistance & transferableNode : nodeDeparture.reverseTransferableNodes)
               {
@@ -169,6 +163,13 @@ namespace TrRouting
                       )
                       {
                         reverseAccessJourneysSteps.insert_or_assign(transferableNode.node.uid, JourneyStep(*connection, currentTripQueryOverlay.exitConnection, std::cref(trip), 0, true, 0));
+
+                        // boardings that are not allowed (too late or waiting too long) do not count, earlier ones may be needed
+                        if (!reachedAtLeastOneAccessNode &&  nodeDepartureInNodesAccessIte != nodesAccess.end() &&  nodeDepartureInNodesAccessIte->second.time != -1) // check if the departure node is accessable
+                        {
+                          reachedAtLeastOneAccessNode      = true;
+                          tentativeAccessNodeDepartureTime = connectionDepartureTime - connectionMinWaitingTimeSeconds; // another line may need a shorter minimum waiting time
+                        }
                       }
                     }
                   }
-- 
2.43.0


From 610b6759cb122d16914d4fadd21fbfb76b1d7527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 14/33] fix: forget the connection sets of scenarios when the
 data are refreshed

---
 include/connection_cache.hpp |  4 ++++
 src/connection_cache.cpp     | 11 +++++++++++
 src/transit_data.cpp         | 19 +++++++++++++------
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/connection_cache.hpp b/include/connection_cache.hpp
index 5ed4e2d..a432b9a 100644
--- a/include/connection_cache.hpp
+++ b/include/connection_cache.hpp
@@ -28,6 +28,8 @@ class ScenarioConnectionCache {
     
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const = 0;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache) = 0;
+    // Forget all connection sets, the data they refer to is about to change
+    virtual void clear() = 0;
 };
 
 /**
@@ -45,6 +47,7 @@ class ScenarioConnectionCacheOne : public ScenarioConnectionCache {
 
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache);
+    virtual void clear();
 
   private:
   mutable std::shared_mutex mutex; //Reader/Writer locking
@@ -68,6 +71,7 @@ class ScenarioConnectionCacheAll : public ScenarioConnectionCache {
 
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache);
+    virtual void clear();
 
   private:
     mutable std::shared_mutex mutex; //Reader/Writer locking
diff --git a/src/connection_cache.cpp b/src/connection_cache.cpp
index 87c9959..02f0882 100644
--- a/src/connection_cache.cpp
+++ b/src/connection_cache.cpp
@@ -22,6 +22,12 @@ namespace TrRouting {
     lastConnection = cache;
   }
 
+  void ScenarioConnectionCacheOne::clear() {
+    std::unique_lock lock(mutex); //Exclusive lock when writing
+    lastUuid.reset();
+    lastConnection.reset();
+  }
+
   // ScenarioConnectionCacheAll
   std::optional<std::shared_ptr<ConnectionSet>> ScenarioConnectionCacheAll::get(boost::uuids::uuid uuid) const {
     std::shared_lock lock(mutex); //Sharing lock when reading
@@ -39,4 +45,9 @@ namespace TrRouting {
     std::unique_lock lock(mutex); //Exclusive lock when writing
     connectionSets[uuid] = cache;
   }
+
+  void ScenarioConnectionCacheAll::clear() {
+    std::unique_lock lock(mutex); //Exclusive lock when writing
+    connectionSets.clear();
+  }
 }
diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index 587bc16..a8017d4 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -23,12 +23,6 @@ namespace TrRouting {
   TransitData::TransitData(DataFetcher& fetcher, bool cacheAllScenarios) :
     dataFetcher(fetcher)
   {
-    DataStatus loadStatus = loadAllData();
-    if (loadStatus != DataStatus::READY) {
-      //TODO For now, don't throw on error because Transit server expect to get the dataStatus
-      //throw std::exception("Incomplete transit data");
-      spdlog::error("TransitData loading had error, object will not be valid");
-    }
     if (cacheAllScenarios) {
       scenarioConnectionCache = new ScenarioConnectionCacheAll();
       spdlog::info("Will cache all connectionSets");
@@ -36,6 +30,12 @@ namespace TrRouting {
       scenarioConnectionCache = new ScenarioConnectionCacheOne();
       spdlog::info("Will cache one connectionSet");
     }
+    DataStatus loadStatus = loadAllData();
+    if (loadStatus != DataStatus::READY) {
+      //TODO For now, don't throw on error because Transit server expect to get the dataStatus
+      //throw std::exception("Incomplete transit data");
+      spdlog::error("TransitData loading had error, object will not be valid");
+    }
   }
 
   TransitData::~TransitData() {
@@ -77,6 +77,7 @@ namespace TrRouting {
 
   int TransitData::updateNodes(std::string customPath)
   {
+    scenarioConnectionCache->clear();
     return dataFetcher.getNodes(nodes, customPath);
   }
 
@@ -107,31 +108,37 @@ namespace TrRouting {
   */ 
   int TransitData::updateAgencies(std::string customPath)
   {
+    scenarioConnectionCache->clear();
     return dataFetcher.getAgencies(agencies, customPath);
   }
 
   int TransitData::updateServices(std::string customPath)
   {
+    scenarioConnectionCache->clear();
     return dataFetcher.getServices(services, customPath);
   }
 
   int TransitData::updateLines(std::string customPath)
   {
+    scenarioConnectionCache->clear();
     return dataFetcher.getLines(lines, getAgencies(), getModes(), customPath);
   }
 
   int TransitData::updatePaths(std::string customPath)
   {
+    scenarioConnectionCache->clear();
     return dataFetcher.getPaths(paths, getLines(), getNodes(), customPath);
   }
 
   int TransitData::updateScenarios(std::string customPath)
   {
+    scenarioConnectionCache->clear();
     return dataFetcher.getScenarios(scenarios, getServices(), getLines(), getAgencies(), getNodes(), getModes(), customPath);
   }
 
   int TransitData::updateSchedules(std::string customPath)
   {
+    scenarioConnectionCache->clear();
     int ret =  dataFetcher.getSchedules(
       trips,
       getLines(),
-- 
2.43.0


From e6a844f6777c8a82e48777d0093649784271e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:01 +0000
Subject: [PATCH 15/33] fix: ignore trips that do not fit the other cache files
 instead of crashing

---
 src/trips_and_connections_cache_fetcher.cpp | 44 +++++++++++++++++----
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/trips_and_connections_cache_fetcher.cpp b/src/trips_and_connections_cache_fetcher.cpp
index b1dfb94..9ce108e 100644
--- a/src/trips_and_connections_cache_fetcher.cpp
+++ b/src/trips_and_connections_cache_fetcher.cpp
@@ -63,7 +63,13 @@ namespace TrRouting
         for (const auto & schedule : schedules)
         {
           std::string serviceUuidStr = schedule.getServiceUuid();
-          auto & service  = services.at(uuidGenerator(serviceUuidStr));
+          auto serviceIter = services.find(uuidGenerator(serviceUuidStr));
+          if (serviceIter == services.end())
+          {
+            spdlog::error("Unknown service {} in line cache file {}, schedule ignored", serviceUuidStr, cacheFilePath);
+            continue;
+          }
+          const Service & service = serviceIter->second;
 
           const auto periods {schedule.getPeriods()};
           for (const auto & period : periods)
@@ -75,8 +81,31 @@ namespace TrRouting
               pathUuidStr  = capnpTrip.getPathUuid();
               tripUuid     = uuidGenerator(tripUuidStr);
               pathUuid     = uuidGenerator(pathUuidStr);
-              Path &path = paths.at(pathUuid);
-              
+              auto pathIter = paths.find(pathUuid);
+              if (pathIter == paths.end())
+              {
+                spdlog::error("Unknown path {} in line cache file {}, trip {} ignored", pathUuidStr, cacheFilePath, tripUuidStr);
+                continue;
+              }
+              Path &path = pathIter->second;
+
+              nodeTimesCount             = capnpTrip.getNodeArrivalTimesSeconds().size();
+              auto arrivalTimesSeconds   = capnpTrip.getNodeArrivalTimesSeconds();
+              auto departureTimesSeconds = capnpTrip.getNodeDepartureTimesSeconds();
+              auto canBoards             = capnpTrip.getNodesCanBoard();
+              auto canUnboards           = capnpTrip.getNodesCanUnboard();
+              if (nodeTimesCount < 1 || nodeTimesCount > path.nodesRef.size() || departureTimesSeconds.size() + 1 < nodeTimesCount
+                  || canBoards.size() + 1 < nodeTimesCount || canUnboards.size() < nodeTimesCount)
+              {
+                spdlog::error("Times and stops of trip {} do not match in line cache file {}, trip ignored", tripUuidStr, cacheFilePath);
+                continue;
+              }
+
+              if (trips.count(tripUuid) > 0)
+              {
+                spdlog::error("Duplicate trip {} in line cache file {}, trip ignored", tripUuidStr, cacheFilePath);
+                continue;
+              }
               trips.emplace(tripUuid, Trip(tripUuid,
                                            line.agency,
                                            line,
@@ -92,11 +121,6 @@ namespace TrRouting
               // TODO This should probably be done in the Trip constructor (setting the back reference)
               path.tripsRef.push_back(trip);
 
-              nodeTimesCount             = capnpTrip.getNodeArrivalTimesSeconds().size();
-              auto arrivalTimesSeconds   = capnpTrip.getNodeArrivalTimesSeconds();
-              auto departureTimesSeconds = capnpTrip.getNodeDepartureTimesSeconds();
-              auto canBoards             = capnpTrip.getNodesCanBoard();
-              auto canUnboards           = capnpTrip.getNodesCanUnboard();
               trip.connectionDepartureTimes.resize(nodeTimesCount);
               // nodeTimesCount - 1, since we process node pairs, we have to stop and the second from last
               for (unsigned long nodeTimeI = 0; nodeTimeI < nodeTimesCount - 1; nodeTimeI++)
@@ -131,6 +155,10 @@ namespace TrRouting
         // TODO Do something about faulty cache files?
         spdlog::error("-- Error reading line cache file -- {}: {}", cacheFilePath, e.getDescription().cStr());
       }
+      catch (const std::exception& e)
+      {
+        spdlog::error("-- Error reading line cache file -- {}: {}", cacheFilePath, e.what());
+      }
 
       close(fd);
     }
-- 
2.43.0


From af4b1ddc17f68b9087723b6d6dee821ed5178a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:10 +0000
Subject: [PATCH 16/33] fix: keep loading the nodes when one node cache file is
 faulty

---
 src/nodes_cache_fetcher.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/nodes_cache_fetcher.cpp b/src/nodes_cache_fetcher.cpp
index a5cd220..3fbba5d 100644
--- a/src/nodes_cache_fetcher.cpp
+++ b/src/nodes_cache_fetcher.cpp
@@ -102,6 +102,9 @@ namespace TrRouting
     long long       calculationTime;
     calculationTime = algorithmCalculationTime.getDurationMicrosecondsNoStop();*/
 
+    // A faulty node file leaves that node without transfers, the other nodes are still read
+    int ret = 0;
+
     //std::vector<int>::iterator nodeIndex;
     // find reverse transferable nodes:
     for (auto nodeIter = ts.begin(); nodeIter != ts.end(); nodeIter++)
@@ -127,8 +130,15 @@ namespace TrRouting
         cNode::Reader capnpT = capnpTMessage.getRoot<cNode>();
         const unsigned int transferableNodesCount {capnpT.getTransferableNodesUuids().size()};
 
+        if (capnpT.getTransferableNodesTravelTimes().size() < transferableNodesCount || capnpT.getTransferableNodesDistances().size() < transferableNodesCount)
+        {
+          spdlog::error("Transferable nodes, travel times and distances do not match in file {}", nodeCacheFileNamePath);
+          ret = -EINVAL;
+          close(fd);
+          continue;
+        }
+
         std::vector<NodeTimeDistance> transferableNodes;
-        std::vector<NodeTimeDistance> reverseTransferableNodes;
 
         for (unsigned int j = 0; j < transferableNodesCount; j++)
         {
@@ -148,11 +158,13 @@ namespace TrRouting
           transferableNodes.push_back(NodeTimeDistance(ts.at(nodeUuid),
                                                        travelTime,
                                                        distance));
-
-          // Fill in reverse transfer information
-          ts.at(nodeUuid).reverseTransferableNodes.push_back(NodeTimeDistance(t,
-                                                                              travelTime,
-                                                                              distance));
+        }
+        // Fill in reverse transfer information
+        for (auto & transferableNode : transferableNodes)
+        {
+          ts.at(transferableNode.node.uuid).reverseTransferableNodes.push_back(NodeTimeDistance(t,
+                                                                                                transferableNode.time,
+                                                                                                transferableNode.distance));
         }
         // Save transferable nodes in object
         t.transferableNodes.clear();
@@ -165,8 +177,12 @@ namespace TrRouting
       catch (const kj::Exception& e)
       {
         spdlog::error("-- Error reading node cache file -- {}: {}", nodeCacheFileNamePath, e.getDescription().cStr());
-        close(fd);
-        return -EBADMSG;
+        ret = -EBADMSG;
+      }
+      catch (const std::exception& e)
+      {
+        spdlog::error("-- Error reading node cache file -- {}: {}", nodeCacheFileNamePath, e.what());
+        ret = -EINVAL;
       }
       close(fd);
     }
@@ -226,7 +242,7 @@ namespace TrRouting
 
       }
   
-      return 0;
+      return ret;
     }
     catch (const std::exception& ex)
     {
-- 
2.43.0


From 274da8f2c9795b9e28ecc7b7a073ae3a9f99d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:48 +0000
Subject: [PATCH 17/33] fix: ignore od trips whose node lists do not match

---
 src/od_trips_cache_fetcher.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/od_trips_cache_fetcher.cpp b/src/od_trips_cache_fetcher.cpp
index e907b24..92cc621 100644
--- a/src/od_trips_cache_fetcher.cpp
+++ b/src/od_trips_cache_fetcher.cpp
@@ -152,6 +152,11 @@ namespace TrRouting
             destination->longitude    = ((double)capnpT.getDestinationLongitude()) / 1000000.0;
 
             const unsigned int originNodesCount {capnpT.getOriginNodesUuids().size()};
+            if (capnpT.getOriginNodesTravelTimes().size() < originNodesCount || capnpT.getOriginNodesDistances().size() < originNodesCount)
+            {
+              spdlog::error("Origin nodes, travel times and distances of od trip {} do not match in {}, od trip ignored", uuid, filePath);
+              continue;
+            }
             std::vector<NodeTimeDistance> originNodes;
             for (unsigned int j = 0; j < originNodesCount; j++)
             {
@@ -162,6 +167,11 @@ namespace TrRouting
             }
 
             const unsigned int destinationNodesCount {capnpT.getDestinationNodesUuids().size()};
+            if (capnpT.getDestinationNodesTravelTimes().size() < destinationNodesCount || capnpT.getDestinationNodesDistances().size() < destinationNodesCount)
+            {
+              spdlog::error("Destination nodes, travel times and distances of od trip {} do not match in {}, od trip ignored", uuid, filePath);
+              continue;
+            }
             std::vector<NodeTimeDistance> destinationNodes;
             for (unsigned int j = 0; j < destinationNodesCount; j++)
             {
-- 
2.43.0


From cbea30dd30973a9189babd33f297a6dde3237b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:05 +0000
Subject: [PATCH 18/33] fix: do not look for 2147483647 files when a count file
 is corrupt

---
 src/cache_fetcher.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cache_fetcher.cpp b/src/cache_fetcher.cpp
index 0bf847d..b240675 100644
--- a/src/cache_fetcher.cpp
+++ b/src/cache_fetcher.cpp
@@ -39,7 +39,11 @@ namespace TrRouting
     int count {1};
     if (iCacheFile.is_open())
     {
-      iCacheFile >> count;
+      if (!(iCacheFile >> count))
+      {
+        spdlog::error("Invalid count of cache files in {}", cacheFilePath);
+        count = 0;
+      }
       spdlog::info("{} has {} cache files", cacheFilePath, count);
     }
     iCacheFile.close();
-- 
2.43.0


From 872db061b6876e15a81562b856c4878e98f414e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:41 +0000
Subject: [PATCH 19/33] fix: keep the forward connection slots within the
 cached hours

---
 src/connection_set.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/connection_set.cpp b/src/connection_set.cpp
index 13c04b5..f68c790 100644
--- a/src/connection_set.cpp
+++ b/src/connection_set.cpp
@@ -10,8 +10,11 @@ namespace TrRouting {
 
   std::vector<std::reference_wrapper<const Connection>>::const_iterator ConnectionSet::getForwardConnectionsBeginAtDepartureHour(int hour) const
   {
-    if (hour > CONNECTION_ITERATOR_CACHE_END_HOUR || hour  < CONNECTION_ITERATOR_CACHE_BEGIN_HOUR) {
+    if (hour  < CONNECTION_ITERATOR_CACHE_BEGIN_HOUR) {
       return forwardConnections.cend();
+    } else if (hour > CONNECTION_ITERATOR_CACHE_END_HOUR) {
+      // The last slot starts with the first connection from the end hour on
+      return forwardConnectionsBeginIteratorCache[CONNECTION_ITERATOR_CACHE_END_HOUR];
     }
 
     return forwardConnectionsBeginIteratorCache[hour];
@@ -40,7 +43,7 @@ namespace TrRouting {
          ite++) {
       // We can have a gap of multiple hours between 2 connections, so the current iterator
       // can be valid for multiple hour slots
-      while ((*ite).get().getDepartureTime() >= currentHour * 3600) {
+      while (currentHour <= CONNECTION_ITERATOR_CACHE_END_HOUR && (*ite).get().getDepartureTime() >= currentHour * 3600) {
         forwardConnectionsBeginIteratorCache.push_back(ite);
         currentHour++;
       }
@@ -49,7 +52,7 @@ namespace TrRouting {
     //Finish filling forward cache
     //We reached the end of the forwardConnections in the previous loop, so here we
     //fill the rest of the forward cache with end iterator
-    for (;currentHour < CONNECTION_ITERATOR_CACHE_END_HOUR; currentHour++) {
+    for (;currentHour <= CONNECTION_ITERATOR_CACHE_END_HOUR; currentHour++) {
       forwardConnectionsBeginIteratorCache.push_back(forwardConnections.cend());
     }
 
-- 
2.43.0


From b4c313155fe5ce8918656222c5038928c31e73d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:10 +0000
Subject: [PATCH 20/33] fix: ignore trips and footpaths with impossible times

---
 src/nodes_cache_fetcher.cpp                 |  5 +++++
 src/trips_and_connections_cache_fetcher.cpp | 13 +++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/nodes_cache_fetcher.cpp b/src/nodes_cache_fetcher.cpp
index 3fbba5d..5afe750 100644
--- a/src/nodes_cache_fetcher.cpp
+++ b/src/nodes_cache_fetcher.cpp
@@ -155,6 +155,11 @@ namespace TrRouting
           
           int travelTime = capnpT.getTransferableNodesTravelTimes()[j];
           int distance = capnpT.getTransferableNodesDistances()[j];
+          if (travelTime < 0 || travelTime > MAX_INT / 4)
+          {
+            spdlog::error("Invalid travel time {} to transferable node {} in file {}", travelTime, nodeUuidStr, nodeCacheFileNamePath);
+            continue;
+          }
           transferableNodes.push_back(NodeTimeDistance(ts.at(nodeUuid),
                                                        travelTime,
                                                        distance));
diff --git a/src/trips_and_connections_cache_fetcher.cpp b/src/trips_and_connections_cache_fetcher.cpp
index 9ce108e..7cc653c 100644
--- a/src/trips_and_connections_cache_fetcher.cpp
+++ b/src/trips_and_connections_cache_fetcher.cpp
@@ -101,6 +101,19 @@ namespace TrRouting
                 continue;
               }
 
+              // Times have to increase along the trip and to be small enough for walking and waiting times to be added to them
+              bool timesAreValid = true;
+              for (unsigned long nodeTimeI = 0; nodeTimeI + 1 < nodeTimesCount; nodeTimeI++)
+              {
+                timesAreValid = timesAreValid && departureTimesSeconds[nodeTimeI] >= (nodeTimeI == 0 ? 0 : arrivalTimesSeconds[nodeTimeI])
+                  && arrivalTimesSeconds[nodeTimeI + 1] >= departureTimesSeconds[nodeTimeI] && arrivalTimesSeconds[nodeTimeI + 1] <= MAX_INT / 4;
+              }
+              if (!timesAreValid)
+              {
+                spdlog::error("Invalid times of trip {} in line cache file {}, trip ignored", tripUuidStr, cacheFilePath);
+                continue;
+              }
+
               if (trips.count(tripUuid) > 0)
               {
                 spdlog::error("Duplicate trip {} in line cache file {}, trip ignored", tripUuidStr, cacheFilePath);
-- 
2.43.0


From 48f9845dee299dfee880ad44c8028a6759154ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 21/33] fix: load the remaining data after a faulty cache file

---
 src/transit_data.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index a8017d4..c51ae27 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -277,13 +277,13 @@ namespace TrRouting {
     // Ignore missing nodes file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      spdlog::error("Error {} loading the nodes, continuing with the other data", ret);
     }
     ret = updateDataSources();
     // Ignore missing data sources file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      spdlog::error("Error {} loading the data sources, continuing with the other data", ret);
     }
     /* TODO #167
     ret = updateHouseholds();
@@ -295,12 +295,12 @@ namespace TrRouting {
     ret = updatePersons();
     if (ret < 0)
     {
-      return DataStatus::DATA_READ_ERROR;
+      spdlog::error("Error {} loading the persons, continuing with the other data", ret);
     }
     ret = updateOdTrips();
     if (ret < 0)
     {
-      return DataStatus::DATA_READ_ERROR;
+      spdlog::error("Error {} loading the od trips, continuing with the other data", ret);
     }
     /* TODO #167
     ret = updatePlaces();
@@ -313,37 +313,37 @@ namespace TrRouting {
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      spdlog::error("Error {} loading the agencies, continuing with the other data", ret);
     }
     ret = updateServices();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      spdlog::error("Error {} loading the services, continuing with the other data", ret);
     }
     ret = updateLines();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      spdlog::error("Error {} loading the lines, continuing with the other data", ret);
     }
     ret = updatePaths();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      spdlog::error("Error {} loading the paths, continuing with the other data", ret);
     }
     ret = updateScenarios();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      spdlog::error("Error {} loading the scenarios, continuing with the other data", ret);
     }
     ret = updateSchedules();
     // Ignore missing file
     if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::DATA_READ_ERROR;
+      spdlog::error("Error {} loading the schedules, continuing with the other data", ret);
     }
 
     return getDataStatus();
-- 
2.43.0


From fee6034d49d5d277ae496c53b36a334bc83a9d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:59 +0000
Subject: [PATCH 22/33] fix: keep the segment distances of a path at their
 index when some are unknown

---
 connection_scan_algorithm/src/forward_journey.cpp |  2 +-
 connection_scan_algorithm/src/reverse_journey.cpp |  2 +-
 include/path.hpp                                  | 10 ++++++++++
 src/paths_cache_fetcher.cpp                       |  4 ++++
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_journey.cpp b/connection_scan_algorithm/src/forward_journey.cpp
index 14fe112..63dbfd0 100644
--- a/connection_scan_algorithm/src/forward_journey.cpp
+++ b/connection_scan_algorithm/src/forward_journey.cpp
@@ -107,7 +107,7 @@ namespace TrRouting
           }
           legs.push_back(std::make_tuple(std::ref(journeyStepTrip), boardingSequence - 1, unboardingSequence - 1));
 
-          if (unboardingSequence - 1 < journeyStepTrip.path.segmentsDistanceMeters.size()) // check if distances are available for this path
+          if (journeyStepTrip.path.hasSegmentDistances(boardingSequence - 1, unboardingSequence - 1)) // check if distances are available for this path
           {
             for (int seqI = boardingSequence - 1; seqI < unboardingSequence; seqI++)
             {
diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index d7bddb0..01fbc24 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -120,7 +120,7 @@ namespace TrRouting
 
               legs.push_back(std::make_tuple(std::ref(journeyStepTrip), boardingSequence - 1, unboardingSequence - 1));
 
-              if (unboardingSequence - 1 < journeyStepTrip.path.segmentsDistanceMeters.size()) // check if distances are available for this path
+              if (journeyStepTrip.path.hasSegmentDistances(boardingSequence - 1, unboardingSequence - 1)) // check if distances are available for this path
                 {
                   for (int seqI = boardingSequence - 1; seqI < unboardingSequence; seqI++)
                     {
diff --git a/include/path.hpp b/include/path.hpp
index 1534ef1..b2721a7 100644
--- a/include/path.hpp
+++ b/include/path.hpp
@@ -63,6 +63,16 @@ namespace TrRouting
     std::vector<int> segmentsTravelTimeSeconds;
     std::vector<int> segmentsDistanceMeters;
 
+    // Whether the distances of the segments first to last (included) are all known
+    bool hasSegmentDistances(size_t first, size_t last) const {
+      for (size_t i = first; i <= last; i++) {
+        if (i >= segmentsDistanceMeters.size() || segmentsDistanceMeters[i] < 0) {
+          return false;
+        }
+      }
+      return true;
+    }
+
     const std::string toString() {
       return "Path " + boost::uuids::to_string(uuid) + "\n  direction " + direction;
     }
diff --git a/src/paths_cache_fetcher.cpp b/src/paths_cache_fetcher.cpp
index 4274e61..b8f113b 100644
--- a/src/paths_cache_fetcher.cpp
+++ b/src/paths_cache_fetcher.cpp
@@ -85,6 +85,10 @@ namespace TrRouting
           {
             distancesMeters.push_back(jsonData["segments"][i]["distanceMeters"]);
           }
+          else
+          {
+            distancesMeters.push_back(-1); // keep the distances of the other segments at their index
+          }
           if (jsonData["segments"][i]["travelTimeSeconds"] != nullptr)
           {
             travelTimesSeconds.push_back(jsonData["segments"][i]["travelTimeSeconds"]);
-- 
2.43.0


From bef09b510ffba9cab807dfc24907aaa786492047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 23/33] fix: answer according to the data status after the last
 cache update

---
 .../src/transit_routing_http_server.cpp         | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 67cc566..2f041d5 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -122,9 +122,8 @@ int main(int argc, char** argv) {
 
   spdlog::info("preparing calculator...");
   TransitData transitData(*fetcher, programOptions.cacheAllConnectionSets);
-  //TODO We wanted to handle error in the constructor, but later part of this code expect a dataStatus
-  // leaving as a todo
-  DataStatus dataStatus = transitData.getDataStatus();
+  //TODO We wanted to handle error in the constructor, but the requests are answered according to the data status,
+  // which can change when the caches are updated
 
   // Selection which geofilter to use. OSRM is the default one. Euclidean mostly used for debugging and testing
   GeoFilter *geoFilter = 0;
@@ -299,10 +298,10 @@ int main(int argc, char** argv) {
 
   // Routing request for a single origin destination
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
-  server.resource["^/v2/route[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/route[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static int routeRequestId = 0;
-    std::string response = getFastErrorResponse(dataStatus);
+    std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
       *serverResponse << "HTTP/1.1 200 OK\r\nAccess-Control-Allow-Origin: *\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: " << response.length() << "\r\n\r\n" << response;
@@ -369,11 +368,11 @@ int main(int argc, char** argv) {
 
   // Request a summary of lines data for a route
   // TODO Copy pasted from v2/route. There's a lot in common, it should be extracted to common class, just the response parser is different
-  server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static int summaryRequestId = 0;
 
-    std::string response = getFastErrorResponse(dataStatus);
+    std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
       *serverResponse << "HTTP/1.1 200 OK\r\nAccess-Control-Allow-Origin: *\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: " << response.length() << "\r\n\r\n" << response;
@@ -440,11 +439,11 @@ int main(int argc, char** argv) {
 
   // Routing request for a single origin destination
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
-  server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static int accessibilityRequestId = 0;
 
-    std::string response = getFastErrorResponse(dataStatus);
+    std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
       *serverResponse << "HTTP/1.1 200 OK\r\nAccess-Control-Allow-Origin: *\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: " << response.length() << "\r\n\r\n" << response;
-- 
2.43.0


From 5d7e6324ab398705de45f587029a19253e43326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 24/33] fix: report missing and invalid places with their
 documented error codes

---
 connection_scan_algorithm/src/transit_routing_http_server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 2f041d5..714090a 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -91,9 +91,11 @@ std::string getResponseCode(ParameterException::Type type)
     case ParameterException::Type::MISSING_SCENARIO: return "MISSING_PARAM_SCENARIO";
     case ParameterException::Type::MISSING_ORIGIN: return "MISSING_PARAM_ORIGIN";
     case ParameterException::Type::MISSING_DESTINATION: return "MISSING_PARAM_DESTINATION";
+    case ParameterException::Type::MISSING_PLACE: return "MISSING_PARAM_PLACE";
     case ParameterException::Type::MISSING_TIME_OF_TRIP: return "MISSING_PARAM_TIME_OF_TRIP";
     case ParameterException::Type::INVALID_ORIGIN: return "INVALID_ORIGIN";
     case ParameterException::Type::INVALID_DESTINATION: return "INVALID_DESTINATION";
+    case ParameterException::Type::INVALID_PLACE: return "INVALID_PLACE";
     case ParameterException::Type::INVALID_NUMERICAL_DATA: return "INVALID_NUMERICAL_DATA";
     default: return "PARAM_ERROR_UNKNOWN";
   }
-- 
2.43.0


From ddd05084831a7b1a5d769f718f51af5fd891e26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 25/33] fix: name only the refreshed caches in /updateCache
 answers, as valid JSON

---
 .../src/transit_routing_http_server.cpp       | 33 +++++++------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 714090a..7aca9f1 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -15,6 +15,7 @@
 #include <boost/property_tree/json_parser.hpp>
 #include <boost/property_tree/ptree.hpp>
 #include <boost/algorithm/string.hpp>
+#include <nlohmann/json.hpp>
 
 #include "cache_fetcher.hpp"
 #include "calculation_time.hpp"
@@ -147,9 +148,6 @@ int main(int argc, char** argv) {
   server.resource["^/updateCache[/]?$"]["GET"]=[&server, &transitData](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
 
     std::string              response {""};
-    std::vector<std::string> parametersWithValues;
-    std::vector<std::string> parameterWithValueVector;
-    std::string              queryString;
     std::string              customCacheDirectoryPath {""};
     std::string              cacheNamesStr {""};
     std::vector<std::string> cacheNames;
@@ -159,34 +157,27 @@ int main(int argc, char** argv) {
     auto queryFields = request->parse_query_string();
     for(auto &field : queryFields)
     {
-      parametersWithValues.push_back(field.first + "=" + field.second);
-    }
-
-    for(auto & parameterWithValue : parametersWithValues)
-    {
-      boost::split(parameterWithValueVector, parameterWithValue, boost::is_any_of("="));
-
-      if (parameterWithValueVector[0] == "names" || parameterWithValueVector[0] == "caches" || parameterWithValueVector[0] == "cache_names" || parameterWithValueVector[0] == "name" || parameterWithValueVector[0] == "cache" || parameterWithValueVector[0] == "cache_name")
+      if (field.first == "names" || field.first == "caches" || field.first == "cache_names" || field.first == "name" || field.first == "cache" || field.first == "cache_name")
       {
 
-        boost::split(cacheNamesVector, parameterWithValueVector[1], boost::is_any_of(","));
+        boost::split(cacheNamesVector, field.second, boost::is_any_of(","));
         for(std::string cacheName : cacheNamesVector)
         {
           cacheNames.push_back(cacheName);
         }
         continue;
       }
-      if (parameterWithValueVector[0] == "path" || parameterWithValueVector[0] == "custom_path" || parameterWithValueVector[0] == "custom_cache_path")
+      if (field.first == "path" || field.first == "custom_path" || field.first == "custom_cache_path")
       {
-        customCacheDirectoryPath = parameterWithValueVector[1];
+        customCacheDirectoryPath = field.second;
         continue;
       }
     }
 
-    bool correctCacheName {false};
     //TODO Merge this and the preparations.cpp code
     for(std::string cacheName : cacheNames)
     {
+      bool correctCacheName {false};
       if (cacheName == "data_sources" || cacheName == "all")
       {
         correctCacheName = true;
@@ -252,7 +243,6 @@ int main(int argc, char** argv) {
         transitData.updateSchedules(customCacheDirectoryPath);
       }
 
-      //TODO This is incorrect if we have multiple name and the second one is wrong, correctCacheName is always true
       if (correctCacheName)
       {
         cacheNamesStr += cacheName;
@@ -260,14 +250,15 @@ int main(int argc, char** argv) {
       }
     }
 
-    //TODO do this only if we had at least one correct name
-    //Reinit some data after the update
-    // TODO Just the schedules???
-    if (cacheNames.size() > 0)
+    if (cacheNamesStr.size() > 0)
     {
       // Remove last ","
       cacheNamesStr.pop_back();
-      response = "{\"status\": \"success\", \"cache_names\": \"" + cacheNamesStr + "\", \"custom_cache_path\": \"" + customCacheDirectoryPath + "\"}";
+      nlohmann::json json;
+      json["status"] = "success";
+      json["cache_names"] = cacheNamesStr;
+      json["custom_cache_path"] = customCacheDirectoryPath;
+      response = json.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
     }
     else
     {
-- 
2.43.0


From e21b4fd013115f7d73df6e99460fe77d36ec4f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 26/33] fix: load the data that refer to refreshed caches again

---
 .../src/transit_routing_http_server.cpp       | 114 ++++++++----------
 1 file changed, 50 insertions(+), 64 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 7aca9f1..670f506 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -6,6 +6,8 @@
 
 #include <vector>
 #include <algorithm>
+#include <map>
+#include <set>
 #include <string>
 #include <iterator>
 #include "spdlog/spdlog.h"
@@ -144,8 +146,30 @@ int main(int argc, char** argv) {
   server.config.port = programOptions.port;
   server.config.thread_pool_size = programOptions.numberOfThreads;
 
+  // The caches, each one after those it refers to
+  //TODO #167 households and places
+  struct UpdatableCache {
+    std::string name;
+    int (TransitData::*update)(std::string);
+    std::vector<std::string> referredCaches;
+  };
+  const std::vector<UpdatableCache> cachesInOrder = {
+    { "data_sources", &TransitData::updateDataSources, {} },
+    { "agencies", &TransitData::updateAgencies, {} },
+    { "services", &TransitData::updateServices, {} },
+    { "nodes", &TransitData::updateNodes, {} },
+    { "persons", &TransitData::updatePersons, {"data_sources"} },
+    { "od_trips", &TransitData::updateOdTrips, {"data_sources", "persons", "nodes"} },
+    { "lines", &TransitData::updateLines, {"agencies"} },
+    { "paths", &TransitData::updatePaths, {"lines", "nodes"} },
+    { "scenarios", &TransitData::updateScenarios, {"services", "lines", "agencies", "nodes"} },
+    { "schedules", &TransitData::updateSchedules, {"lines", "paths", "services"} }
+  };
+  // Custom path given in the last update of each cache
+  std::map<std::string, std::string> cachePaths;
+
   // updateCache:
-  server.resource["^/updateCache[/]?$"]["GET"]=[&server, &transitData](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/updateCache[/]?$"]["GET"]=[&server, &transitData, &cachesInOrder, &cachePaths](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
 
     std::string              response {""};
     std::string              customCacheDirectoryPath {""};
@@ -174,73 +198,18 @@ int main(int argc, char** argv) {
       }
     }
 
-    //TODO Merge this and the preparations.cpp code
+    std::set<std::string> cachesToUpdate;
     for(std::string cacheName : cacheNames)
     {
       bool correctCacheName {false};
-      if (cacheName == "data_sources" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateDataSources(customCacheDirectoryPath);
-      }
-      /* TODO #167
-      if (cacheName == "households" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateHouseholds(customCacheDirectoryPath);
-      }
-      */
-      if (cacheName == "persons" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updatePersons(customCacheDirectoryPath);
-      }
-      if (cacheName == "od_trips" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateOdTrips(customCacheDirectoryPath);
-      }
-      /* TODO #167
-      if (cacheName == "places" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updatePlaces(customCacheDirectoryPath);
-      }
-      */
-      if (cacheName == "agencies" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateAgencies(customCacheDirectoryPath);
-      }
-      if (cacheName == "services" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateServices(customCacheDirectoryPath);
-      }
-      if (cacheName == "nodes" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateNodes(customCacheDirectoryPath);
-      }
-      if (cacheName == "lines" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateLines(customCacheDirectoryPath);
-      }
-      if (cacheName == "paths" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updatePaths(customCacheDirectoryPath);
-      }
-      if (cacheName == "scenarios" || cacheName == "all")
+      for (auto & cache : cachesInOrder)
       {
-        correctCacheName = true;
-        transitData.updateScenarios(customCacheDirectoryPath);
-      }
-      if (cacheName == "schedules" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateSchedules(customCacheDirectoryPath);
+        if (cacheName == cache.name || cacheName == "all")
+        {
+          correctCacheName = true;
+          cachesToUpdate.insert(cache.name);
+          cachePaths[cache.name] = customCacheDirectoryPath;
+        }
       }
 
       if (correctCacheName)
@@ -250,6 +219,23 @@ int main(int argc, char** argv) {
       }
     }
 
+    //TODO Merge this and the preparations.cpp code
+    for (auto & cache : cachesInOrder)
+    {
+      // The data that refer to updated data need to be loaded again too, from where they were last loaded
+      for (auto & referredCache : cache.referredCaches)
+      {
+        if (cachesToUpdate.count(referredCache) > 0)
+        {
+          cachesToUpdate.insert(cache.name);
+        }
+      }
+      if (cachesToUpdate.count(cache.name) > 0)
+      {
+        (transitData.*cache.update)(cachePaths[cache.name]);
+      }
+    }
+
     if (cacheNamesStr.size() > 0)
     {
       // Remove last ","
-- 
2.43.0


From eca473a00fad118e28c78e8362011bc36d43ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 27/33] fix: do not update the caches while requests use the
 data

---
 .../src/transit_routing_http_server.cpp       | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 670f506..163a342 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -7,7 +7,9 @@
 #include <vector>
 #include <algorithm>
 #include <map>
+#include <mutex>
 #include <set>
+#include <shared_mutex>
 #include <string>
 #include <iterator>
 #include "spdlog/spdlog.h"
@@ -167,9 +169,13 @@ int main(int argc, char** argv) {
   };
   // Custom path given in the last update of each cache
   std::map<std::string, std::string> cachePaths;
+  // The requests use the data together, an update needs them alone
+  std::shared_mutex dataMutex;
+  // Held by an update from when it waits for the data, so that new requests do not keep it waiting
+  std::mutex updateMutex;
 
   // updateCache:
-  server.resource["^/updateCache[/]?$"]["GET"]=[&server, &transitData, &cachesInOrder, &cachePaths](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/updateCache[/]?$"]["GET"]=[&server, &transitData, &cachesInOrder, &cachePaths, &dataMutex, &updateMutex](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
 
     std::string              response {""};
     std::string              customCacheDirectoryPath {""};
@@ -198,6 +204,8 @@ int main(int argc, char** argv) {
       }
     }
 
+    std::lock_guard<std::mutex> updateLock(updateMutex);
+    std::unique_lock<std::shared_mutex> dataLock(dataMutex);
     std::set<std::string> cachesToUpdate;
     for(std::string cacheName : cacheNames)
     {
@@ -277,9 +285,12 @@ int main(int argc, char** argv) {
 
   // Routing request for a single origin destination
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
-  server.resource["^/v2/route[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/route[/]?$"]["GET"]=[&server, &transitData, &geoFilter, &dataMutex, &updateMutex](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static int routeRequestId = 0;
+    std::unique_lock<std::mutex> updateLock(updateMutex);
+    std::shared_lock<std::shared_mutex> dataLock(dataMutex);
+    updateLock.unlock();
     std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
@@ -347,10 +358,13 @@ int main(int argc, char** argv) {
 
   // Request a summary of lines data for a route
   // TODO Copy pasted from v2/route. There's a lot in common, it should be extracted to common class, just the response parser is different
-  server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &transitData, &geoFilter, &dataMutex, &updateMutex](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static int summaryRequestId = 0;
 
+    std::unique_lock<std::mutex> updateLock(updateMutex);
+    std::shared_lock<std::shared_mutex> dataLock(dataMutex);
+    updateLock.unlock();
     std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
@@ -418,10 +432,13 @@ int main(int argc, char** argv) {
 
   // Routing request for a single origin destination
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
-  server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &transitData, &geoFilter, &dataMutex, &updateMutex](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static int accessibilityRequestId = 0;
 
+    std::unique_lock<std::mutex> updateLock(updateMutex);
+    std::shared_lock<std::shared_mutex> dataLock(dataMutex);
+    updateLock.unlock();
     std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
-- 
2.43.0


From 16222294114a9bc8b48c54720eab739a4cadedb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 28/33] fix: count the requests atomically

---
 .../src/transit_routing_http_server.cpp                    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 163a342..05fe413 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -6,6 +6,7 @@
 
 #include <vector>
 #include <algorithm>
+#include <atomic>
 #include <map>
 #include <mutex>
 #include <set>
@@ -287,7 +288,7 @@ int main(int argc, char** argv) {
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
   server.resource["^/v2/route[/]?$"]["GET"]=[&server, &transitData, &geoFilter, &dataMutex, &updateMutex](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int routeRequestId = 0;
+    static std::atomic<int> routeRequestId = 0;
     std::unique_lock<std::mutex> updateLock(updateMutex);
     std::shared_lock<std::shared_mutex> dataLock(dataMutex);
     updateLock.unlock();
@@ -360,7 +361,7 @@ int main(int argc, char** argv) {
   // TODO Copy pasted from v2/route. There's a lot in common, it should be extracted to common class, just the response parser is different
   server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &transitData, &geoFilter, &dataMutex, &updateMutex](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int summaryRequestId = 0;
+    static std::atomic<int> summaryRequestId = 0;
 
     std::unique_lock<std::mutex> updateLock(updateMutex);
     std::shared_lock<std::shared_mutex> dataLock(dataMutex);
@@ -434,7 +435,7 @@ int main(int argc, char** argv) {
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
   server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &transitData, &geoFilter, &dataMutex, &updateMutex](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int accessibilityRequestId = 0;
+    static std::atomic<int> accessibilityRequestId = 0;
 
     std::unique_lock<std::mutex> updateLock(updateMutex);
     std::shared_lock<std::shared_mutex> dataLock(dataMutex);
-- 
2.43.0


From 85e521cf277ccbe7d8b9903100eea1a0cd5bbae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 29/33] fix: answer requests although a name in the data is not
 valid UTF-8

---
 .../src/transit_routing_http_server.cpp          | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 05fe413..f89a4e3 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -318,20 +318,20 @@ int main(int argc, char** argv) {
         if (queryParams.isWithAlternatives())
         {
           TrRouting::AlternativesResult alternativeResult = calculator.alternativesRouting(queryParams);
-          response = ResultToV2Response::resultToJsonString(alternativeResult, queryParams).dump(2);
+          response = ResultToV2Response::resultToJsonString(alternativeResult, queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         }
         else
         {
           std::unique_ptr<TrRouting::SingleCalculationResult> routingResult = calculator.calculateSingle(queryParams);
           if (routingResult.get() != nullptr) {
-            response = ResultToV2Response::resultToJsonString(*routingResult.get(), queryParams).dump(2);
+            response = ResultToV2Response::resultToJsonString(*routingResult.get(), queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
           }
         }
 
         spdlog::info("-- route request complete -- {}", currentRequestId);
 
       } catch (NoRoutingFoundException &e) {
-        response = ResultToV2Response::noRoutingFoundResponse(queryParams, e.getReason()).dump(2);
+        response = ResultToV2Response::noRoutingFoundResponse(queryParams, e.getReason()).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         spdlog::info("-- route request not found -- {}", currentRequestId);
 
       }
@@ -393,20 +393,20 @@ int main(int argc, char** argv) {
         if (queryParams.isWithAlternatives())
         {
           TrRouting::AlternativesResult alternativeResult = calculator.alternativesRouting(queryParams);
-          response = ResultToV2SummaryResponse::resultToJsonString(alternativeResult, queryParams).dump(2);
+          response = ResultToV2SummaryResponse::resultToJsonString(alternativeResult, queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         }
         else
         {
           std::unique_ptr<TrRouting::SingleCalculationResult> routingResult = calculator.calculateSingle(queryParams);
           if (routingResult.get() != nullptr) {
-            response = ResultToV2SummaryResponse::resultToJsonString(*routingResult.get(), queryParams).dump(2);
+            response = ResultToV2SummaryResponse::resultToJsonString(*routingResult.get(), queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
           }
         }
 
         spdlog::info("-- summary request complete -- {}", currentRequestId);
 
       } catch (NoRoutingFoundException &e) {
-        response = ResultToV2SummaryResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2);
+        response = ResultToV2SummaryResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         spdlog::info("-- summary request not found -- {}", currentRequestId);
       }
 
@@ -466,13 +466,13 @@ int main(int argc, char** argv) {
       try {
         std::unique_ptr<AllNodesResult> accessibilityResult = calculator.calculateAllNodes(queryParams);
         if (accessibilityResult.get() != nullptr) {
-          response = ResultToV2AccessibilityResponse::resultToJsonString(*accessibilityResult.get(), queryParams).dump(2);
+          response = ResultToV2AccessibilityResponse::resultToJsonString(*accessibilityResult.get(), queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         }
 
         spdlog::info("-- accessibility request complete -- {}", currentRequestId);
 
       } catch (NoRoutingFoundException &e) {
-        response = ResultToV2AccessibilityResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2);
+        response = ResultToV2AccessibilityResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         spdlog::info("-- accessibility request not found -- {}", currentRequestId);
       }
 
-- 
2.43.0


From 1f7bbccd68e30c0e6b05d329575c4ce5a6bad2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 30/33] fix: reject parameters that only start with a number

---
 .../parameters/accessibility_parameters.cpp   |  2 +-
 .../src/parameters/common_parameters.cpp      | 22 ++++++++++++++++++-
 .../src/parameters/route_parameters.cpp       |  4 ++--
 include/parameters.hpp                        |  1 +
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp b/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
index c1a9c30..238a74d 100644
--- a/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
@@ -60,7 +60,7 @@ namespace TrRouting
           {
             throw ParameterException(ParameterException::Type::INVALID_PLACE);
           }
-          place = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
+          place = Point(CommonParameters::getNumericalValue(latitudeLongitudeVector[1]), CommonParameters::getNumericalValue(latitudeLongitudeVector[0]));
         }
         catch (...)
         {
diff --git a/connection_scan_algorithm/src/parameters/common_parameters.cpp b/connection_scan_algorithm/src/parameters/common_parameters.cpp
index 7723ea8..b34b773 100644
--- a/connection_scan_algorithm/src/parameters/common_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/common_parameters.cpp
@@ -1,3 +1,6 @@
+#include <cctype>
+#include <cmath>
+#include <stdexcept>
 #include <boost/uuid/string_generator.hpp>
 #include <boost/algorithm/string.hpp>
 
@@ -53,10 +56,27 @@ namespace TrRouting
   {
   }
 
+  // The value of a string that is a finite number as a whole
+  double CommonParameters::getNumericalValue(const std::string &strValue) {
+    size_t end = 0;
+    double value = std::stod(strValue, &end);
+    while (end < strValue.size() && std::isspace(static_cast<unsigned char>(strValue[end])))
+    {
+      end++;
+    }
+    if (end < strValue.size() || !std::isfinite(value))
+    {
+      throw std::invalid_argument("not a finite number");
+    }
+    return value;
+  }
+
   int CommonParameters::getIntegerValue(std::string strValue) {
     try
     {
-      return std::stoi(strValue);
+      int value = std::stoi(strValue);
+      getNumericalValue(strValue); // what follows the digits needs to be part of the number
+      return value;
     }
     catch (...)
     {
diff --git a/connection_scan_algorithm/src/parameters/route_parameters.cpp b/connection_scan_algorithm/src/parameters/route_parameters.cpp
index 0120005..3198a9a 100644
--- a/connection_scan_algorithm/src/parameters/route_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/route_parameters.cpp
@@ -79,7 +79,7 @@ namespace TrRouting
           {
             throw ParameterException(ParameterException::Type::INVALID_ORIGIN);
           }
-          origin = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
+          origin = Point(CommonParameters::getNumericalValue(latitudeLongitudeVector[1]), CommonParameters::getNumericalValue(latitudeLongitudeVector[0]));
         }
         catch (...)
         {
@@ -95,7 +95,7 @@ namespace TrRouting
           {
             throw ParameterException(ParameterException::Type::INVALID_DESTINATION);
           }
-          destination = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
+          destination = Point(CommonParameters::getNumericalValue(latitudeLongitudeVector[1]), CommonParameters::getNumericalValue(latitudeLongitudeVector[0]));
         }
         catch (...)
         {
diff --git a/include/parameters.hpp b/include/parameters.hpp
index 2b741e0..70cb4ac 100644
--- a/include/parameters.hpp
+++ b/include/parameters.hpp
@@ -152,6 +152,7 @@ namespace TrRouting
        * @return int The converted integer
        */
       static int getIntegerValue(std::string strValue);
+      static double getNumericalValue(const std::string &strValue);
   };
 
   class RouteParameters : public CommonParameters {
-- 
2.43.0


From 1a2a01fd459549f1ab39db735264b3aa92e06711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 31/33] fix: calculate with waiting and requested times up to
 the largest integer

---
 .../src/forward_calculation.cpp                    |  8 ++++----
 connection_scan_algorithm/src/resets.cpp           |  2 +-
 .../src/reverse_calculation.cpp                    | 14 +++++++-------
 connection_scan_algorithm/src/reverse_journey.cpp  |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index 274f94c..3bf4638 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -18,7 +18,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    int   connectionMinWaitingTimeSeconds {-1};
+    long long connectionMinWaitingTimeSeconds {-1}; // more than an int: may be as long as an int can be
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
@@ -41,7 +41,7 @@ namespace TrRouting
     {
       
       // ignore connections before departure time + minimum access travel time:
-      if ((*connection).get().getDepartureTime() >= departureTimeSeconds + minAccessTravelTime)
+      if ((*connection).get().getDepartureTime() >= static_cast<long long>(departureTimeSeconds) + minAccessTravelTime)
       {
         const Trip & trip = (*connection).get().getTrip();
 
@@ -222,7 +222,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    int   connectionMinWaitingTimeSeconds {-1};
+    long long connectionMinWaitingTimeSeconds {-1}; // more than an int: may be as long as an int can be
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
@@ -238,7 +238,7 @@ namespace TrRouting
     for(auto connection = connectionSet.get()->getForwardConnectionsBeginAtDepartureHour(departureTimeHour); connection != lastConnection; ++connection)
     {
       // ignore connections before departure time + minimum access travel time:
-      if ((*connection).get().getDepartureTime() >= departureTimeSeconds + minAccessTravelTime)
+      if ((*connection).get().getDepartureTime() >= static_cast<long long>(departureTimeSeconds) + minAccessTravelTime)
       {
         const Trip & trip = (*connection).get().getTrip();
 
diff --git a/connection_scan_algorithm/src/resets.cpp b/connection_scan_algorithm/src/resets.cpp
index 7976806..dc08813 100644
--- a/connection_scan_algorithm/src/resets.cpp
+++ b/connection_scan_algorithm/src/resets.cpp
@@ -90,7 +90,7 @@ namespace TrRouting
                                                                       footpathTravelTimeSeconds,
                                                                       footpathDistanceMeters));
         forwardJourneysSteps.at(accessFootpath.node.uid) = JourneyStep(std::nullopt, std::nullopt, std::nullopt, footpathTravelTimeSeconds, false, footpathDistanceMeters);
-        nodesTentativeTime[accessFootpath.node.uid]    = departureTimeSeconds + footpathTravelTimeSeconds;
+        nodesTentativeTime[accessFootpath.node.uid]    = std::min<long long>(static_cast<long long>(departureTimeSeconds) + footpathTravelTimeSeconds, MAX_INT);
         if (footpathTravelTimeSeconds < minAccessTravelTime)
         {
           minAccessTravelTime = footpathTravelTimeSeconds;
diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 6a2fbb4..0b0cdb4 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -19,14 +19,14 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    int  connectionMinWaitingTimeSeconds {-1};
-    int  journeyConnectionMinWaitingTimeSeconds {-1};
+    long long connectionMinWaitingTimeSeconds {-1}; // more than an int: may be as long as an int can be
+    long long journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
     int  footpathTravelTime               {-1};
     int  footpathDistance                 {-1};
-    int  tentativeAccessNodeDepartureTime {-1};
+    long long tentativeAccessNodeDepartureTime {-1};
     bool reachedAtLeastOneAccessNode      {false};
     int  bestDepartureTime                {-1};
 
@@ -202,9 +202,9 @@ namespace TrRouting
         if (accessEnterConnection.has_value()) //TODO is this check required with the previous if(count()) added ?
         {
           const NodeTimeDistance & access = nodesAccess.at(accessFootpath.node.uid);
-          int accessEnterConnectionMinWaitingTimeSeconds = accessEnterConnection.value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
+          long long accessEnterConnectionMinWaitingTimeSeconds = accessEnterConnection.value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
 
-          int accessNodeDepartureTime                    = accessEnterConnection.value().get().getDepartureTime() - access.time - accessEnterConnectionMinWaitingTimeSeconds;
+          long long accessNodeDepartureTime              = accessEnterConnection.value().get().getDepartureTime() - access.time - accessEnterConnectionMinWaitingTimeSeconds;
           if ((accessNodeDepartureTime >= 0) &&
               (arrivalTimeSeconds - accessNodeDepartureTime <= parameters.getMaxTotalTravelTimeSeconds()) &&
               (accessNodeDepartureTime > bestDepartureTime) &&
@@ -232,8 +232,8 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    int  connectionMinWaitingTimeSeconds {-1};
-    int  journeyConnectionMinWaitingTimeSeconds {-1};
+    long long connectionMinWaitingTimeSeconds {-1}; // more than an int: may be as long as an int can be
+    long long journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 01fbc24..148a504 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -326,14 +326,14 @@ namespace TrRouting
 
       if (reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().has_value()) {
         //TODO Could move this operation into a function of class Connection
-        int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
+        long long departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - static_cast<long long>(reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds()));
         if (arrivalTimeSeconds - departureTimeD <=  parameters.getMaxTotalTravelTimeSeconds()) {
           reachableNodesCount++;
 
           AccessibleNodes node = AccessibleNodes(
                                                  resultingNode,
                                                  arrivalTimeSeconds,
-                                                 arrivalTimeSeconds - departureTimeD,
+                                                 static_cast<int>(arrivalTimeSeconds - departureTimeD),
                                                  numberOfTransfers
                                                  );
           allNodesResult.get()->nodes.push_back(node);
-- 
2.43.0


From 301bfef1e12887ff7a09b2bcbdae13f3a3a3292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 32/33] fix: do not end the process on a walking router reply
 with an invalid length

---
 include/client_http.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/client_http.hpp b/include/client_http.hpp
index 666b5f0..58761aa 100644
--- a/include/client_http.hpp
+++ b/include/client_http.hpp
@@ -574,7 +574,14 @@ namespace SimpleWeb {
 
           auto header_it = session->response->header.find("Content-Length");
           if(header_it != session->response->header.end()) {
-            auto content_length = std::stoull(header_it->second);
+            unsigned long long content_length = 0;
+            try {
+              content_length = std::stoull(header_it->second);
+            }
+            catch(...) {
+              session->callback(make_error_code::make_error_code(errc::protocol_error));
+              return;
+            }
             if(content_length > num_additional_bytes)
               this->read_content(session, content_length - num_additional_bytes);
             else
-- 
2.43.0


From 03f41088b9d070986c79529f9333e3692db82f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 33/33] fix: ignore walking router entries beyond the requested
 stops

---
 src/osrmgeofilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osrmgeofilter.cpp b/src/osrmgeofilter.cpp
index 6b95f1c..66d7373 100644
--- a/src/osrmgeofilter.cpp
+++ b/src/osrmgeofilter.cpp
@@ -1,4 +1,5 @@
 #include "osrmgeofilter.hpp"
+#include <algorithm>
 #include <nlohmann/json.hpp>
 #include "point.hpp"
 #include "node.hpp"
@@ -88,7 +89,7 @@ namespace TrRouting {
 
     if (responseJson["durations"] != nullptr && responseJson["distances"] != nullptr && responseJson["durations"][0] != nullptr && responseJson["distances"][0] != nullptr)
     {
-      int numberOfDurations = responseJson["durations"][0].size();
+      int numberOfDurations = std::min(responseJson["durations"][0].size(), birdDistanceAccessibleNodeIndexes.size() + 1); // ignore more entries than requested
       int numberOfDistances = responseJson["distances"][0].size();
 
       if (numberOfDurations > 0 && numberOfDistances > 0)
-- 
2.43.0


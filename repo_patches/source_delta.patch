From 78b8b54c8adcc13955f83298f546815254993a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 01/44] fix: stop the main loop at EndTime instead of stepping
 past the end of the boundary conditions

---
 hapuamod/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index d117dd9..0a20f3a 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -104,7 +104,11 @@ def main(ModelConfigFile, Overwrite=False):
     PlotTime = TimePars['StartTime'] + OutputOpts['PlotInt']
     
     MorDt = TimePars['MorDtMin'] # Initial morphological timestep
-    while MorTime <= TimePars['EndTime']:
+    while MorTime < TimePars['EndTime']:
+        
+        # Prevent hydraulics from running beyond specified end time
+        if MorDt > TimePars['EndTime'] - MorTime:
+            MorDt = TimePars['EndTime'] - MorTime
         
         # Re-assemble the combined river channel incase it has evolved
         (ChanDx, ChanElev, ChanWidth, LagArea, LagLen, ChanDep, ChanVel, 
@@ -120,6 +124,9 @@ def main(ModelConfigFile, Overwrite=False):
         # Run the river model for all the timesteps upto the next morphology step
         HydTimes = pd.date_range(MorTime, MorTime + MorDt, 
                                  freq=TimePars['HydDt'], closed='right')
+        if HydTimes.size == 0:
+            # Less than one hydraulic timestep available
+            HydTimes = pd.DatetimeIndex([MorTime + MorDt])
         
         RivFlow = interpolate_at(FlowTs, HydTimes).values
         SeaLevel = interpolate_at(SeaLevelTs, HydTimes).values
-- 
2.43.0


From 69f4316841f0c1c407dac911e6fc8aef0648eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 02/44] fix: keep the adaptive timestep within
 MorDtMin..MorDtMax and use its full duration (not just .seconds)

---
 hapuamod/core.py |  2 +-
 hapuamod/mor.py  | 32 ++++++++++++++++----------------
 hapuamod/out.py  |  2 +-
 hapuamod/riv.py  |  2 +-
 4 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index 0a20f3a..1e4a03e 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -216,7 +216,7 @@ def main(ModelConfigFile, Overwrite=False):
         
         # updates to user
         if MorTime >= LogTime:
-            logging.info('Time = %s, MorDt = %.1fs', MorTime, MorDt.seconds)
+            logging.info('Time = %s, MorDt = %.1fs', MorTime, MorDt.total_seconds())
             LogTime += OutputOpts['LogInt']
             
         # plotting
diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 75ccc14..b1de8c4 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -180,22 +180,22 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                            abs(OutletEndAggRate),
                            abs(OutletEndXMoveRate))
     
-    while MorDt.seconds > TimePars['MorDtMin'].seconds and MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
-        MorDt /= 2
-        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.seconds)
+    while MorDt.total_seconds() > TimePars['MorDtMin'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
+        MorDt = max(MorDt / 2, TimePars['MorDtMin'])
+        logging.debug('Decreasing morphological timestep to %.1fs', MorDt.total_seconds())
     
-    while MorDt.seconds < TimePars['MorDtMax'].seconds and MaxMorChangeRate * MorDt.seconds < NumericalPars['MaxMorChange']/2:
-        MorDt *= 2
-        logging.debug('Increasing morphological timestep to %.1fs', MorDt.seconds)
+    while MorDt.total_seconds() < TimePars['MorDtMax'].total_seconds() and MaxMorChangeRate * MorDt.total_seconds() < NumericalPars['MaxMorChange']/2:
+        MorDt = min(MorDt * 2, TimePars['MorDtMax'])
+        logging.debug('Increasing morphological timestep to %.1fs', MorDt.total_seconds())
     
     # If morphological change is going to exceed MaxMorChange despite adaptive timestepping then:
     #  1. issue warning
     #  2. limit change (while preserving sign) to prevent model blowing up (even though this may be at the expense of mass balance)
-    if MaxMorChangeRate * MorDt.seconds > NumericalPars['MaxMorChange']:
-        assert MorDt.seconds <= TimePars['MorDtMin'].seconds
+    if MaxMorChangeRate * MorDt.total_seconds() > NumericalPars['MaxMorChange']:
+        assert MorDt.total_seconds() <= TimePars['MorDtMin'].total_seconds()
         logging.warning('Max morphological change (%.3fm) exceeds "MaxMorChange (%.3fm)" but MorDt already at minimum. Limiting change to +/- %.3fm',
-                        MaxMorChangeRate * MorDt.seconds, NumericalPars['MaxMorChange'], NumericalPars['MaxMorChange'])
-        MorChangeRateLimit = NumericalPars['MaxMorChange'] / MorDt.seconds
+                        MaxMorChangeRate * MorDt.total_seconds(), NumericalPars['MaxMorChange'], NumericalPars['MaxMorChange'])
+        MorChangeRateLimit = NumericalPars['MaxMorChange'] / MorDt.total_seconds()
         RivBedAggRate = np.minimum(np.maximum(RivBedAggRate, -MorChangeRateLimit), MorChangeRateLimit)
         ShoreYChangeRate = np.minimum(np.maximum(ShoreYChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
         ShoreZChangeRate = np.minimum(np.maximum(ShoreZChangeRate, -MorChangeRateLimit), MorChangeRateLimit)
@@ -206,13 +206,13 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #%% Update morphology
         
     # note that += modifies variables in place so no need to explicitly return them!
-    RiverElev[1:] += RivBedAggRate * MorDt.seconds
-    ShoreZ += ShoreZChangeRate * MorDt.seconds
-    ShoreY += ShoreYChangeRate * MorDt.seconds
+    RiverElev[1:] += RivBedAggRate * MorDt.total_seconds()
+    ShoreZ += ShoreZChangeRate * MorDt.total_seconds()
+    ShoreY += ShoreYChangeRate * MorDt.total_seconds()
     if not Closed:
-        OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.seconds
-        OutletEndElev.flat[0] += OutletEndAggRate * MorDt.seconds
-        OutletEndX[1] += OutletEndXMoveRate * MorDt.seconds
+        OutletEndWidth.flat[0] += OutletEndWideningRate * MorDt.total_seconds()
+        OutletEndElev.flat[0] += OutletEndAggRate * MorDt.total_seconds()
+        OutletEndX[1] += OutletEndXMoveRate * MorDt.total_seconds()
     
     #%% 1. Check if outlet has extended too close to the edge of the domain
     if OutletEndX[1] < ShoreX[1]:
diff --git a/hapuamod/out.py b/hapuamod/out.py
index 94d1cad..093af2b 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -647,6 +647,6 @@ def writeTsOut(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['sed_inflow'][TimeIx] = SedInflow
     NcFile.variables['outlet_end_x'][TimeIx,:] = OutletEndX
     NcFile.variables['outlet_closed'][TimeIx] = Closed
-    NcFile.variables['mordt'][TimeIx] = MorDt.seconds
+    NcFile.variables['mordt'][TimeIx] = MorDt.total_seconds()
     
     NcFile.close()
\ No newline at end of file
diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 1dba573..35f2239 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -125,7 +125,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     Beta = NumericalPars['Beta']
     Tol = NumericalPars['ErrTol']
     MaxIt = NumericalPars['MaxIt']
-    dt = dt.seconds          # timestep for hydraulics [s]
+    dt = dt.total_seconds()          # timestep for hydraulics [s]
     N = z.size               # number of cross-sections
     S_0 = (z[:-1]-z[1:])/dx  # bed slope in each reach between XS [m/m]
     
-- 
2.43.0


From f1cce279152604767102ca3669e272d642ce16b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 03/44] fix: hold an outlet end which reaches the right edge at
 the right edge, not the left

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index b1de8c4..bd00281 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -220,7 +220,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         OutletEndX[1] = ShoreX[1]
     if OutletEndX[1] > ShoreX[-2]:
         logging.warning('Right (negative X) end of outlet channel too close to edge of domain - preventing further migration')
-        OutletEndX[1] = ShoreX[1]
+        OutletEndX[1] = ShoreX[-2]
     
     #%% 2. Check if shoreline has eroded into cliff anywhere
     CliffCollision = ShoreY[:,0] <= ShoreY[:,4]
-- 
2.43.0


From 498ca6be25af74621cbe118d4ccb5b0e4faf2c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 04/44] fix: right to left longshore supply to the outlet is a
 rate of shoreline change, not a displacement

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index bd00281..a86e6cb 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -149,8 +149,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             OutletEndXMoveRate += WidthReductionRate/2
         else:
             # Transport from R to L
-            ShoreY[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
-                                            / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
+            ShoreYChangeRate[OutletRbShoreIx-1,0] += (LST[OutletRbShoreIx-1] 
+                                                      / (ShorefaceHeight[OutletRbShoreIx-1] * Dx))
             WidthReductionRate = (-LST[OutletRbShoreIx-1]
                                   / ((PhysicalPars['BeachTopElev'] - OutletEndElev) * PhysicalPars['SpitWidth']))
             OutletEndWideningRate -= WidthReductionRate
-- 
2.43.0


From ecdc67f51324e93571df388cac484048bdce1114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 05/44] fix: do not raise the outer barrier crest to the inner
 crest when looking for overtopping breaches

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index a86e6cb..d39e188 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -598,7 +598,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #%% Check for overtopping breach 
     
     # Find the barrier height which has to be overtopped to cause a breach:
-    CrestHeight = ShoreZ[:,0] # default
+    CrestHeight = ShoreZ[:,0].copy() # default
     CrestHeight[OutletPresent] = np.amax(ShoreZ[OutletPresent,:][:,[0,2]], axis=1) # transects with active or relic channels (could be diconnected)
     CrestHeight[ConnectedChan] = ShoreZ[ConnectedChan,0] # transects with connected channels (active or relic)
     assert not np.any(np.isnan(CrestHeight)), 'NaN value(s) in CrestHeight at X = %s' % ShoreX[np.isnan(CrestHeight)]
-- 
2.43.0


From 0dcdf1fffa68495b69fcd318d789daa869a5734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 06/44] fix: do not use uninitialised memory for transects
 without an outlet channel

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index d39e188..7ebcf23 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -446,7 +446,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     #
     # Remove old outlet channel and preserve sediment mass balance
     
-    LagoonIntersect = ~np.greater(ShoreY[:,2], ShoreY[:,3], where=~np.isnan(ShoreY[:,1]))
+    LagoonIntersect = np.less_equal(ShoreY[:,2], ShoreY[:,3])
     if np.any(LagoonIntersect):
         for IntersectIx in np.where(LagoonIntersect)[0]:
             logging.info('Outlet intersects lagoon at X = %.1fm - adding channel width into lagoon' % 
@@ -516,7 +516,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     Breach = False
     BreachIx = np.nan
     
-    ShoreIntersect = ~np.greater(ShoreY[:,0], ShoreY[:,1], where=~np.isnan(ShoreY[:,1]))
+    ShoreIntersect = np.less_equal(ShoreY[:,0], ShoreY[:,1])
     if np.any(ShoreIntersect):
         # If lagoon closed then check if channel at any eroded location(s) is connected to lagoon via relic channel
         if Closed and np.any(ShoreIntersect[ConnectedChan]):
-- 
2.43.0


From dd4a1ebbe19eec7cc95e3aeb29aac669ccbd6de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 07/44] fix: remove the inner barrier along with an outlet
 channel merged into the lagoon

---
 hapuamod/mor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 7ebcf23..fa7340b 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -459,6 +459,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         ShoreY[LagoonIntersect, 1] = np.nan
         ShoreY[LagoonIntersect, 2] = np.nan
         ShoreZ[LagoonIntersect, 1] = np.nan
+        ShoreZ[LagoonIntersect, 2] = np.nan
+        OutletPresent[LagoonIntersect] = False
     
     #%% ID locations where existing or relic outlet channel is connected to lagoon
     # Also update WaterLevel variable to include outlet channel water level 
-- 
2.43.0


From 10af530bca57ec9aefe73444cbd2ace3ba73a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 08/44] fix: truncate right to left outlets at the most
 upstream breached transect (as for left to right)

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index fa7340b..386b44c 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -415,7 +415,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                                                        ShoreX <= OutletEndX[1]))[0]
             else:
                 # Outlet angles from R to L
-                OutletEndX[1] = ShoreX[TruncationIx[-1]] + Dx/2 
+                OutletEndX[1] = ShoreX[TruncationIx[0]] + Dx/2 
                 OutletChanIx = np.flipud(np.where(np.logical_and(OutletEndX[1] <= ShoreX,
                                                                  ShoreX <= OutletEndX[0]))[0])
     
-- 
2.43.0


From 2d3ba2720796458b3bfc6719e638f0c48d346f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 09/44] fix: move the lagoon end of the outlet past every
 transect truncated in the same timestep

---
 hapuamod/mor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 386b44c..5bbf1ef 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -356,10 +356,10 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             # Move the ustream end of the outlet channel
             if OutletEndX[0] < OutletEndX[1]:
                 # Outlet angles from L to R
-                OutletEndX[0] = ShoreX[TruncationIx[0] + 1]
+                OutletEndX[0] = ShoreX[TruncationIx[-1] + 1]
             else:
                 # Outlet angles from R to L
-                OutletEndX[0] = ShoreX[TruncationIx[0] - 1]
+                OutletEndX[0] = ShoreX[TruncationIx[-1] - 1]
             
             # Recompute OutletChanIx
             if OutletEndX[0] < OutletEndX[1]:
-- 
2.43.0


From 4c32965e934cb823607d8ecf917959471f5fc4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 10/44] fix: apply the closer-to-river rule for overtopping
 breaches when there are candidates (not when there are none)

---
 hapuamod/mor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 5bbf1ef..34d40af 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -629,7 +629,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                 PossBreachTsects.append(TsectIx)
         PossBreachTsects = np.array(PossBreachTsects)
         
-        if PossBreachTsects.size == 0 and not Closed:
+        if PossBreachTsects.size > 0 and not Closed:
             # If lagoon open then assume overtopping can only cause breach if it 
             # is closer to where river enters lagoon than existing outlet
             CloserToRiv = np.abs(ShoreX) < np.min(np.abs(OutletEndX))
-- 
2.43.0


From 59e8b2689b70e2054ce02630e5dc778d1df0c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 11/44] fix: count the offline lagoon on both sides of the
 river when only one lagoon transect is online

---
 hapuamod/riv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 35f2239..319e3c8 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -395,8 +395,8 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             OnlineLagoon = np.array([X0Ix])
             EndArea = np.nansum(LagoonWidth[ShoreX > OutletEndX[0]] * Dx)
             EndLen = np.nansum((LagoonWidth[ShoreX > OutletEndX[0]] > 0) * Dx)
-        StartArea = np.nansum(LagoonWidth[X0Ix+1:] * Dx)
-        StartLen = np.nansum((LagoonWidth[X0Ix+1:] > 0) * Dx)
+        StartArea = np.nansum(LagoonWidth[:X0Ix] * Dx)
+        StartLen = np.nansum((LagoonWidth[:X0Ix] > 0) * Dx)
     elif OutletEndX[0] > 0:
         # Outlet channel to right of river
         if Closed:
@@ -470,7 +470,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
                                     np.full(2, OutletEndWidth)])
     LagArea = np.zeros(ChanElev.size)
     LagArea[RiverElev.size] = StartArea
-    LagArea[RiverElev.size + OnlineLagoon.size - 1] = EndArea
+    LagArea[RiverElev.size + OnlineLagoon.size - 1] += EndArea
     LagLen = (ChanFlag==1) * Dx
     LagLen[RiverElev.size] += StartLen
     LagLen[RiverElev.size + OnlineLagoon.size - 1] += EndLen
-- 
2.43.0


From 1053653ae580193e4fadacfd5d13b8f26812fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 12/44] fix: no extra Dx of outlet length for right to left
 outlets ending exactly on a transect

---
 hapuamod/riv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 319e3c8..aa67f25 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -458,7 +458,7 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             ChanDx[-2] += OutletEndX[1] % Dx
         else:
             # Outlet from R to L
-            ChanDx[-2] += Dx - (OutletEndX[1] % Dx)
+            ChanDx[-2] += (-OutletEndX[1]) % Dx
         ChanFlag = np.concatenate([np.full(RiverElev.size, 0), 
                                    np.full(OnlineLagoon.size, 1), 
                                    np.full(OutletChanIx.size, 2), [3,4]])
-- 
2.43.0


From d2bde8527bcb4d678cc3e403c51bff0ca46dcd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 13/44] fix: return the steady fallback to the caller when the
 unsteady solution does not converge

---
 hapuamod/riv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index aa67f25..81d7935 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -301,7 +301,10 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
         
         if ItCount >= MaxIt:
             logging.warning('Max iterations exceeded in unsteady river hydraulics - reverting to steady solution for this timestep')
-            (h, V) = solveSteady(dx, z, B, n, Q_Ts[-1], DsWl_Ts[-1], NumericalPars)
+            # Update h & V in place so calling function gets the steady solution
+            (h[:], V[:]) = solveSteady(dx, z, B, n, Q, DsWl, NumericalPars)
+            Sf = V*np.abs(V) * (n**2) / (h**(4/3))
+            A = h*B
 
 def assembleChannel(ShoreX, ShoreY, ShoreZ, 
                     OutletEndX, OutletEndWidth, OutletEndElev, 
-- 
2.43.0


From 4cd9c8c02df456314fac31350bb1c603c2ddd77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 14/44] fix: no longshore transport on shore segments the waves
 do not reach

---
 hapuamod/coast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/coast.py b/hapuamod/coast.py
index 2da6eab..ec72221 100644
--- a/hapuamod/coast.py
+++ b/hapuamod/coast.py
@@ -75,7 +75,7 @@ def longShoreTransport(ShoreY, Dx, WavePower, WavePeriod, Wlen_h, EDir_h, Physic
     # sin(alpha_b)/sin(alpha_h) = C_b/C_h
     BreakerAngle = np.arcsin(np.sin(LocalEDir_h) * (C_b / C_h))
     
-    LST = - PhysicalPars['K2coef'] * WavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
+    LST = - PhysicalPars['K2coef'] * LocalWavePower * np.cos(LocalEDir_h) * np.sin(BreakerAngle)
     
     return LST
 
-- 
2.43.0


From 6819c8c57b221d7be9fc86a01326719eda78b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 15/44] fix: shotNoise fractional days between events and
 default (first order) parameters

---
 hapuamod/synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 848b7db..2f640eb 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -92,7 +92,9 @@ def shotNoise(StartDate, EndDate, OutputInt,
     r = random.Random(RandomSeed)
     
     # Calculation additional (derived) input parameters
-    EventRate = 1/MeanTimeBetweenEvents.days
+    if DecayRate2 is None:
+        DecayRate2 = DecayRate1
+    EventRate = pd.Timedelta(days=1) / MeanTimeBetweenEvents
     PropRate2 = 1-PropRate1
     Rate1Vals = [MeanEventIncrease * (PropRate1 / DecayRate1) * EventRate]
     Rate2Vals = [MeanEventIncrease * (PropRate2 / DecayRate2) * EventRate]
-- 
2.43.0


From af47e7d7a78f5d5d215eb568376bca7862dc21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 16/44] fix: no missing values in shotNoise timeseries during
 rising limbs

---
 hapuamod/synth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 2f640eb..205e4b7 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -158,7 +158,7 @@ def shotNoise(StartDate, EndDate, OutputInt,
         # EventList = EventList.append(pd.Series([EventSize], index = pd.DatetimeIndex([LastEventTime])))
     
     # Resample the output timeseries and clip
-    OutputTs = OutputTs.resample(OutputInt).mean()
+    OutputTs = OutputTs.resample(OutputInt).mean().interpolate(method='time')
     OutputTs = OutputTs.loc[:EndDate]    
     
     return OutputTs
-- 
2.43.0


From f3aa986d5f8d20ce02e1308518cea98c02548312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 17/44] fix: closestTimeIx (and so hotstart) with netCDF4
 versions which return cftime objects

---
 hapuamod/out.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 093af2b..099b184 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -506,7 +506,8 @@ def closestTimeIx(NcFile, DatetimeOfInterest):
         TimeIx = closestTimeIx(NcFile, DatetimeOfInterest)
     """
     NetCdfTimes = NcFile.variables['time'][:]
-    OutputTimes = pd.to_datetime(netCDF4.num2date(NetCdfTimes, NcFile.variables['time'].units))
+    OutputTimes = pd.to_datetime(netCDF4.num2date(NetCdfTimes, NcFile.variables['time'].units,
+                                                  only_use_cftime_datetimes=False))
     
     TimeDiffs = abs(OutputTimes - DatetimeOfInterest)
     TimeIx = np.where(TimeDiffs==min(TimeDiffs))[0]
-- 
2.43.0


From 205b14fe76e6eb51437daf4b34a124247f487ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 18/44] fix: wave_dir output is in radians

---
 hapuamod/out.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 099b184..01a1067 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -138,7 +138,7 @@ def newOutFile(FileName, ModelName, StartTime,
     
     WaveDirVar = NcFile.createVariable('wave_dir', np.float32, 
                                        (TimeDim.name,))
-    WaveDirVar.units = 'degrees'
+    WaveDirVar.units = 'radians'
     WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth)'
     
     #%% create shore-transect data variables
@@ -575,7 +575,7 @@ def newTsOutFile(FileName, ModelName, StartTime, Overwrite=False):
     # wave direction boundary condition
     WaveDirVar = NcFile.createVariable('wave_dir', np.float32, 
                                        (TimeDim.name,))
-    WaveDirVar.units = 'degrees'
+    WaveDirVar.units = 'radians'
     WaveDirVar.long_name = 'Direction of wave energy at model input point (depth=WaveDataDepth)'
     
     #%% create other timeseries variables
-- 
2.43.0


From b70bbf1d1a74c40026bdf04f0536177700a91e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 19/44] fix: write outlet_end_bedload to the output file

---
 hapuamod/core.py | 2 +-
 hapuamod/out.py  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index 1e4a03e..1c2ba09 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -70,7 +70,7 @@ def main(ModelConfigFile, Overwrite=False):
                      np.zeros(ShoreX.size-1), np.zeros(ShoreX.size), np.zeros(ShoreX.size), 
                      RiverElev, ChanDep[ChanFlag==0], ChanVel[ChanFlag==0], np.zeros(RiverElev.size),
                      OutletEndX, OutletEndElev, OutletEndWidth, 
-                     OutletEndDep, OutletEndVel, np.zeros(2), Closed)
+                     OutletEndDep, OutletEndVel, 0.0, Closed)
     
     out.newTsOutFile(OutputOpts['TsOutFile'], ModelName, 
                      TimePars['StartTime'], Overwrite)
diff --git a/hapuamod/out.py b/hapuamod/out.py
index 01a1067..1bc1127 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -403,6 +403,7 @@ def writeCurrent(FileName, CurrentTime, SeaLevel, RivFlow, Hs_offshore, EDir_h,
     NcFile.variables['outlet_end_z'][TimeIx] = OutletEndElev
     NcFile.variables['outlet_end_wl'][TimeIx] = OutletEndElev + OutletEndDep[0]
     NcFile.variables['outlet_end_vel'][TimeIx] = OutletEndVel[0]
+    NcFile.variables['outlet_end_bedload'][TimeIx] = OutletEndBedload
     NcFile.variables['dummy_xs_dep'][TimeIx] = OutletEndDep[1]
     NcFile.variables['dummy_xs_vel'][TimeIx] = OutletEndVel[1]
     NcFile.variables['outlet_closed'][TimeIx] = Closed
-- 
2.43.0


From 0ddc43bb8efbff518c33c85ff784b5f8647c7026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:51 +0000
Subject: [PATCH 20/44] fix: position of an initial outlet which does not cross
 any transects

---
 hapuamod/loadmod.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index d7d8304..14f93c9 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -520,10 +520,10 @@ def loadModel(ModelConfigFile):
         if np.all(np.logical_not(OutletMask)):
             # Handle special case that outlet is straight out and didn't intersect any transects
             if OutletToR:
-                OutletEndX[0] = Dx * (np.mean(OutletCoords2[:,1])//Dx)
+                OutletEndX[0] = Dx * (np.mean(OutletCoords2[:,0])//Dx)
                 OutletEndX[1] = OutletEndX[0] + Dx/2
             else:
-                OutletEndX[0] = Dx * ((np.mean(OutletCoords2[:,1])//Dx) + 1)
+                OutletEndX[0] = Dx * ((np.mean(OutletCoords2[:,0])//Dx) + 1)
                 OutletEndX[1] = OutletEndX[0] - Dx/2
             
             OutletMask = ShoreX == OutletEndX[0]
@@ -531,7 +531,7 @@ def loadModel(ModelConfigFile):
             ShoreY[OutletMask,1] = min(ShoreY[OutletMask,0] - PhysicalPars['SpitWidth'], 
                                        (ShoreY[OutletMask,0] + ShoreY[OutletMask,3])/2 + IniCond['OutletWidth']/2)
             ShoreY[OutletMask,2] = ShoreY[OutletMask,1] - IniCond['OutletWidth']
-            ShoreY[OutletMask,3] = min(ShoreY[OutletMask,2] + 0.001, ShoreY[OutletMask,3])
+            ShoreY[OutletMask,3] = min(ShoreY[OutletMask,2] - 0.001, ShoreY[OutletMask,3])
         else:
             if OutletToR:
                 # Outlet angles from L to R
-- 
2.43.0


From eca4af980141a9d1bf15b815995cd784b96a7fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 21/44] fix: side of the baseline the land is on

Compare the river inflow location with the baseline (rather than the
baseline northing with zero) so the model is orientated correctly where
land is to the south of the shoreline.
---
 hapuamod/loadmod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 14f93c9..08944c6 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -438,7 +438,7 @@ def loadModel(ModelConfigFile):
                       (InflowCoord[0]/Baseline[0]) - Baseline[1]) / 
                      (Baseline[0] + 1/Baseline[0]))
         Origin[1] = Origin[0] * Baseline[0] + Baseline[1]
-        if ((InflowCoord[0] * Baseline[0] + Baseline[1])>0):
+        if InflowCoord[1] > (InflowCoord[0] * Baseline[0] + Baseline[1]):
             # land is to north of baseline
             ShoreNormDir = math.atan2(Baseline[0],-1)
         else:
-- 
2.43.0


From 9f14762f5b6726b1bc6dcd7a176cb6214495cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:57 +0000
Subject: [PATCH 22/44] fix: model origin for an east-west shoreline

Same perpendicular foot point, without dividing by the baseline slope.
---
 hapuamod/loadmod.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 08944c6..60a31b5 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -434,9 +434,9 @@ def loadModel(ModelConfigFile):
         
         # Defin origin point on baseline (in line with river inflow)
         Origin = np.empty(2)
-        Origin[0] = ((InflowCoord[1] + 
-                      (InflowCoord[0]/Baseline[0]) - Baseline[1]) / 
-                     (Baseline[0] + 1/Baseline[0]))
+        Origin[0] = ((InflowCoord[0] + 
+                      (InflowCoord[1] - Baseline[1]) * Baseline[0]) / 
+                     (1 + Baseline[0]**2))
         Origin[1] = Origin[0] * Baseline[0] + Baseline[1]
         if InflowCoord[1] > (InflowCoord[0] * Baseline[0] + Baseline[1]):
             # land is to north of baseline
-- 
2.43.0


From 358b21a46fda01fe75ff0baeccc3ce21ff353c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:57 +0000
Subject: [PATCH 23/44] fix: include lagoon at upstream end of outlet channel
 in offline storage

---
 hapuamod/riv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 81d7935..7a3df2b 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -408,8 +408,8 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             EndLen = 0
         else:
             OnlineLagoon = np.arange(X0Ix, np.where(ShoreX < OutletEndX[0])[0][-1] + 1)
-            EndArea = np.nansum(LagoonWidth[ShoreX > OutletEndX[0]] * Dx)
-            EndLen = np.nansum((LagoonWidth[ShoreX > OutletEndX[0]] > 0) * Dx)
+            EndArea = np.nansum(LagoonWidth[ShoreX >= OutletEndX[0]] * Dx)
+            EndLen = np.nansum((LagoonWidth[ShoreX >= OutletEndX[0]] > 0) * Dx)
         StartArea = np.nansum(LagoonWidth[:X0Ix] * Dx)
         StartLen = np.nansum((LagoonWidth[:X0Ix] > 0) * Dx)
     else:
@@ -420,8 +420,8 @@ def assembleChannel(ShoreX, ShoreY, ShoreZ,
             EndLen = 0
         else:
             OnlineLagoon = np.arange(X0Ix, np.where(ShoreX > OutletEndX[0])[0][0] - 1, -1)
-            EndArea = np.nansum(LagoonWidth[ShoreX < OutletEndX[0]] * Dx)
-            EndLen = np.nansum((LagoonWidth[ShoreX < OutletEndX[0]] > 0) * Dx)
+            EndArea = np.nansum(LagoonWidth[ShoreX <= OutletEndX[0]] * Dx)
+            EndLen = np.nansum((LagoonWidth[ShoreX <= OutletEndX[0]] > 0) * Dx)
         StartArea = np.nansum(LagoonWidth[X0Ix+1:] * Dx)
         StartLen = np.nansum((LagoonWidth[X0Ix+1:] > 0) * Dx)
     
-- 
2.43.0


From cac59d0365c26bffb61a9917de26b0df6bbdaff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:57 +0000
Subject: [PATCH 24/44] fix: offline storage attached to the end cross-sections

The first and last cross-sections represent half a reach, so storage
attached to the last cross-section (closed lagoon) was halved.
---
 hapuamod/riv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index 7a3df2b..acc46fd 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -135,9 +135,9 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
     
     # Calculate effective width of each XS for volume change i.e. total planform area/reach length. 
     dx2 = np.zeros(z.size)
-    dx2[0] = dx[0]
+    dx2[0] = dx[0]/2
     dx2[1:-1] = (dx[:-1]+dx[1:])/2
-    dx2[-1] = dx[-1]
+    dx2[-1] = dx[-1]/2
     Be = B + LagArea/dx2
     
     # Calculate ratio of length over which seepage occurs, to length of reach, for each reach
-- 
2.43.0


From 61e94b5982b9169417b6a19d188023726fad68a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:02 +0000
Subject: [PATCH 25/44] fix: Newton derivative of the momentum advection term
 uses |V|

---
 hapuamod/riv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/riv.py b/hapuamod/riv.py
index acc46fd..a05aeee 100644
--- a/hapuamod/riv.py
+++ b/hapuamod/riv.py
@@ -242,7 +242,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
                                                   - g_dt_Theta*B[:-1]*(S_0+(1/3)*Sf[:-1]))
             # d/dV[0]
             a_banded[3,np.arange(1,2*(N)-2,2)] = (A[:-1] 
-                                                  - 4*Beta*dtdx*Theta*V[:-1]*A[:-1] 
+                                                  - 4*Beta*dtdx*Theta*np.abs(V[:-1])*A[:-1] 
                                                   + 2*g_dt_Theta*A[:-1]*Sf[:-1]/V[:-1])
             # d/dh[1]
             a_banded[2,np.arange(2,2*(N),2)]   = (V[1:]*B[1:] 
@@ -251,7 +251,7 @@ def solveFullPreissmann(z, B, LagArea, LagLen, Closed, h, V,
                                                   - g_dt_Theta*B[1:]*(S_0+(1/3)*Sf[1:]))
             # d/dV[1]
             a_banded[1,np.arange(3,2*(N),2)]   = (A[1:] 
-                                                  + 4*Beta*dtdx*Theta*V[1:]*A[1:] 
+                                                  + 4*Beta*dtdx*Theta*np.abs(V[1:])*A[1:] 
                                                   + 2*g_dt_Theta*A[1:]*Sf[1:]/V[1:])
             
             # Ds Bdy condition derivatives
-- 
2.43.0


From 712458937bb79c5a7a58939df290e1b95a75ccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:48 +0000
Subject: [PATCH 26/44] fix: filled channel with no barrier left behind it no
 longer stops the model

---
 hapuamod/mor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 34d40af..2b040f1 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -250,8 +250,9 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
         PutSedAtFront = VolUntilLevel >= 0.0
         PutSedAtBack = VolUntilLevel < 0.0
         VolUntilLevel[PutSedAtFront] *= CrestWidth[NegativeOutletWidth][PutSedAtFront]
-        VolUntilLevel[PutSedAtBack] *= -(ShoreY[NegativeOutletWidth,2][PutSedAtBack] - 
-                                         ShoreY[NegativeOutletWidth,3][PutSedAtBack])
+        # (no room at the back where the lagoon has reached the outlet channel in the same timestep)
+        VolUntilLevel[PutSedAtBack] *= -np.maximum(ShoreY[NegativeOutletWidth,2][PutSedAtBack] - 
+                                                   ShoreY[NegativeOutletWidth,3][PutSedAtBack], 0.0)
         assert np.all(VolUntilLevel >= 0.0), "Vol until level should not be negative"
         LeveledSections = VolToMove > VolUntilLevel
         PutSedAtFront[LeveledSections] = False
-- 
2.43.0


From d26a2dfcebd2953452b307e872a3d279d40d03ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:04 +0000
Subject: [PATCH 27/44] fix: sea and lagoon truncating the outlet in the same
 timestep leave one outlet transect

---
 hapuamod/mor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 2b040f1..8710947 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -402,6 +402,16 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
                 ShoreZ[LagExtension,1] = np.nan
                 ShoreZ[LagExtension,2] = np.nan
                 OutletPresent[LagExtension] = False
+            
+            # The outlet channel now starts at another transect, which must not be truncated by the sea either (as in check 5)
+            if not Closed and ShoreY[OutletChanIx[0],1] >= ShoreY[OutletChanIx[0],0]:
+                logging.info('Preventing seaward truncation at X = %.1fm as it would result in a length 0 outlet channel' % 
+                             ShoreX[OutletChanIx[0]])
+                ShoreShiftDist = 0.001 + (ShoreY[OutletChanIx[0],1] - ShoreY[OutletChanIx[0],0])
+                ShoreY[OutletChanIx[0],1] -= ShoreShiftDist
+                ShoreY[OutletChanIx[0],2] -= (ShoreShiftDist * 
+                                              (ShoreZ[OutletChanIx[0],0] - ShoreZ[OutletChanIx[0],1]) /
+                                              (ShoreZ[OutletChanIx[0],2] - ShoreZ[OutletChanIx[0],1]))
     
     # 7. Check for truncation of seaward end of outlet channel
     if OutletChanIx.size > 1:
-- 
2.43.0


From 51b54bb88cce5cd0e5b25b11904ec05a540f3e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:01 +0000
Subject: [PATCH 28/44] fix: breach on a connected outlet channel truncates the
 outlet (and re-opens it when closed)

---
 hapuamod/mor.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index 8710947..d3affe8 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -539,7 +539,7 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             PossBreachTsects = np.where(np.logical_and(ShoreIntersect, ConnectedChan))[0]
             ChanLength = np.abs(ShoreX[PossBreachTsects] - OutletEndX[0])
             BreachIx = PossBreachTsects[np.argmin(ChanLength)]
-            ShoreIntersect = ShoreIntersect[ShoreIntersect!=BreachIx]
+            ShoreIntersect[BreachIx] = False
     
         # Adjust ShoreY where outlet banks intersects coast or lagoon    
         for IntersectIx in np.where(ShoreIntersect)[0]:
@@ -664,11 +664,25 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
     
     #%% Create breach if one has been triggered
     if Breach:
-        if BreachIx in ConnectedChan:
+        # Assume breach width equals the bigger of current outlet end width and 2 times the outlet width for closure
+        OutletEndWidth.flat[0] = max(OutletEndWidth, 2*PhysicalPars['MinOutletWidth'])
+        
+        # Assume outlet end bed level is the lower of the current outlet end bed level, or the MaxOutletElev
+        OutletEndElev.flat[0] = min(OutletEndElev, PhysicalPars['MaxOutletElev'])
+        
+        if ConnectedChan[BreachIx]:
             # Outlet truncation breach
             logging.info('Breach on pre-existing outlet channel at X = %.1fm' % ShoreX[BreachIx])
             OutletEndX[1] = ShoreX[BreachIx]
             # TODO: close sediment balance by putting breach eroded sed onto shore
+            
+            # The outlet channel has to keep clear of the shoreline at the transect it now ends at
+            if ShoreY[BreachIx,1] >= ShoreY[BreachIx,0]:
+                ShoreShiftDist = 0.001 + (ShoreY[BreachIx,1] - ShoreY[BreachIx,0])
+                ShoreY[BreachIx,1] -= ShoreShiftDist
+                ShoreY[BreachIx,2] -= (ShoreShiftDist * 
+                                       (ShoreZ[BreachIx,0] - ShoreZ[BreachIx,1]) /
+                                       (ShoreZ[BreachIx,2] - ShoreZ[BreachIx,1]))
         else:
             # Lagoon breach (i.e. new outlet channel)
             logging.info('Breach/creation of new outlet channel at X = %.1fm' % ShoreX[BreachIx])
@@ -676,23 +690,19 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             OutletEndX[:] = ShoreX[BreachIx]
             ShoreZ[BreachIx, 2] = ShoreZ[BreachIx, 0]
             
-            # Assume breach width equals the bigger of current outlet end width and 2 times the outlet width for closure
-            OutletEndWidth.flat[0] = max(OutletEndWidth, 2*PhysicalPars['MinOutletWidth'])
             ShoreY[BreachIx,1] = min(ShoreY[BreachIx,0]-PhysicalPars['SpitWidth'],
                                      (ShoreY[BreachIx,0]+ShoreY[BreachIx,3])/2 + OutletEndWidth/2)
             ShoreY[BreachIx,2] = ShoreY[BreachIx,1] - OutletEndWidth
             
-            # Assume outlet end bed level is the lower of the current outlet end bed level, or the MaxOutletElev
-            OutletEndElev.flat[0] = min(OutletEndElev, PhysicalPars['MaxOutletElev'])
             ShoreZ[BreachIx,1] = 0.5 * OutletEndElev + 0.5 * ShoreZ[BreachIx,3]
-            
-            # Check the newly created outlet channel fits into the barrier...
-            if ShoreY[BreachIx,3] >= ShoreY[BreachIx,2]:
-                logging.warning('barrier widened to fit breach outlet channel')
-                ShoreY[BreachIx,3] = ShoreY[BreachIx,2] - 0.001
-            if ShoreY[BreachIx,4] >= ShoreY[BreachIx,2]:
-                logging.warning('cliff retreated to fit breach outlet channel')
-                ShoreY[BreachIx,4] = ShoreY[BreachIx,2] - 0.001
+        
+        # Check the outlet channel fits into the barrier...
+        if ShoreY[BreachIx,3] >= ShoreY[BreachIx,2]:
+            logging.warning('barrier widened to fit breach outlet channel')
+            ShoreY[BreachIx,3] = ShoreY[BreachIx,2] - 0.001
+        if ShoreY[BreachIx,4] >= ShoreY[BreachIx,2]:
+            logging.warning('cliff retreated to fit breach outlet channel')
+            ShoreY[BreachIx,4] = ShoreY[BreachIx,2] - 0.001
     
     #%% Prevent lagoon closure at X=0 (where river enters)
     # This ensures there is always one viable cross-section in the lagoon
-- 
2.43.0


From 0631ec628348dfee62cd9a592c62d195614a087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:01 +0000
Subject: [PATCH 29/44] fix: extend lagoon along truncated outlet only where
 there is an outlet channel

---
 hapuamod/mor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hapuamod/mor.py b/hapuamod/mor.py
index d3affe8..ba9a56d 100644
--- a/hapuamod/mor.py
+++ b/hapuamod/mor.py
@@ -393,6 +393,8 @@ def updateMorphology(ShoreX, ShoreY, ShoreZ,
             
             if Extend:
                 logging.info('Schematisation requires removal of any remaining gravel between new lagoon and cliff-toe as part of extension')
+                # (only where there is an outlet channel to convert)
+                LagExtension = LagExtension[~np.isnan(ShoreY[LagExtension,1])]
                 # Convert outlet channel to lagoon
                 ShoreY[LagExtension,3] = ShoreY[LagExtension,1]
                 ShoreZ[LagExtension,3] = ShoreZ[LagExtension,1]
-- 
2.43.0


From f3ccc8d2e475e765127a16cd86ab90d80481d84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:52 +0000
Subject: [PATCH 30/44] fix: wave direction read back from the output file
 instead of zero

---
 hapuamod/out.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 1bc1127..75a50c2 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -474,7 +474,6 @@ def readTimestep(NcFile, TimeIx):
     Closed = bool(NcFile.variables['outlet_closed'][TimeIx])
     
     WavePower=None
-    EDir_h=0
     LST = NcFile.variables['lst'][TimeIx,:] / 3600
     CST = NcFile.variables['cst'][TimeIx,:] / 3600
     
-- 
2.43.0


From 5368e27ad3acf7725d2fb2bb1daf20426b5f109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:04 +0000
Subject: [PATCH 31/44] fix: hot start from a time midway between two output
 records uses one of them

---
 hapuamod/out.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/out.py b/hapuamod/out.py
index 75a50c2..05f9ce8 100644
--- a/hapuamod/out.py
+++ b/hapuamod/out.py
@@ -510,7 +510,7 @@ def closestTimeIx(NcFile, DatetimeOfInterest):
                                                   only_use_cftime_datetimes=False))
     
     TimeDiffs = abs(OutputTimes - DatetimeOfInterest)
-    TimeIx = np.where(TimeDiffs==min(TimeDiffs))[0]
+    TimeIx = np.where(TimeDiffs==min(TimeDiffs))[0][:1]
     ClosestTime = OutputTimes[TimeIx].to_pydatetime()[0]
     
     return (TimeIx, ClosestTime)
-- 
2.43.0


From 4b5b98e1d0fac05eee56ae1e38a09b0c1af6fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:32 +0000
Subject: [PATCH 32/44] fix: outlet re-opened by a breach is recorded as open

---
 hapuamod/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hapuamod/core.py b/hapuamod/core.py
index 1c2ba09..2f9549b 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -204,14 +204,14 @@ def main(ModelConfigFile, Overwrite=False):
                              LST, CST_tot, OverwashProp,
                              RiverElev, ChanDep[ChanFlag==0], ChanVel[ChanFlag==0], Bedload[ChanFlag[:-1]==0],
                              OutletEndX, OutletEndElev, OutletEndWidth, 
-                             OutletEndDep, OutletEndVel, OutletEndBedload, Closed)
+                             OutletEndDep, OutletEndVel, OutletEndBedload, Closed and not Breach)
             OutTime += OutputOpts['OutInt']
         
         if MorTime >= TsOutTime:
             out.writeTsOut(OutputOpts['TsOutFile'], MorTime, 
                            SeaLevel[-1], RivFlow[-1], Hs_offshore, EDir_h, 
                            np.nanmean(LagoonWL), ChanDep[-1]*ChanVel[-1]*ChanWidth[-1], 
-                           Bedload[0], OutletEndX, Closed, MorDt)
+                           Bedload[0], OutletEndX, Closed and not Breach, MorDt)
             TsOutTime += OutputOpts['TsOutInt']
         
         # updates to user
-- 
2.43.0


From 0dba89419145a5a550706d3b92b5fe78388a5bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 33/44] fix: harmonic tide covers simulations which are not a
 multiple of its interval

The last sample was before the end of the simulation unless the duration was
a multiple of SeaLevelDt, and loadModel refused to run.
---
 hapuamod/synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index 205e4b7..e37b443 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -197,7 +197,9 @@ def harmonicTide(StartDate, EndDate, OutputInt, MeanSeaLevel, TidalRange):
     """
     TidePeriod = (12*60 + 25.2) * 60 # in seconds
     
-    OutputTimes = pd.date_range(start=StartDate, end=EndDate, freq=OutputInt)
+    # (last time is the first one which is not before EndDate)
+    OutputTimes = pd.date_range(start=StartDate, freq=OutputInt, 
+                                periods=math.ceil((EndDate - StartDate) / OutputInt) + 1)
     OutputVals = (MeanSeaLevel + (TidalRange / 2) * 
                   np.sin(((OutputTimes - StartDate).total_seconds() / TidePeriod) * 2*np.pi))
     
-- 
2.43.0


From 47a45afeebcf8f675e55f5347a3b3a73a2496b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 34/44] fix: shot noise hydrograph covers the end of the
 simulation

The last sample was before the end of the simulation unless it fell on a
multiple of HydrographDt, and loadModel refused to run.
---
 hapuamod/synth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hapuamod/synth.py b/hapuamod/synth.py
index e37b443..ac44ce4 100644
--- a/hapuamod/synth.py
+++ b/hapuamod/synth.py
@@ -111,7 +111,7 @@ def shotNoise(StartDate, EndDate, OutputInt,
     OutputTs = EventList.copy()
     
     LastEventTime = StartDate
-    while LastEventTime < EndDate:
+    while LastEventTime < EndDate + OutputInt:
         # Get the (random) parameters of the next event
         GapLength = pd.Timedelta(days = -math.log(r.random()) / EventRate)
         EventSize = -MeanEventIncrease * math.log(1 - r.random())
@@ -159,7 +159,8 @@ def shotNoise(StartDate, EndDate, OutputInt,
     
     # Resample the output timeseries and clip
     OutputTs = OutputTs.resample(OutputInt).mean().interpolate(method='time')
-    OutputTs = OutputTs.loc[:EndDate]    
+    # (last time is the first one which is not before EndDate)
+    OutputTs = OutputTs[OutputTs.index < EndDate + OutputInt]
     
     return OutputTs
 
-- 
2.43.0


From 3cde81d8187f3332448bd4e826d798465c478d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:37 +0000
Subject: [PATCH 35/44] fix: there is a transect in line with the river for
 every transect spacing

---
 hapuamod/loadmod.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 60a31b5..baa3198 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -336,8 +336,9 @@ def loadModel(ModelConfigFile):
         ShoreNormDir = 0.0
         
         # Create key shore parrallel variables
-        ShoreX = np.arange(math.floor(-Config['SpatialInputs']['ShorelineLengthLeft']/Dx)*Dx, 
-                           Config['SpatialInputs']['ShorelineLengthRight'] + Dx, Dx)
+        # (whole multiples of Dx so there is a transect at X = 0)
+        ShoreX = Dx * np.arange(math.floor(-Config['SpatialInputs']['ShorelineLengthLeft']/Dx), 
+                                math.ceil(Config['SpatialInputs']['ShorelineLengthRight']/Dx + 1))
         ShoreY = np.full([ShoreX.size, 5], np.nan)
         ShoreZ = np.full([ShoreX.size, 4], np.nan)
         
@@ -455,8 +456,9 @@ def loadModel(ModelConfigFile):
         assert np.all(np.diff(IniShoreCoords2[:,0]) > 0), 'Shoreline includes recurvature incompatible with model coordinate system'
         
         # Discretise shoreline at fixed intervals in model coordinate system
-        ShoreX = np.arange(math.ceil(IniShoreCoords2[0,0]/Dx)*Dx, 
-                           IniShoreCoords2[-1,0], Dx)
+        # (whole multiples of Dx so there is a transect at X = 0)
+        ShoreX = Dx * np.arange(math.ceil(IniShoreCoords2[0,0]/Dx), 
+                                math.ceil(IniShoreCoords2[-1,0]/Dx))
         ShoreY = np.full([ShoreX.size, 5], np.nan)
         ShoreZ = np.full([ShoreX.size, 4], np.nan)
         
-- 
2.43.0


From ca023a081d8023a956c1dd4c30a37452d9d97165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:37 +0000
Subject: [PATCH 36/44] fix: hot start is not refused for transect spacings
 which are not exact in single precision

---
 hapuamod/loadmod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index baa3198..077946e 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -322,7 +322,8 @@ def loadModel(ModelConfigFile):
         
         Origin = np.array([NcFile.ModelOriginX, NcFile.ModelOriginY])
         ShoreNormDir = np.deg2rad(NcFile.ModelOrientation)
-        assert ShoreX[1] - ShoreX[0] == Dx, 'Dx specified in model config file must match hotstart file'
+        # (coordinates in hotstart file are single precision)
+        assert np.isclose(ShoreX[1] - ShoreX[0], Dx, rtol=0.001), 'Dx specified in model config file must match hotstart file'
         
     elif Config['SpatialInputs']['Shoreline'] is None:
         #%% Initialise model with default straight shoreline etc
-- 
2.43.0


From 26b0ed8f8e5ad669cbea7ef87bc327f246a358e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 37/44] fix: length of the river upstream does not depend on
 rounding, flat river does not stop the model

---
 hapuamod/loadmod.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hapuamod/loadmod.py b/hapuamod/loadmod.py
index 077946e..3cdafc4 100644
--- a/hapuamod/loadmod.py
+++ b/hapuamod/loadmod.py
@@ -291,11 +291,9 @@ def loadModel(ModelConfigFile):
         IniCond = Config['InitialConditions']
         
         #%% Initialise river variables
-        RiverElev = np.flipud(np.arange(IniCond['LagoonBed'],
-                                        IniCond['LagoonBed']
-                                        + PhysicalPars['RiverSlope']
-                                        * PhysicalPars['UpstreamLength'],
-                                        PhysicalPars['RiverSlope'] * Dx))
+        RiverElev = np.flipud(IniCond['LagoonBed']
+                              + PhysicalPars['RiverSlope'] * Dx
+                              * np.arange(math.ceil(PhysicalPars['UpstreamLength'] / Dx)))
     
     #%% Read/initialise spatial inputs
     if Config['HotStart']['InitialConditionsNetCDF'] is not None:
-- 
2.43.0


From e2c17263ef778f1f05e48b15e92e551c1d062bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 38/44] fix: plotting a closed lagoon does not stop the model

---
 hapuamod/visualise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index 49ea3e8..fa1946b 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -241,14 +241,14 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
     
     if Closed:
         # Outlet plotting position
-        OutletX = np.nan
-        OutletY = np.nan
+        OutletX = [np.nan]
+        OutletY = [np.nan]
         
         # Shoreline
         ShoreLineX = ShoreX
         ShoreLineY = ShoreY[:,0]
-        ShoreDotsX = np.nan
-        ShoreDotsY = np.nan
+        ShoreDotsX = [np.nan]
+        ShoreDotsY = [np.nan]
         
         # BarrierBackshore
         LagoonLineX = ShoreX
-- 
2.43.0


From ec7aae1345b6c62a244acc1461286202fbc139c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:04 +0000
Subject: [PATCH 39/44] fix: left bank of outlets running to the right is drawn
 where it is

---
 hapuamod/visualise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index fa1946b..1ea056d 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -344,7 +344,7 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
                                    np.NaN, # Extra point
                                    np.interp(OutletDsRbX, ShoreX, ShoreY[:,0])])
             OutletRbY[-2] = (OutletRbY[-1]-SpitWidth + OutletRbY[-3])/2
-            OutletLbY[-3] = np.min(OutletRbY[[-1,-3]])
+            OutletRbY[-3] = np.min(OutletRbY[[-1,-3]])
         else:
             # Outlet right bank angles R to L
             R_Ok = ShoreX[OutletChanIx] > OutletDsRbX
-- 
2.43.0


From 7b70cafa3219d75b1dbb57798a1372e89786e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:04 +0000
Subject: [PATCH 40/44] fix: hatching of the cliff to the right of the river
 ends at the cliff

---
 hapuamod/visualise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index 1ea056d..b08ecdf 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -223,7 +223,7 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
                              np.flipud(RiverLbY),   # River LB
                              -5000.0, CliffToLY[0], # LH Edge of domain
                              np.nan,                # Break to separate L and R polygons
-                             CliffToRX[-1],-5000.0, # RH Edge of domain
+                             CliffToRY[-1],-5000.0, # RH Edge of domain
                              RiverRbY,              # River RB
                              CliffToRY])            # Cliff RHS
     
-- 
2.43.0


From 2107d8b11ea209d3c17a72f7a54ee3c83530301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:04 +0000
Subject: [PATCH 41/44] fix: plotting an outlet which does not cross any
 transects does not stop the model

---
 hapuamod/visualise.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index b08ecdf..36c3f2b 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -284,7 +284,10 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
         LagoonLeftEndX = np.min(ShoreX[LagoonPresent]) - Dx
         LagoonRightEndX = np.max(ShoreX[LagoonPresent]) + Dx
         
-        UsOutletEndWidth = ShoreY[OutletChanIx[0],1] - ShoreY[OutletChanIx[0],2]
+        if len(OutletChanIx) > 0:
+            UsOutletEndWidth = ShoreY[OutletChanIx[0],1] - ShoreY[OutletChanIx[0],2]
+        else:
+            UsOutletEndWidth = OutletEndWidth
         OutletUsLbPlotX = max(OutletEndX[0] - UsOutletEndWidth/2, LagoonLeftEndX)
         OutletUsRbPlotX = min(OutletEndX[0] + UsOutletEndWidth/2, LagoonRightEndX)
         
@@ -292,7 +295,12 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
         OutletDsRbX = OutletEndX[1] + OutletEndWidth/2
         
         # Outlet plotting position
-        if OutletUsLbPlotX < OutletDsLbX:
+        if len(OutletChanIx) == 0:
+            # Outlet does not cross any transects
+            OutletLbX = np.repeat([OutletUsLbPlotX, OutletDsLbX], 2)
+            OutletLbY = np.repeat([np.interp(OutletUsLbPlotX, ShoreX, ShoreY[:,3]),
+                                   np.interp(OutletDsLbX, ShoreX, ShoreY[:,0])], 2)
+        elif OutletUsLbPlotX < OutletDsLbX:
             # Outlet left bank angles L to R
             L_Ok = ShoreX[OutletChanIx] < OutletDsLbX
             OutletLbX = np.hstack([OutletUsLbPlotX,                                 # Upstream end of channel
@@ -326,7 +334,12 @@ def updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth,
             OutletLbY[-2] = (OutletLbY[-1]-SpitWidth + OutletLbY[-3])/2
             OutletLbY[-3] = np.min(OutletLbY[[-1,-3]])
         
-        if OutletUsRbPlotX < OutletDsRbX:
+        if len(OutletChanIx) == 0:
+            # Outlet does not cross any transects
+            OutletRbX = np.repeat([OutletUsRbPlotX, OutletDsRbX], 2)
+            OutletRbY = np.repeat([np.interp(OutletUsRbPlotX, ShoreX, ShoreY[:,3]),
+                                   np.interp(OutletDsRbX, ShoreX, ShoreY[:,0])], 2)
+        elif OutletUsRbPlotX < OutletDsRbX:
             # Outlet right bank angles L to R
             R_Ok = ShoreX[OutletChanIx] > OutletUsRbPlotX
             OutletRbX = np.hstack([OutletUsRbPlotX, 
-- 
2.43.0


From f72a4852336673712228bb175897ab18527cddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:04 +0000
Subject: [PATCH 42/44] fix: plots and animations can start with a closed
 lagoon

---
 hapuamod/animate.py   | 3 ++-
 hapuamod/core.py      | 2 +-
 hapuamod/visualise.py | 6 ++++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/hapuamod/animate.py b/hapuamod/animate.py
index 14c784c..4123aa4 100644
--- a/hapuamod/animate.py
+++ b/hapuamod/animate.py
@@ -193,7 +193,8 @@ def main(ResultsFile, AnimationFile, StartTimestep=0, EndTimestep=None,
                                        OutletChanIx, RiverWidth, SpitWidth,
                                        ShoreZ=None, WavePower=None, EDir_h=0, LST=None, CST=None, 
                                        WaveScaling=0.01, CstScaling=0.00005, LstScaling=0.0001,
-                                       QuiverWidth=0.002, AreaOfInterest=AreaOfInterest)
+                                       QuiverWidth=0.002, AreaOfInterest=AreaOfInterest,
+                                       Closed=Closed)
         FigToAnimate = ModelFig['PlanFig']
         
         # Set up animation function
diff --git a/hapuamod/core.py b/hapuamod/core.py
index 2f9549b..56bbcbf 100644
--- a/hapuamod/core.py
+++ b/hapuamod/core.py
@@ -94,7 +94,7 @@ def main(ModelConfigFile, Overwrite=False):
                                        PhysicalPars['SpitWidth'], ShoreZ=ShoreZ, 
                                        WavePower=0, EDir_h=0, 
                                        LST=np.zeros(ShoreX.size-1),
-                                       CST=np.zeros(ShoreX.size))
+                                       CST=np.zeros(ShoreX.size), Closed=Closed)
         
     #%% Main timestepping loop
     MorTime = TimePars['StartTime']
diff --git a/hapuamod/visualise.py b/hapuamod/visualise.py
index 36c3f2b..e955dbf 100644
--- a/hapuamod/visualise.py
+++ b/hapuamod/visualise.py
@@ -67,7 +67,7 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
               RiverWidth, SpitWidth,
               ShoreZ=None, WavePower=None, EDir_h=0, LST=None, CST=None, 
               WaveScaling=0.01, CstScaling=0.00005, LstScaling=0.0001,
-              QuiverWidth=0.002, AreaOfInterest=None, PlotTime=None):
+              QuiverWidth=0.002, AreaOfInterest=None, PlotTime=None, Closed=False):
     """ Map the current model state in model coordinates
     
         Parameters:
@@ -87,6 +87,8 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
             LstScaling (optional, default = 0.0001)
             QuiverWidth (optional, default = 0.002)
             AreaOfInterest (optional)
+            PlotTime (optional)
+            Closed (optional, default = False)
             
         Returns:
             ModelFig (dict): handles for the various parts of the plot. Used as
@@ -174,7 +176,7 @@ def modelView(ShoreX, ShoreY, OutletEndX, OutletEndWidth, OutletChanIx,
     
     # Update plot with correct data
     updateModelView(ModelFig, ShoreX, ShoreY, OutletEndX, OutletEndWidth, 
-                    OutletChanIx, ShoreZ=ShoreZ, WavePower=WavePower, 
+                    OutletChanIx, Closed=Closed, ShoreZ=ShoreZ, WavePower=WavePower, 
                     EDir_h=EDir_h, LST=LST, CST=CST, PlotTime=PlotTime)
     
     return ModelFig
-- 
2.43.0


From fe5544d99c094e97f3a5b660315268b643006e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:04 +0000
Subject: [PATCH 43/44] fix: wave data from SWAN output keeps the minutes of
 its times

---
 preprocessing/WaveDataFromSwanOutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/WaveDataFromSwanOutput.py b/preprocessing/WaveDataFromSwanOutput.py
index 2e8b7f7..3776af7 100644
--- a/preprocessing/WaveDataFromSwanOutput.py
+++ b/preprocessing/WaveDataFromSwanOutput.py
@@ -12,7 +12,7 @@ ColNames = ['ModelTime', 'Year', 'Month', 'Day', 'Hour', 'Min',
 
 WaveData = pd.read_table(WaveModelOutputFile, sep=' ', skipinitialspace=True,
                          skiprows=27, names=ColNames)
-WaveData['DateTime'] = pd.to_datetime(WaveData.iloc[:,1:5])
+WaveData['DateTime'] = pd.to_datetime(WaveData.iloc[:,1:6].rename(columns={'Min':'Minute'}))
 WaveData = WaveData.set_index('DateTime')
 
 # Extract the columns we want
-- 
2.43.0


From 67ad12446718d31bc9c91d3913ba5a2cb49355a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:04 +0000
Subject: [PATCH 44/44] fix: offshore wave height from SWAN output keeps the
 energy flux between rays

---
 preprocessing/WaveDataFromSwanOutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/WaveDataFromSwanOutput.py b/preprocessing/WaveDataFromSwanOutput.py
index 3776af7..b862d01 100644
--- a/preprocessing/WaveDataFromSwanOutput.py
+++ b/preprocessing/WaveDataFromSwanOutput.py
@@ -50,7 +50,7 @@ WaveData['Angle_Offshore'] = np.arcsin(np.maximum(np.minimum(WaveData['LoffRatio
                                                              np.sin(WaveData['Angle_h']), 
                                                              1.0), -1.0)) # min and max is to prevent tiny irregularities generating complex numbers due to calculation of asin(>1) or asin(<-1)
 OutputData['Hsig_Offshore'] = (WaveData['Hsig'] / 
-                               np.sqrt(0.5 * WaveData['n_h'] * WaveData['LoffRatio'] * 
+                               np.sqrt(0.5 * WaveData['LoffRatio'] / WaveData['n_h'] * 
                                        (np.cos(WaveData['Angle_Offshore']) / 
                                         np.cos(WaveData['Angle_h']))))
 
-- 
2.43.0


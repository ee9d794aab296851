From 15f952a7007f0f13db6cff8ed2056f94413f05a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 01/41] hook: verification builds can select the thermal model
 and data buffer size (SLIDE_VERIF_HOOKS)

---
 src/settings/settings.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/settings/settings.hpp b/src/settings/settings.hpp
index edb4e0b..68dbd68 100644
--- a/src/settings/settings.hpp
+++ b/src/settings/settings.hpp
@@ -75,7 +75,11 @@ constexpr size_t CYCLER_NDATA_MAX{ 10000 }; //!< length of the arrays which hold
                                             //!< 1 CC cycle ~ 2 hours. So if you store data every 20s, 1 cycle gives 360 data points -> 10k is about 30 cycles
 
 constexpr size_t CELL_NDATA_HIST_MAX = 10'000'000; //!< If histogram then write data every 10 millionth data.
-constexpr size_t CELL_NDATA_INST_MAX = 100'000;    //!< If it is storing every data then we should have much less storage.
+#ifdef SLIDE_VERIF_HOOKS                               //!< verification builds may shrink the buffer to exercise the flush.
+constexpr size_t CELL_NDATA_INST_MAX = SLIDE_VERIF_NDATA_MAX;
+#else
+constexpr size_t CELL_NDATA_INST_MAX = 100'000; //!< If it is storing every data then we should have much less storage.
+#endif
 
 constexpr size_t MODULE_NDATA_MAX{ CYCLER_NDATA_MAX }; //!< if we store cell-level data, make the array as long as the one in Cycler
 
@@ -89,7 +93,11 @@ constexpr size_t CELL_NSTATE_MAX{ 30 }; //!< maximum number of states of all typ
                          //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
 
 //!< temperature
+#ifdef SLIDE_VERIF_HOOKS //!< verification builds may select the other thermal models.
+constexpr int T_MODEL{ SLIDE_VERIF_T_MODEL };
+#else
 constexpr int T_MODEL{ 0 }; //!< which thermal model to use
+#endif
                             //!< 	0 no thermal model
                             //!< 	1 individual cell bulk thermal model
                             //!< 	2 coupled cell thermal model with cooling from modules
-- 
2.43.0


From 8be13da7932e6e131d4099f5a204fa6810538e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 02/41] fix: Module_s::setCurrent restores the first unit too
 when a later one rejects the current

---
 src/modules/Module_s.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index 1d8e466..b38c3a3 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -106,7 +106,7 @@ Status Module_s::setCurrent(double Inew, bool checkV, bool print)
                   << getStatusMessage(status) << '\n';
 
 
-      for (int j{ i }; j > 0; j--)
+      for (int j{ i }; j >= 0; j--)
         SUs[j]->setCurrent(Iolds[j], false, false); // #TODO this can start from j{i-1} since probably SUs[i] failed to assign any currents.
 
       return status; // #TODO setCurrent here may be costly.
-- 
2.43.0


From 79514c28c8d9ecd9e655ce198dbb4ede9a6b574d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 03/41] fix: Module_p::setCurrent restores the old currents
 when it fails and honours checkV

---
 src/modules/Module_p.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 612d1bf..785c190 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -218,12 +218,20 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
     Itot += Iolds[i];
   }
 
+  const auto restoreCurrents = [&]() {
+    for (size_t i{}; i < SUs.size(); i++)
+      SUs[i]->setCurrent(Iolds[i], false, false);
+  };
+
   const auto dI = (Inew - Itot) / nSU; // #TODO must change if charge/discharge.
 
   for (size_t i{}; i < SUs.size(); i++) {
     Ia[i] += dI;
-    StatusNow = SUs[i]->setCurrent(Ia[i]); // #TODO worse status should be here.
-    if (!isStatusOK(StatusNow)) return StatusNow;
+    StatusNow = SUs[i]->setCurrent(Ia[i], checkV, print); // #TODO worse status should be here.
+    if (isStatusBad(StatusNow)) {
+      restoreCurrents();
+      return StatusNow;
+    }
   }
 
   getVall(Va, print);
@@ -247,12 +255,20 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      if (!isStatusSuccessful(SUs[i]->setCurrent(Ia[i])))
-        std::cout << "This should not happen!!" << std::endl; // #TODO
+      const auto status_i = SUs[i]->setCurrent(Ia[i], checkV, print);
+      if (isStatusBad(status_i)) { //!< the unit kept its old current, so the total would no longer be Inew.
+        restoreCurrents();
+        return status_i;
+      }
     }
     getVall(Va, print);
   }
 
+  if (iter == maxIteration) { //!< the voltages could not be equalised.
+    restoreCurrents();
+    return Status::RedistributeCurrent_failed;
+  }
+
   //!< voltage of cell i is outside the valid range, but within safety limits
   //!< indicate this happened but continue setting states
   if (isStatusWarning(StatusNow)) { // #TODO maybe we should not need to set current equally immediately?
-- 
2.43.0


From a7c2fd9f128d1e4085cbd127c04fa9ceb16b8971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 04/41] fix: Cell_SPM recalculates its voltage after changes of
 temperature, degradation or parameters

---
 src/cells/Cell_SPM/Cell_SPM.cpp         | 1 +
 src/cells/Cell_SPM/Cell_SPM.hpp         | 2 ++
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp  | 2 ++
 src/cells/Cell_SPM/Cell_SPM_fitting.cpp | 1 +
 4 files changed, 6 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index ce31e03..6dcefcf 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -553,6 +553,7 @@ void Cell_SPM::setT(double Ti)
    */
 
   st.T() = Ti; //!< #TODO if we need to check if we are in limits.  if T is in limits.
+  Vcell_valid = false; //!< the voltage depends on the temperature
 
   //!< the stress values stored in the class variables for stress are no longer valid because the state has changed
   sparam.s_dai_update = false;
diff --git a/src/cells/Cell_SPM/Cell_SPM.hpp b/src/cells/Cell_SPM/Cell_SPM.hpp
index b2f18c4..138f019 100644
--- a/src/cells/Cell_SPM/Cell_SPM.hpp
+++ b/src/cells/Cell_SPM/Cell_SPM.hpp
@@ -240,6 +240,7 @@ public:
     //!< Overwrite both current and initial states.
     st.overwriteCharacterisationStates(Dpi, Dni, ri);
     s_ini.overwriteCharacterisationStates(Dpi, Dni, ri);
+    Vcell_valid = false;
   }
 
   void overwriteGeometricStates(double thickpi, double thickni, double epi, double eni, double api, double ani)
@@ -247,6 +248,7 @@ public:
     //!< Overwrite both current and initial states.
     st.overwriteGeometricStates(thickpi, thickni, epi, eni, api, ani);
     s_ini.overwriteGeometricStates(thickpi, thickni, epi, eni, api, ani);
+    Vcell_valid = false;
   }
 
   //!< time integration
diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index 6239d8b..ec8256a 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -358,6 +358,8 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
     //!< degradation accumulation
     for (size_t i = 0; i < st.size(); i++)
       st[i] += d_st[i] * dt * nstep;
+
+    Vcell_valid = false; //!< the degradation changed the states on which the voltage depends
   }
 }
 
diff --git a/src/cells/Cell_SPM/Cell_SPM_fitting.cpp b/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
index e7c32e6..9e960b3 100644
--- a/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
@@ -221,6 +221,7 @@ void Cell_SPM::setOCVcurve(const std::string &namepos, const std::string &namene
   //!< Store the OCV curves
   try {
     OCV_curves.OCV_neg.setCurve(PathVar::data / nameneg); //!< the OCV curve of the anode, the first column gives the lithium fractions (increasing), the 2nd column gives the OCV vs li/li+
+    Vcell_valid = false;
     OCV_curves.OCV_pos.setCurve(PathVar::data / namepos);
   } catch (int e) {
     //!< std::cout << "Throw test: " << 32 << '\n';
-- 
2.43.0


From 4596b84fd1ab4ef18e95e28c467290767c59d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 05/41] fix: Cell_SPM applies and remembers the cell-to-cell
 variation factors it is constructed with

---
 src/cells/Cell_SPM/Cell_SPM.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 6dcefcf..db16a89 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -642,11 +642,20 @@ Cell_SPM::Cell_SPM(std::string IDi, const DEG_ID &degid, double capf, double res
   setCapacity(Cap() * capf); //!< nominal capacity
   geo.elec_surf *= capf;     //!< surface area of the electrodes (current to current density)
 
-  //!< set the degradation factor
-  sei_p *= var_degSEI;
-  csparam *= var_degSEI;
-  lam_p *= var_degLAM;
-  pl_p *= var_degSEI;
+  //!< store the cell to cell variations
+  var_cap = capf;
+  var_R = resf;
+  var_degSEI = degfsei;
+  var_degLAM = degflam;
+
+  //!< set the degradation factor, only the rate parameters scale (not activation energies etc.)
+  for (auto *rate : { &sei_p.sei1k, &sei_p.sei2k, &sei_p.sei2D, &sei_p.sei3k, &sei_p.sei3D, &sei_p.sei4k, &sei_p.sei4D,
+                      &csparam.CS1alpha, &csparam.CS2alpha, &csparam.CS3alpha, &csparam.CS4alpha, &csparam.CS5k, &pl_p.pl1k })
+    *rate *= var_degSEI;
+
+  for (auto *rate : { &lam_p.lam1p, &lam_p.lam1n, &lam_p.lam2ap, &lam_p.lam2bp, &lam_p.lam2an, &lam_p.lam2bn,
+                      &lam_p.lam3k, &lam_p.lam4p, &lam_p.lam4n })
+    *rate *= var_degLAM;
 
 
   //!< set the degradation ID and related settings
-- 
2.43.0


From be8496919fef7019e81552f39a496d60dc7f0676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 06/41] fix: Module::setStates restores every child when one of
 them rejects its state

---
 src/modules/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 511d075..05bb79d 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -234,7 +234,7 @@ Status Module::setStates(setStates_t s, bool checkV, bool print)
                   << ". Restoring the old states, status: " << getStatusMessage(status) << '\n';
 
       for (size_t j = 0; j <= i; j++)
-        SUs[i]->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
+        SUs[j]->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
 
       return status;
     }
-- 
2.43.0


From 5f8b9ee0238114e4e9aa6a077388c35fa55b423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 07/41] fix: getVhigh and getVlow of modules and batteries are
 the extreme cell voltages

---
 src/modules/Module.cpp | 4 ++--
 src/system/Battery.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 05bb79d..e5b62a5 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -141,7 +141,7 @@ double Module::getVhigh()
 {
   //!< return the voltage of the cell with the highest voltage
   //!< 	note CELL not child SU
-  double Vhigh = Vmin(); // #TODO
+  double Vhigh = SUs.empty() ? 0.0 : SUs[0]->getVhigh();
   for (const auto &SU : SUs)
     Vhigh = std::max(Vhigh, SU->getVhigh()); //!< will be called recursively to the cell levels
 
@@ -151,7 +151,7 @@ double Module::getVhigh()
 double Module::getVlow()
 {
   //!< return the voltage of the cell with the lowest voltage note CELL not child SU
-  double Vlow = Vmax(); // #TODO
+  double Vlow = SUs.empty() ? 0.0 : SUs[0]->getVlow();
   for (const auto &SU : SUs)
     Vlow = std::min(Vlow, SU->getVlow()); //!< will be called recursively to the cell levels
 
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 12673f4..1597220 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -70,8 +70,8 @@ public:
   double getOCV() override { return cells->getOCV() * nseries; }
   double V() override { return cells->V() * nseries; }
   Status checkVoltage(double &v, bool print) noexcept override;      //!< get the voltage and check if it is valid
-  double getVhigh() override { return cells->getVhigh() * nseries; } //!< return the voltage of the cell with the highest voltage
-  double getVlow() override { return cells->getVlow() * nseries; }   //!< return the voltage of the cell with the lowest voltage
+  double getVhigh() override { return cells->getVhigh(); } //!< return the voltage of the cell with the highest voltage
+  double getVlow() override { return cells->getVlow(); }  //!< return the voltage of the cell with the lowest voltage
 
   //!< thermal model
   double T() override { return cool->T(); }
-- 
2.43.0


From ad4e5aea7c69dfa2183c7c79286934541ed7d630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 08/41] fix: blocking degradation and the thermal model reaches
 the cells through any storage unit

---
 src/StorageUnit.hpp    | 2 +-
 src/modules/Module.hpp | 2 +-
 src/system/Battery.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StorageUnit.hpp b/src/StorageUnit.hpp
index 2bd8e99..0e0f373 100644
--- a/src/StorageUnit.hpp
+++ b/src/StorageUnit.hpp
@@ -61,7 +61,7 @@ public:
 
   virtual void getStates(getStates_t s) = 0;       //!< returns one long array with the states
   virtual viewStates_t viewStates() { return {}; } //!< Only for cells to see individual states.
-  void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
+  virtual void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
   virtual void setParent(StorageUnit *p) { parent = p; }                             //!< set the parent
   virtual Status setCurrent(double Inew, bool checkV = true, bool print = true) = 0; //
   virtual Status setVoltage(double Vnew, bool checkI = true, bool print = true)
diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index 731d1f7..cf04b5f 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -170,7 +170,7 @@ public:
 #endif
   }
 
-  void setBlockDegAndTherm(bool block)
+  void setBlockDegAndTherm(bool block) override
   {
     for (auto &SU : SUs)
       SU->setBlockDegAndTherm(block);
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 1597220..7dd7194 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -54,7 +54,7 @@ public:
   Module *getCells() { return cells.get(); }
   //!< int getNstates() { return cells->getNstates() + 1; } //!< +1 for the temperature of this battery
   void getStates(getStates_t &s) override; //!< returns one long array with the states
-  void setBlockDegAndTherm(bool block);
+  void setBlockDegAndTherm(bool block) override;
 
   Status setCurrent(double Inew, bool checkV = true, bool print = true) override
   {
-- 
2.43.0


From 63b60785e9f9c2eac09058f885485065aa18b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 09/41] fix: Module_p counts only the current through each
 contact resistance for its heat

---
 src/modules/Module_p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 785c190..5d2aa1c 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -330,8 +330,8 @@ void Module_p::timeStep_CC(double dt, int nstep)
     therm.time += nstep * dt;
 
     //!< Increase the heat from the contact resistances
-    double Ii = 0; //!< current through resistor I
     for (size_t i = 0; i < SUs.size(); i++) {
+      double Ii = 0;                          //!< current through resistor I
       for (size_t j = i; j < SUs.size(); j++) // #TODO very important! Not calculating current for Rcontact properly!!!!!!!!!!
         Ii += SUs[j]->I();                    //!< resistor i sees the currents through the cells 'behind' them
 
-- 
2.43.0


From c3804b19af7ede9094dd0f2216d36d7ae651c1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 10/41] fix: Cycler::CV counts its time and CCCV adds to the
 throughput it is given

---
 src/procedures/Cycler.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 7aab5d5..17156d7 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -461,6 +461,7 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
     const auto dAh = std::abs(su->I() * dti / 3600.0);
     vi = su->V();
     ttot += dti;
+    th.time() += dti;
     th.Ah() += dAh;
     th.Wh() += dAh * vi;
 
@@ -578,9 +579,9 @@ Status Cycler::CCCV_with_tlim(double I, double Vset, double Ilim, double tlim, d
       std::cout << "Cycler::CCCV could not complete the CV phase, terminated with "
                 << getStatusMessage(succ) << '\n';
 
-  th.time() = th1.time() + th2.time();
-  th.Ah() = th1.Ah() + th2.Ah();
-  th.Wh() = th1.Wh() + th2.Wh();
+  th.time() += th1.time() + th2.time();
+  th.Ah() += th1.Ah() + th2.Ah();
+  th.Wh() += th1.Wh() + th2.Wh();
 
   return succ;
 }
-- 
2.43.0


From 8076f4137670425ba5dda4a8d847d0db0312e18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 11/41] fix: Cycler::testCapacity restores the original states
 after a successful test too

---
 src/procedures/Cycler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 17156d7..77514a1 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -641,6 +641,9 @@ double Cycler::testCapacity(double &Ah, double &ttot)
   }
 
   Ah = th1.Ah() + th2.Ah();
+
+  //!< restore the original states
+  su->setStates(sini_span, false, true);
   return th2.Ah();
 }
 
-- 
2.43.0


From e4ef0c8f2575b3eb3d0b0680e8dfeb0646a64d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 12/41] fix: Cycler::CC stops when the storage unit refuses the
 current

---
 src/procedures/Cycler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 77514a1..1e25fbc 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -265,7 +265,8 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
 
   //!< apply current
   while (ttot < tlim) {
-    auto succ = setCurrent(I, vlim); // #TODO this was not here I added to get nice results from
+    succ = setCurrent(I, vlim); // #TODO this was not here I added to get nice results from
+    if (isStatusBad(succ)) return succ; //!< the unit does not carry the current we want to apply
     //!< change length of the time step in the last iteration to get exactly tlim seconds
     if (nOnce * dti > tlim - ttot) //!< we are close to the total time -> set nOnce to 1
       nOnce = 1;
-- 
2.43.0


From e7043dcc012aa33c8695885eabf7f291ca517755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 13/41] fix: Cycler::setCurrent reports every refusal of the
 current

---
 src/procedures/Cycler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 1e25fbc..6c4445e 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -192,7 +192,7 @@ Status Cycler::setCurrent(double I, double vlim)
   //!< Try setting the current
   const auto status = su->setCurrent(I, checkCellV, settings::printBool::printNonCrit); //!< throws error if checkCellv == true and voltage out of range of a cell
 
-  if (isStatusVoltageLimitsViolated(status)) {
+  if (isStatusVoltageLimitsViolated(status) || isStatusBad(status)) {
     if constexpr (settings::printBool::printNonCrit)
       std::cout << "Error caught in Cycler::setCurrent of SU " << su->getFullID() << " when trying to set a current of "
                 << I << " A. This current cannot be set without violating the voltage limits of one of the cells" << '\n';
-- 
2.43.0


From b976aac196dbb944e2245ec63c773d3469fcc38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 14/41] fix: Module::setSUs reports a unit which already has a
 parent without dereferencing its own

---
 src/modules/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index e5b62a5..cd3bf0f 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -84,7 +84,7 @@ void Module::setSUs(SUs_span_t c, bool checkCells, bool print)
     {
       if (verb)
         std::cerr << "ERROR in Module::setCells, SU " << i << ", already has a parent "
-                  << "with full ID: " << parent->getFullID() << ". Throwing 10.\n";
+                  << "with full ID: " << p->getFullID() << ". Throwing 10.\n";
       std::cout << "Throwed in File: " << __FILE__ << ", line: " << __LINE__ << '\n';
       throw 10;
     }
-- 
2.43.0


From f062ab9396116b02c5e51bd67152c6e8310f15f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 15/41] fix: Battery::setStates consumes its temperature and
 leaves it alone if the states are refused

---
 src/system/Battery.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 0581721..b67327b 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -106,7 +106,10 @@ void Battery::setBlockDegAndTherm(bool block)
 Status Battery::setStates(setStates_t s, bool checkStates, bool print)
 {
   auto status = cells->setStates(s, checkStates, print);
-  setT(s.back()); //!< #TODO probably here we need to check?
+  if (isStatusBad(status)) return status; //!< the module restored its states
+
+  setT(s[0]); //!< #TODO probably here we need to check?
+  s = s.last(s.size() - 1);
   return status;
 }
 
-- 
2.43.0


From 62e02d3265c965081d54d44f8472d220ffe8f1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 16/41] fix: the parts of a copied module or battery have the
 copy as parent

---
 src/modules/Module.hpp   | 8 ++++++++
 src/modules/Module_p.hpp | 2 +-
 src/modules/Module_s.hpp | 2 +-
 src/system/Battery.hpp   | 7 ++++++-
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index cf04b5f..e59d1d7 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -69,6 +69,14 @@ protected:
     return Ncells = transform_sum(SUs, free::get_Ncells<SU_t>);
   }
 
+  template <typename T>
+  static T *adopt(T *m) //!< the SUs of a copied module belong to the copy
+  {
+    for (auto &SU : m->getSUs())
+      SU->setParent(m);
+    return m;
+  }
+
   double thermalModel_cell();
   double thermalModel_coupled(int Nneighbours, double Tneighbours[], double Kneighbours[], double Aneighb[], double tim);
 
diff --git a/src/modules/Module_p.hpp b/src/modules/Module_p.hpp
index 00a187b..22c3afb 100644
--- a/src/modules/Module_p.hpp
+++ b/src/modules/Module_p.hpp
@@ -44,6 +44,6 @@ public:
 
   void timeStep_CC(double dt, int steps = 1) override;
 
-  Module_p *copy() override { return new Module_p(*this); }
+  Module_p *copy() override { return adopt(new Module_p(*this)); }
 };
 } // namespace slide
\ No newline at end of file
diff --git a/src/modules/Module_s.hpp b/src/modules/Module_s.hpp
index 2f481c2..caaf39b 100644
--- a/src/modules/Module_s.hpp
+++ b/src/modules/Module_s.hpp
@@ -45,6 +45,6 @@ public:
   Status setCurrent(double Inew, bool checkV = true, bool print = true) override; //!< set a module current
   void timeStep_CC(double dt, int steps = 1) override;
 
-  Module_s *copy() override { return new Module_s(*this); }
+  Module_s *copy() override { return adopt(new Module_s(*this)); }
 };
 } // namespace slide
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 7dd7194..86f43c4 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -92,7 +92,12 @@ public:
   void storeData() override;
   void writeData(const std::string &prefix) override;
 
-  Battery *copy() override { return new Battery(*this); }
+  Battery *copy() override
+  {
+    auto *b = new Battery(*this);
+    if (b->cells) b->cells->setParent(b); //!< the module of a copied battery belongs to the copy
+    return b;
+  }
 };
 
 } // namespace slide
-- 
2.43.0


From a3fad4e8cccfd4d4b3fb443bd675bae412736280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 17/41] fix: stored data ends with a newline so that later
 writes do not extend its last row

---
 src/utility/free_functions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index a37613c..8ec03ae 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -58,6 +58,8 @@ inline void write_data(std::ofstream &file, std::vector<double> &data, size_t N
     file << data[i];
   }
 
+  if (!data.empty()) file << '\n'; //!< what is appended next starts on a new line
+
   data.clear(); //!< reset the index to 0 since we can overwrite the stored data
 }
 
-- 
2.43.0


From 9fe36991290e6e2b8b581040c3fdc2bf450a59d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 18/41] fix: Procedure::checkUp writes into the results folder,
 separates its header and frees the copied cells

---
 src/procedures/Procedure.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 6eaf862..57e5a78 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -464,9 +464,9 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
 
   //!< If this is the first checkup, start by writing the cell IDs and cell-to-cell parameters
   //!< else write the cumulative charge throughput
-  file.open(name, std::ios_base::app); //!< open from scratch, clear whatever was in the file before
+  file.open(PathVar::results / name, std::ios_base::app); //!< open from scratch, clear whatever was in the file before
 
-  file << "ID,var_cap,var_R,var_degSEI,var_degLAM,Ah,CycleNumber";
+  file << "ID,var_cap,var_R,var_degSEI,var_degLAM,Ah,CycleNumber,";
   file << "time [s],Current throughput [Ah],Energy throughput [Wh],Capacity [Ah],States\n";
 
   for (auto &cell : cells) {
@@ -496,6 +496,9 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
   //!< close the file
   file.close();
 
+  for (auto *cell : cells) //!< the copies were only needed for this check-up
+    delete cell;
+
   if (!unitTest) std::cout << "Finishing the check-up after Ah = " << Ah << '\n';
 }
 
-- 
2.43.0


From b6017062a661e286960fc293c09fd1df9798b103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 19/41] fix: Cell_SPM::validStates refuses a negative LLI
 instead of throwing with the illegal state in place

---
 src/cells/Cell_SPM/Cell_SPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index db16a89..55773f8 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -434,7 +434,7 @@ bool Cell_SPM::validStates(bool print)
   if (st.LLI() < 0) {
     std::cerr << "Error in State::validState. The lost lithium LLI is " << st.LLI()
               << ", which is too low. Only non-negative values are allowed.\n";
-    throw 15;
+    range = false;
   }
 
   const double app = 3 * st.ep() / geo.Rp;
-- 
2.43.0


From d005807164cf8e1db249a781a2d591a0c04e42a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 20/41] fix: Module_p keeps its total current when its units
 have different capacities

---
 src/modules/Module_p.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 5d2aa1c..f354fe2 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -124,7 +124,12 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
   for (; iter < maxIteration; iter++) {
     double error{ 0 };
 
-    const auto Vmean = std::accumulate(Va.begin(), Va.begin() + nSU, 0.0) / nSU; // Compute the mean voltage
+    double Vmean{ 0 }, captot{ 0 }; // Compute the mean voltage, weighted with the capacities such that the updates of the currents below sum to 0.
+    for (size_t i = 0; i < nSU; i++) {
+      Vmean += Va[i] * SUs[i]->Cap();
+      captot += SUs[i]->Cap();
+    }
+    Vmean /= captot;
 
     for (size_t i = 0; i < nSU; i++) // Compute the error between mean voltage and individual cell voltages
       error += std::abs(Vmean - Va[i]);
@@ -238,12 +243,14 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
   int iter{ 0 };
   for (; iter < maxIteration; iter++) {
-    double Vmean{ 0 }, error{ 0 };
+    double Vmean{ 0 }, captot{ 0 }, error{ 0 };
 
-    for (size_t i = 0; i < nSU; i++)
-      Vmean += Va[i];
+    for (size_t i = 0; i < nSU; i++) { //!< weighted with the capacities such that the updates of the currents below sum to 0.
+      Vmean += Va[i] * SUs[i]->Cap();
+      captot += SUs[i]->Cap();
+    }
 
-    Vmean /= nSU;
+    Vmean /= captot;
 
     for (size_t i = 0; i < nSU; i++)
       error += std::abs(Vmean - Va[i]);
-- 
2.43.0


From d6ecf5231346908b23f49c17df205df14ae115e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 21/41] fix: Module_p::redistributeCurrent honours checkV, a
 unit outside its limits does not change the total current

---
 src/modules/Module_p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index f354fe2..3e0c5a8 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -141,7 +141,7 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
     // Update the currents based on the difference between mean and individual voltages
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      SUs[i]->setCurrent(Ia[i]);
+      SUs[i]->setCurrent(Ia[i], checkV, print);
     }
 
     getVall(Va, print);
-- 
2.43.0


From 79d13011c7fea6456c0ce8a5b8eaaa091fdb31f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 22/41] fix: setVoltage_iterative gives up and restores the
 current when the voltage cannot be reached, instead of continuing with NaN

---
 src/utility/free_functions.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index 8ec03ae..482e561 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -27,7 +27,13 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
   // New redistributeCurrent without PI control:
   //!< get cell voltages
   constexpr int maxIteration = 50;
-  double Ia{ su->I() };
+  const double Iold{ su->I() };
+  double Ia{ Iold };
+
+  const auto restore = [&](Status status) { //!< the voltage cannot be reached, go back to the old current
+    su->setCurrent(Iold, false, false);
+    return status;
+  };
 
   for (int iter{ 0 }; iter < maxIteration; iter++) {
     const auto Va = su->V();
@@ -35,15 +41,20 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
       return Status::Success;
 
     const auto Ib = (Vset > Va) ? Ia - 0.01 * su->Cap() : Ia + 0.01 * su->Cap();
-    su->setCurrent(Ib);
+    if (const auto status = su->setCurrent(Ib); isStatusBad(status))
+      return restore(status);
+
     const auto Vb = su->V();
+    if (Va == Vb) //!< the voltage does not depend on the current (e.g. it could not be calculated)
+      return restore(Status::RedistributeCurrent_failed);
 
     const double slope = (Ia - Ib) / (Va - Vb);
     Ia = Ib - (Vb - Vset) * slope; //!< False-Position method.
-    su->setCurrent(Ia);
+    if (const auto status = su->setCurrent(Ia); isStatusBad(status))
+      return restore(status);
   }
 
-  return Status::RedistributeCurrent_failed; // #TODO change to setVoltage failed.
+  return restore(Status::RedistributeCurrent_failed); // #TODO change to setVoltage failed.
 }
 
 inline void write_data(std::ofstream &file, std::vector<double> &data, size_t N = 1)
-- 
2.43.0


From 39d0002c4790f06b4d61514bfaece5bf046e01d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 23/41] fix: an exception in a threaded time step reaches the
 caller instead of ending the program

---
 src/utility/parallelisation.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/utility/parallelisation.hpp b/src/utility/parallelisation.hpp
index 42ef21e..f4b8dc3 100644
--- a/src/utility/parallelisation.hpp
+++ b/src/utility/parallelisation.hpp
@@ -12,6 +12,7 @@
 
 #include "../settings/settings.hpp"
 
+#include <exception>
 #include <thread>
 #include <vector>
 
@@ -40,17 +41,30 @@ void run(Tfun task_indv, int i_end, unsigned int numMaxParallelWorkers = setting
       std::vector<std::thread> threads;
       threads.reserve(N_th_max);
 
+      std::vector<std::exception_ptr> errors(N_th_max); //!< an exception may not leave its thread, it is thrown on after all threads have ended
+      auto task_safe = [&](int i_begin, int i_end_, int Nth) {
+        try {
+          task_par(i_begin, i_end_, Nth);
+        } catch (...) {
+          errors[i_begin] = std::current_exception();
+        }
+      };
+
       for (unsigned int i_begin = 0; i_begin < N_th_max; i_begin++) //!< indices for the threads
       {
         //!< Multi threaded simul:
 
-        threads.emplace_back(task_par, i_begin, i_end, N_th_max);
+        threads.emplace_back(task_safe, i_begin, i_end, N_th_max);
       }
 
       for (auto &th : threads) {
         if (th.joinable())
           th.join();
       }
+
+      for (auto &error : errors)
+        if (error)
+          std::rethrow_exception(error);
     }
   } else {
     task_par(0, i_end, 1);
-- 
2.43.0


From e76cb79417ec856bd01d79912cf502863c40f8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 24/41] fix: a charging current which lowers the voltage
 through the limit does not end a CC phase

---
 src/procedures/Cycler.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 6c4445e..a11d057 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -204,9 +204,8 @@ Status Cycler::setCurrent(double I, double vlim)
   //!< check if the voltage limit was exceeded while setting the current
   if (I < 0 && Vini <= vlim && Vnew > vlim) //!< charging -> exceeded if Vini < vlim  & Vnew > vlim
     return Status::ReachedVoltageLimit;
-  else {
-    if (Vini >= vlim && Vnew < vlim) return Status::ReachedVoltageLimit; //!< #TODO why Vini check?
-  }
+  if (I > 0 && Vini >= vlim && Vnew < vlim) //!< discharging -> exceeded if Vini > vlim  & Vnew < vlim
+    return Status::ReachedVoltageLimit; //!< #TODO why Vini check?
 
   return Status::Success; //!< if none of the above, we could set the current without exceeding any voltage limit
 }
-- 
2.43.0


From 4aefaf6eb6fddf8c76ffd10b82a3f4d0d9b78775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 25/41] fix: the throughput of a rest or CC phase which ends
 early is counted

---
 src/procedures/Cycler.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index a11d057..17af179 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -133,6 +133,7 @@ Status Cycler::rest(double tlim, double dt, int ndt_data, ThroughputData &th)
 
     //!< Increase the throughput
     ttot += dti * nOnce;
+    th.time() += dti * nOnce; //!< there is no throughput during resting
     idat += nOnce;
 
     //!< Store a data point if needed
@@ -170,8 +171,6 @@ Status Cycler::rest(double tlim, double dt, int ndt_data, ThroughputData &th)
 
   if (boolStoreData) storeData();
 
-  th.time() += ttot; //!< there is no throughput during resting
-
   return succ;
 }
 
@@ -284,9 +283,17 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       return Status::timeStep_CC_failed;
     }
 
+    //!< Increase the throughput
+    const auto dt_now = dti * nOnce;
+    th.time() += dt_now;
+    ttot += dt_now;
+    th.Ah() += std::abs(I) * dt_now / 3600.0;
+    idat += nOnce;
+
     //!< get the voltage
     if (diagnostic) {
       const auto status = su->checkVoltage(vi, true);
+      th.Wh() += std::abs(I) * dt_now / 3600 * vi;
       if (!isStatusSuccessful(status)) { //!< in diagnostic mode and the voltage of one of the cells was violated
         if constexpr (settings::printBool::printNonCrit)
           std::cout << "in Cycler::CC, the voltage of a cell became invalid in time step when the total voltage was "
@@ -296,6 +303,7 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
     } else {
       const auto v_prev = vi;
       vi = su->V();
+      th.Wh() += std::abs(I) * dt_now / 3600 * vi;
       if (vi <= 0) {
         if constexpr (settings::printBool::printNonCrit)
           std::cout << "error in Cycler::CC in time step when getting the voltage. The previous voltage was "
@@ -304,15 +312,6 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       }
     }
 
-    auto myVnow = su->V();
-    //!< Increase the throughput
-    const auto dt_now = dti * nOnce;
-    th.time() += dt_now;
-    ttot += dt_now;
-    th.Ah() += std::abs(I) * dt_now / 3600.0;
-    idat += nOnce;
-    th.Wh() += std::abs(I) * dt_now / 3600 * vi;
-
     //!< Store a data point if needed
     if (boolStoreData && idat >= ndt_data) {
       storeData();
-- 
2.43.0


From 7ee514e991ec689e482e565937eed03c0b7689a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 26/41] fix: a CV phase whose time steps add up to slightly
 less than its time limit ends normally instead of throwing

---
 src/procedures/Cycler.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 17af179..9c0050b 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -495,22 +495,12 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
   //!< *********************************************************** TERMINATE ******************************************************************************
   //!< check why we stopped the time integration
   Status succ;
-  if (ttot >= tlim)
+  if (ttot >= tlim || !Itot)         //!< all time steps are done (the sum of the steps can be smaller than tlim due to rounding)
     succ = Status::ReachedTimeLimit; //!< time limit
-  else if (Itot)                     //!< #TODO why a bool named Itot? It looks like double.
-  {
-    if (Vtolerance)
-      succ = Status::ReachedCurrentLimit; //!< current limit
-    else
-      succ = Status::ReachedSmallCurrent; //!< #TODO is this ever possible? current became way too small, but voltage limit still not reached
-  } else {
-    if constexpr (settings::printBool::printCrit)
-      std::cerr << "Error in Cycler::CV, stopped time integration for unclear reason after "
-                << ttot << "s and voltage " << vi << "V, we were running with time limit " << tlim
-                << " and current limit " << Ilim << "V and set voltage " << Vset << '\n';
-
-    throw 100;
-  }
+  else if (Vtolerance)               //!< #TODO why a bool named Itot? It looks like double.
+    succ = Status::ReachedCurrentLimit; //!< current limit
+  else
+    succ = Status::ReachedSmallCurrent; //!< #TODO is this ever possible? current became way too small, but voltage limit still not reached
 
   //!< store data point
   if (boolStoreData)
-- 
2.43.0


From bacd50d48bafe1b0c9b2acbabb86dd7a9e443333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 27/41] fix: interpolation at a value which is not a number
 reads outside the arrays

---
 src/utility/interpolation.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utility/interpolation.hpp b/src/utility/interpolation.hpp
index 955c146..5dc58ac 100644
--- a/src/utility/interpolation.hpp
+++ b/src/utility/interpolation.hpp
@@ -47,6 +47,12 @@ auto linInt_noexcept(bool bound, Tx &xdat, Ty &ydat, int nin, double x, bool is_
   int status = 0;   //!< Set the status as inverse of bound. So that first two branches of if are invalid if bound is true.
   //!< check that x is within the limits of the data points
 
+  if (std::isnan(x)) { //!< it compares false with every data point, and would be looked for outside the arrays
+    if (bound)
+      status = 1;
+    return std::make_pair(x, status);
+  }
+
   if (bound) {
     if (x < xdat[0]) {
       status = -1;
-- 
2.43.0


From 33e39ca33a1a211104cbf0d3330a53e240d67068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 28/41] fix: a time step of no duration leaves a particle cell
 as it is instead of dividing by zero

---
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index ec8256a..7518665 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -266,6 +266,9 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
     throw 10;
   }
 
+  if (dt == 0 || nstep <= 0) //!< no time passes: nothing changes, and the rates of stress (per duration of the step) have no value
+    return;
+
   const bool print = true;
 
   //!< Update the stress values stored in the attributes with the stress of the previous time step
-- 
2.43.0


From 80bd4aad43309f443bb2219ddbdb558823e9a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:47 +0000
Subject: [PATCH 29/41] fix: a cooling system which is always on comes on again

---
 src/cooling/CoolSystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cooling/CoolSystem.cpp b/src/cooling/CoolSystem.cpp
index acf30fb..2a65e61 100644
--- a/src/cooling/CoolSystem.cpp
+++ b/src/cooling/CoolSystem.cpp
@@ -234,7 +234,8 @@ void CoolSystem::control(double Thot_local, double Thot_global)
   double Terr;
 
   switch (control_strategy) {
-  case 1: //!< always on
+  case 1: //!< always on, also after it was off because of another strategy
+    flowrate = control_onoff_flr;
     break;
   case 2: //!< on/off depending on child T
 
-- 
2.43.0


From e2511c8bf82f4bc20e33b287f42ed8a030f3976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 30/41] fix: interpolation with fixed steps uses the interval
 which contains x

---
 src/utility/interpolation.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utility/interpolation.hpp b/src/utility/interpolation.hpp
index 5dc58ac..2d87b97 100644
--- a/src/utility/interpolation.hpp
+++ b/src/utility/interpolation.hpp
@@ -74,7 +74,12 @@ auto linInt_noexcept(bool bound, Tx &xdat, Ty &ydat, int nin, double x, bool is_
 
     if (is_fixed) {
       double dt = xdat[1] - xdat[0];
-      i_low = static_cast<int>((x - xdat[0]) / dt) + 1;
+      i_low = std::clamp(static_cast<int>((x - xdat[0]) / dt) + 1, 1, nin - 1);
+      //!< the steps are only equal up to a tolerance and rounding, so x can be in another interval
+      while (i_low > 1 && x < xdat[i_low - 1])
+        i_low--;
+      while (i_low < nin - 1 && x > xdat[i_low])
+        i_low++;
     } else {
       //!< binary search algorithm:
       //!< i_low will be the first index which compares greater than x;
-- 
2.43.0


From 38ba3561b5c2b63658d8808c749c24139763d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 31/41] fix: checking the steps of a curve with fewer than two
 points

---
 src/types/XYdata.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/XYdata.hpp b/src/types/XYdata.hpp
index 0f535ef..9df6689 100644
--- a/src/types/XYdata.hpp
+++ b/src/types/XYdata.hpp
@@ -25,6 +25,9 @@ namespace slide {
 template <typename Tx>
 bool check_is_fixed(Tx &xdat) //!< Checks if steps are fixed length. #TODO should not be here.
 {
+  if (xdat.size() < 2) //!< there is no step
+    return false;
+
   const double dt = xdat[1] - xdat[0];
   const double tol = 0.01 * dt; //!< Tolerance.
 
-- 
2.43.0


From a24575f984ae87a8574edb4f6c34b080242ec91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 32/41] fix: histogram counts values far outside its range in
 the right bin

---
 src/types/Histogram.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/types/Histogram.hpp b/src/types/Histogram.hpp
index 3db1312..de79ce6 100644
--- a/src/types/Histogram.hpp
+++ b/src/types/Histogram.hpp
@@ -49,11 +49,17 @@ public:
      * bins[0] is number of elements less than x_min
      * bins[end] is number of elements more than x_max
      * */
-    auto i = static_cast<int>(1 + (x - x_min) / dx);
+    if (bins.empty()) return;
 
-    const auto ssize = static_cast<int>(bins.size());
-    i = std::max(0, std::min(i, ssize - 1)); // #TODO what happens if container is empty?
-    bins[i]++;
+    const double i = 1 + (x - x_min) / dx; //!< may be too large for an integer
+    const auto last = bins.size() - 1;
+
+    if (!(i >= 1))
+      bins.front()++;
+    else if (i >= last)
+      bins.back()++;
+    else
+      bins[static_cast<size_t>(i)]++;
   }
 
   std::span<const size_t> viewBinValues() const noexcept { return bins; }
-- 
2.43.0


From e8ba1444726f55d685e18cde94ac0f7c0e775b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 33/41] fix: histogram has all its edges, whatever the rounding
 of its bin width

---
 src/types/Histogram.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/Histogram.hpp b/src/types/Histogram.hpp
index de79ce6..39c75eb 100644
--- a/src/types/Histogram.hpp
+++ b/src/types/Histogram.hpp
@@ -31,7 +31,7 @@ class Histogram
 {
   std::vector<size_t> bins;
   Tdata x_min{}, x_max{}, dx{ 1 };
-  int Nbins;
+  int Nbins{ -1 };
 
 public:
   Histogram() = default;
@@ -67,7 +67,7 @@ public:
   [[nodiscard]] constexpr auto begin() noexcept { return bins.begin(); }
   [[nodiscard]] constexpr auto end() noexcept { return bins.end(); }
 
-  auto getEdgeValues() const noexcept { return range_fix(x_min, x_max, dx); }
+  auto getEdgeValues() const noexcept { return linstep_fix(x_min, dx, Nbins + 1); }
 
   auto size() const noexcept { return bins.size(); }
 
-- 
2.43.0


From 57ae2159f7c17c4306ed031168c2b52edaac2959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:06 +0000
Subject: [PATCH 34/41] fix: SmallVector refuses an element it has no place for

---
 src/types/SmallVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/SmallVector.hpp b/src/types/SmallVector.hpp
index 1930d47..4f5b33e 100644
--- a/src/types/SmallVector.hpp
+++ b/src/types/SmallVector.hpp
@@ -28,7 +28,7 @@ public:
 
   inline void push_back(const T &&elem)
   {
-    if (N > Nmax) {
+    if (N >= Nmax) {
       std::cerr << "Array is very small! Please increase its size from settings!\n";
       throw 1234;
     }
-- 
2.43.0


From 1150840d1acff3cdb1262de0fd4f0cd220b46777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:06 +0000
Subject: [PATCH 35/41] fix: rebalancing reaches the cells of a battery

---
 src/procedures/Procedure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 57e5a78..1124974 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -394,6 +394,8 @@ Status Procedure::rebalance(StorageUnit *su)
       }
     }
 
+  } else if (auto b = dynamic_cast<Battery *>(su)) {
+    return rebalance(b->getCells());
   } else if (typeid(*su) == typeid(Cell_SPM)) { // #TODO why only SPM?
     const double Iset = su->Cap() * Cset;
     const double Ilim = su->Cap() * Clim;
-- 
2.43.0


From 162fa0ec4b95d7a518e887980236217eca736c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:06 +0000
Subject: [PATCH 36/41] fix: a matrix is read from a file with a byte order
 mark, and reading an empty file ends

---
 src/utility/io/read_CSVfiles.hpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/utility/io/read_CSVfiles.hpp b/src/utility/io/read_CSVfiles.hpp
index b62717e..0d7a48a 100644
--- a/src/utility/io/read_CSVfiles.hpp
+++ b/src/utility/io/read_CSVfiles.hpp
@@ -53,6 +53,17 @@ inline auto getFile(std::string name)
   static std::map<std::string, std::string> fileMap;
 }
 
+inline void ignoreBOM(std::ifstream &in)
+{
+  char c = '.';
+
+  do {
+    in >> c;
+  } while (c < 45); //!< Ignore byte order mark (BOM) at the beginning
+
+  in.putback(c);
+}
+
 template <typename Tpath, typename T, size_t ROW, size_t COL>
 void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
 {
@@ -76,8 +87,7 @@ void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
 
   char c = '.';
 
-  while (in.peek() <= 32) //!< Ignore byte order mark (BOM) at the beginning
-    in >> c;
+  ignoreBOM(in); //!< Ignore byte order mark (BOM) at the beginning
 
   for (size_t i = 0; i < ROW; i++) {
     //!< read all but the last column
@@ -99,17 +109,6 @@ void loadCSV_1col(const Tpath &name, std::array<T, ROW> &x)
   std::memcpy(&x, &temp, sizeof temp);
 }
 
-inline void ignoreBOM(std::ifstream &in)
-{
-  char c = '.';
-
-  do {
-    in >> c;
-  } while (c < 45); //!< Ignore byte order mark (BOM) at the beginning
-
-  in.putback(c);
-}
-
 template <typename Tpath, typename Tx, typename Ty>
 void loadCSV_2col(const Tpath &name, Tx &x, Ty &y, int n = 0)
 {
-- 
2.43.0


From 4bc031db8e0c236a11731fb4954670167e16f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:06 +0000
Subject: [PATCH 37/41] fix: reading columns from a file with empty lines, or
 with nothing in it

---
 src/utility/io/read_CSVfiles.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility/io/read_CSVfiles.hpp b/src/utility/io/read_CSVfiles.hpp
index 0d7a48a..d6500c6 100644
--- a/src/utility/io/read_CSVfiles.hpp
+++ b/src/utility/io/read_CSVfiles.hpp
@@ -193,6 +193,9 @@ void loadCSV_Ncol(const Tpath &name, DynamicMatrix<Tx> &x, int n = 0)
   int n_rows{ 0 };
   while ((n == 0 || n_rows < n) && std::getline(in, line)) //!< Read file.
   {
+    if (line.find_first_not_of(" \t\r") == std::string::npos) //!< an empty line is no row
+      continue;
+
     n_rows++;
     std::istringstream in_line(line);
     double x_i;
@@ -203,7 +206,7 @@ void loadCSV_Ncol(const Tpath &name, DynamicMatrix<Tx> &x, int n = 0)
     }
   }
 
-  int n_cols = x.data.size() / n_rows;
+  int n_cols = (n_rows > 0) ? x.data.size() / n_rows : 0;
 
   x.reshape(n_cols, n_rows);
 
-- 
2.43.0


From d4a71e2dd5c8076d137733d7ff70ab4c47f4f0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:06 +0000
Subject: [PATCH 38/41] fix: reading two columns does not go beyond the arrays
 or the rows of the file

---
 src/utility/io/read_CSVfiles.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility/io/read_CSVfiles.hpp b/src/utility/io/read_CSVfiles.hpp
index d6500c6..b7fe335 100644
--- a/src/utility/io/read_CSVfiles.hpp
+++ b/src/utility/io/read_CSVfiles.hpp
@@ -13,6 +13,7 @@
 #include "../../types/matrix.hpp"
 #include "../util_debug.hpp"
 
+#include <algorithm>
 #include <string>
 #include <iostream>
 #include <fstream>
@@ -152,7 +153,8 @@ void loadCSV_2col(const Tpath &name, Tx &x, Ty &y, int n = 0)
       j++;
     }
   } else {                                                 //!< It must be a std::array, then just read without clear.
-    while ((n == 0 || j < n) && (in >> x[j] >> c >> y[j])) //!< Read file.
+    const int n_max = std::min(x.size(), y.size());
+    while (j < n_max && (n == 0 || j < n) && (in >> x[j] >> c >> y[j])) //!< Read file.
       j++;
   }
 }
@@ -250,6 +252,8 @@ void loadCSV_2col(const Tpath &name, std::span<double> &x, std::span<double> &y,
     XYdataMap[name_str] = std::move(xyp);
   }
 
+  n = std::min(n, static_cast<int>(XYdataMap[name_str].x_vec.size())); //!< there are no more rows
+
   if (n == 0) {
     x = std::span<double>(XYdataMap[name_str].x_vec);
     y = std::span<double>(XYdataMap[name_str].y_vec);
-- 
2.43.0


From 5e3bba7b60feda5562d51155c11519ec272dc09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 39/41] fix: reading a file with nothing but a byte order mark
 ends

---
 src/utility/io/read_CSVfiles.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/io/read_CSVfiles.hpp b/src/utility/io/read_CSVfiles.hpp
index b7fe335..ebce34d 100644
--- a/src/utility/io/read_CSVfiles.hpp
+++ b/src/utility/io/read_CSVfiles.hpp
@@ -60,7 +60,7 @@ inline void ignoreBOM(std::ifstream &in)
 
   do {
     in >> c;
-  } while (c < 45); //!< Ignore byte order mark (BOM) at the beginning
+  } while (in && c < 45); //!< Ignore byte order mark (BOM) at the beginning
 
   in.putback(c);
 }
-- 
2.43.0


From 8d8a9d3f04f14ffc665e3954e477fa69e075a1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:10 +0000
Subject: [PATCH 40/41] fix: the realistic use case starts a new file of
 throughputs instead of adding to that of an earlier test

---
 src/procedures/Procedure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 1124974..d926feb 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -177,6 +177,8 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
   ThroughputData th{};
   Status succ;
 
+  writeThroughput(su->getFullID(), 0); //!< start a new file, the first check-up comes after the initial discharge
+
   //!< fully discharge the SU at a C/2
   succ = cyc.CC(su->Cap() / 2.0, su->Vmin(), TIME_INF, dt, ndata, th);
 
-- 
2.43.0


From e6c1254ccf1b2b8fd0c211360d1cb8c096992fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:35 +0000
Subject: [PATCH 41/41] fix: a check-up of a pack with different kinds of cells
 writes the states of each kind completely

---
 src/procedures/Procedure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index d926feb..32d427c 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -463,7 +463,6 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
   //  open and clear whatever was there since we want to write the most recent stats only
 
   //!< do the main checkup, which writes the throughput, capacity and state of every cell
-  const size_t start = (typeid(*cells[0]) == typeid(Cell_SPM)) ? 2 * settings::nch : 0; // #TODO : Consider having different type of cells.
   //!< Write the throughput of each cell
 
   //!< If this is the first checkup, start by writing the cell IDs and cell-to-cell parameters
@@ -489,6 +488,7 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
 
     file << th.time() << ',' << th.Ah() << ',' << th.Wh() << ',' << cap;
 
+    const size_t start = (typeid(*cell) == typeid(Cell_SPM)) ? 2 * settings::nch : 0;
     const auto st_view = cell->viewStates();         //!< write the state of a cell, if an SPM cell, skip the concentration states since they don't give info
     for (size_t i{ start }; i < st_view.size(); i++) //!< loop for each state variable (rows)
       file << ',' << st_view[i];
-- 
2.43.0

